"""X01: mutexes and reserved variables."""
from vf import proof, bytes as B, build as bld, node as N, trans as T, rtrans as R
from vf.report import Task
F = "reserve.cc"
CONTRACTS = ["Reservable: constructor, getHolder, acquire, release, addWaitingNode, removeWaitingNode, with any number of waiting nodes and any holder",
             "NodeImpl::tryResourceAcquisition, releaseResourceReservations and acquiresResources with any number of mutexes, an assignment variable or none, against those contracts",
             "NodeImpl::transition with every transitionFrom*/transitionTo*/specialized* member of the six node types it reaches: mutexes and the assigned variable are given back on leaving execution and kept otherwise"]
ASSUMPTIONS = ["std::vector, std::find and std::unique_ptr behave as the C++ standard says", "the mutexes a node uses are distinct, and none is held by the node itself before it starts; fewer than 10^9 of them",
               "the refusal of a mutex held by an ancestor is proved for a chain of up to two ancestors and one mutex (an unrolled loop), acquisition for a node with at most one parent", "on entry to a transition the node holds its resources exactly if it runs"]
def build(P): return bld.module(N.FILES + T.FILES, N.HARNESS + proof.text(F), layout=dict(N.LAYOUT), includes=N.INCLUDES + T.INCLUDES)
def tasks(P): return proof.tasks(F, opts={"*": {"merge": False, "houdini_ms": 20000, "portfolio": 1, "sym_unroll": 0}}, pre={"*": B.install}) + T.tasks(Task, "resources")
def both(a, b): return {**a, "confirmed": (a["confirmed"] + b["confirmed"])[:20], "note": a["note"] + "; " + b["note"], "how": a.get("how", "") + "; " + b.get("how", "")}
def replay(P, failed, errs):
    own = lambda o: bool(o.get("cex")) and "proof" in o["cex"]
    return both(proof.replay(P, F, "exec", [x for x in failed if own(x[1])]), R.replay(P, [x for x in failed if not own(x[1])], "resources"))
def selfcheck(P): return both(proof.selfcheck(P, F, "exec"), R.selfcheck(P, "resources"))
