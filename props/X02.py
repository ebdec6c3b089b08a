"""X02: queues of nodes and their recorded status."""
from vf import proof, bytes as B, node as N, trans as T, build as bld
F = "execqueue.cc"
FILES = N.FILES + T.FILES + ["value/Value.cc", "expr/ExpressionConstants.cc"]
CONTRACTS = ["NodeImpl::notify, notifyChanged, notifyResourceAvailable, setQueueStatus, getQueueStatus", "PlexilExecImpl: getCandidateNode, getStateChangeNode, getFinishedRootNode, addCandidateNode, addStateChangeNode, addPendingNode, removePendingNode, addFinishedRootNode, markRootNodeFinished, resourceCheckRequired, resourceCheckEligible"]
BOUNDED = ["PlexilExecImpl::resolveResourceConflicts: at most three pending nodes"]
ASSUMPTIONS = ["queue operations by their contracts (proved as X03)", "nodes' conditions and resources are unrestricted stubs in the executive's proofs; trying for or giving up resources tells no other node (X01: only a release does)", "a finished root node awaiting deletion is not notified (it has no active conditions)"]
def build(P): return proof.build(F, FILES)
def tasks(P): return proof.tasks(F, opts={"*": {"merge": False, "houdini_ms": 3000, "portfolio": 1, "sym_unroll": 8}}, pre={"*": B.install})
def replay(P, failed, errs): return proof.replay(P, F, "exec", failed)
def selfcheck(P): return proof.selfcheck(P, F, "exec")
