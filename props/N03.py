"""N03: what a transition does: stores the decision, performs the node's action, tells those who depend on it."""
from vf import node as N, trans as T, rtrans as R
from vf.report import Task
CONTRACTS = ["NodeImpl::transition with everything it reaches in the six node types: state, outcome and failure type become the decided ones, pending decision is cleared, listeners notified once and after the stores, actions enqueued exactly on the table's edges, children that depend on the new state notified, node queued for re-check once"]
ASSUMPTIONS = ["conditions, local variables, mutexes and children are arbitrary objects behind the Expression, Reservable and Node interfaces",
               "CommandImpl, Assignment and UpdateImpl calls are counted here; what they do is decided under I05, X01 and E05"]
def build(P): return N.build(T.FILES, T.INCLUDES)
def tasks(P): return T.tasks(Task, "decision")
def replay(P, failed, errs): return R.replay(P, failed, "decision")
def selfcheck(P): return R.selfcheck(P, "decision")
