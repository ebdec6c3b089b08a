"""N02: conditions active after every transition are exactly those the new state reads."""
from vf import node as N, trans as T, rtrans as R
from vf.report import Task
CONTRACTS = ["NodeImpl::transition with every transitionFrom*/transitionTo*/specialized*/activate*/deactivate* member of the six node types it reaches: activation ledger of every condition, local variable and the executable"]
ASSUMPTIONS = ["conditions, local variables, mutexes and children are arbitrary objects behind the Expression, Reservable and Node interfaces",
               "on entry the ledger matches the current state (this is the invariant; it is established by construction in INACTIVE and kept by every legal step)"]
def build(P): return N.build(T.FILES, T.INCLUDES)
def tasks(P): return T.tasks(Task, "ledger")
def replay(P, failed, errs): return R.replay(P, failed, "ledger")
def selfcheck(P): return R.selfcheck(P, "ledger")
