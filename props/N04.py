"""N04: node times, node variables and predicates over nodes."""
from vf import proof, bytes as B, node as N, trans as T
F = "nodeobs.cc"
FILES = N.FILES + T.FILES + ["exec/NodeOperator.cc", "exec/NodeOperatorImpl.cc", "exec/NodeOperators.cc", "exec/NodeFunction.cc", "value/Value.cc", "expr/SimpleBooleanVariable.cc", "expr/BooleanOperators.cc", "expr/Operator.cc", "expr/OperatorImpl.cc", "expr/Function.cc", "intfc/CommandImpl.cc", "intfc/CommandFunction.cc", "intfc/CommandHandleVariable.cc", "value/CommandHandle.cc", "intfc/State.cc", "intfc/ExprVec.cc", "expr/ExpressionConstants.cc"]
CONTRACTS = ["NodeImpl::setState and logTransition with any number of recorded timepoints; getStateStartTime, getCurrentStateStartTime, ensureTimepoint; NodeTimepointValue constructor, setValue, reset, getValue, isKnown, state, isEnd, next, setNext",
             "NodeOperators: Inactive, Waiting, Executing, IterationEnded, Finished, Succeeded, Failed, Skipped, PostconditionFailed, NoChildFailed (any number of children), each as evaluated through NodeFunction and NodeOperatorImpl, and the nodes each listens to",
             "StateVariable, OutcomeVariable, FailureVariable: value, known, type", "ListNode::specializedCreateConditionWrappers with AllFinished and AllWaitingOrFinished over any number of children; NodeImpl::getCondition for the three ancestor conditions", "CommandNode::setCommand and specializedCreateConditionWrappers with CommandHandleInterruptible; UpdateNode::specializedCreateConditionWrappers"]
ASSUMPTIONS = ["publishChange by its contract (proved as E06); the clock and the executive are arbitrary objects behind their interfaces; std::vector, std::unique_ptr and std::function as the C++ standard says", "a node's timepoints form a finite list, each with its own state and end (ensureTimepoint, proved, never makes one twice); fewer than 10^9 timepoints and children"]
def build(P): return proof.build(F, FILES)
def tasks(P): return proof.tasks(F, opts={"*": {"merge": False, "houdini_ms": 20000, "portfolio": 1, "sym_unroll": 0}}, pre={"*": B.install})
def replay(P, failed, errs): return proof.replay(P, F, "exec", failed)
def selfcheck(P): return proof.selfcheck(P, F, "exec")
