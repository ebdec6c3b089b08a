"""I05: commands."""
from vf import proof, bytes as B
FILES = ["expr/Propagator.cc", "expr/Notifier.cc", "expr/Expression.cc", "expr/SimpleBooleanVariable.cc", "expr/GetValueImpl.cc", "intfc/CommandImpl.cc", "intfc/CommandFunction.cc", "intfc/CommandHandleVariable.cc", "intfc/State.cc", "intfc/ExprVec.cc", "value/Value.cc", "value/ValueType.cc", "value/CommandHandle.cc"]
F = "command.cc"
CONTRACTS = ["CommandImpl: constructor, activate, deactivate, setCommandHandle, returnValue, acknowledgeAbort, checkConstant, fixCommandName, fixCommandArgs (any number of arguments), fixResourceValues (any number of resources), fixValues, getters", "ResourceSpec::isConstant, activate, deactivate", "CommandHandleVariable, CommandHandleKnown, SimpleBooleanVariable", "commandReturn, commandHandleReturn, commandAbortAcknowledge"]
ASSUMPTIONS = ["std::vector and std::string behave as the C++ standard says (assumed contracts)", "Notifier::publishChange is used by its contract: an active notifier tells its listeners (proved in E06)", "the arbiter, the expressions and the return variable are unrestricted stubs; every resource has a name and a priority (the plan reader requires both) and resource expressions are known", "State::setParameterCount and setParameter are used by contract in the proof about arguments; at most 10^9 arguments and resources", "resource names are compared natively only"]
def build(P): return proof.build(F, FILES)
def tasks(P): return proof.tasks(F, opts={"*": {"merge": False, "houdini_ms": 20000, "portfolio": 1, "sym_unroll": 0}}, pre={"*": B.install})
def replay(P, failed, errs): return proof.replay(P, F, "intfc", failed)
def selfcheck(P): return proof.selfcheck(P, F, "intfc")
