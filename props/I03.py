"""I03: lookups on change."""
from vf import proof, bytes as B
FILES = ["expr/Propagator.cc", "expr/Notifier.cc", "expr/Expression.cc", "intfc/CachedValueImpl.cc", "intfc/CachedValue.cc", "intfc/State.cc", "intfc/ExprVec.cc", "value/Value.cc", "value/ValueType.cc"]
F = "lookup.cc"
CONTRACTS = ["ThresholdCacheImpl<Integer>, <Real>: toleranceChanged, thresholdsExceeded, setThresholds, getThresholds; ThresholdCacheFactory", "LookupOnChange: valueChanged, handleChange, updateInternal, handleActivate, handleDeactivate, invalidateOldState, getValue, toValue, getThresholds, for Integer and Real values", "LookupImpl: getState with any number of parameters, handleChangeInternal, ensureRegistered, unregister, valueChanged, handleActivate, handleDeactivate, isKnown, getValue, toValue", "State::setName, operator==, operator=, with no parameters"]
ASSUMPTIONS = ["std::vector and std::string behave as the C++ standard says (assumed contracts)", "Notifier::publishChange is used by its contract: an active notifier tells its listeners", "the state cache hands out one entry per state; the entry is an unrestricted stub that may deliver a value while the lookup is being registered", "in the proof of getState, State::setParameterCount and setParameter are used by contract, and there are at most 10^9 parameters", "a lookup's value and its tolerance are numbers of one type"]
def build(P): return proof.build(F, FILES)
def tasks(P):
    o = {"merge": False, "houdini_ms": 20000, "portfolio": 1, "sym_unroll": 0}
    return proof.tasks(F, opts={"*": o, **{n: {**o, "abstract_float": True} for n in proof.proofs(F) if n.endswith("_Real")}}, pre={"*": B.install})
def replay(P, failed, errs): return proof.replay(P, F, "intfc", failed)
def selfcheck(P): return proof.selfcheck(P, F, "intfc")
