"""I02: cached states."""
from vf import proof, bytes as B
FILES = ["expr/Propagator.cc", "expr/Notifier.cc", "expr/Expression.cc", "intfc/Dispatcher.cc", "intfc/CachedValueImpl.cc", "intfc/CachedValue.cc", "value/ArrayImpl.cc", "value/Array.cc", "value/Value.cc", "value/ValueType.cc"]
F = "cached.cc"
CONTRACTS = ["CachedValueImpl<T> (all ten instantiations) update, updatePtr, setUnknown, operator==, operator=, toValue, getValue, getValuePointer, clone", "VoidCachedValue update, setUnknown; CachedValueFactory", "StateCacheEntryImpl ensureCachedValue, update (every form), updateValue, updatePtr, setUnknown, notify, updateThresholds, integerUpdateThresholds, realUpdateThresholds, registerLookup, unregisterLookup, with any number of registered lookups"]
ASSUMPTIONS = ["std::vector, std::vector<bool> and std::string behave as the C++ standard says (assumed contracts)", "the equality of arrays is used by its contract (proved in V03)", "a lookup is registered at most once with an entry; fewer than 10^9 lookups", "the dispatcher's lookupNow, setThresholds and clearThresholds are unrestricted stubs that record their arguments", "the entry's update(T const ary[], size_t) convenience forms are not covered"]
def build(P): return proof.build(F, FILES)
def tasks(P): return proof.tasks(F, opts={"*": {"merge": False, "houdini_ms": 20000, "portfolio": 1, "sym_unroll": 0}}, pre={"*": B.install})
def replay(P, failed, errs): return proof.replay(P, F, "intfc", failed)
def selfcheck(P): return proof.selfcheck(P, F, "intfc")
