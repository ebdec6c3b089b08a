"""E05: variables."""
from vf import proof, bytes as B
FILES = ["expr/Propagator.cc", "expr/Notifier.cc", "expr/Expression.cc", "expr/GetValueImpl.cc", "expr/Reservable.cc", "expr/UserVariable.cc", "expr/ArrayVariable.cc", "expr/ArrayReference.cc", "value/ArrayImpl.cc", "value/Array.cc", "value/Value.cc", "value/ValueType.cc"]
F = "variable.cc"
CONTRACTS = ["UserVariable<T> for Boolean, Integer, Real and String: constructors, activation and deactivation, setInitializer, setValue from an expression or a Value, setUnknown, isKnown, getValue, getValuePointer, toValue, saveCurrentValue, getSavedValue, restoreSavedValue, with any value, saved value and activation count",
             "ArrayVariable and ArrayVariableImpl<T> for the same element types: activation with or without initializer and maximum size, setValue, setUnknown, setElement, setElementUnknown, getElement(Pointer, Value), saveCurrentValue, getSavedValue, restoreSavedValue, with arrays of any size and contents",
             "ArrayReference: isKnown, getValue, getValuePointer, toValue; MutableArrayReference: setValue, setUnknown, saveCurrentValue, getSavedValue, restoreSavedValue, with any array, index and change of index in between"]
ASSUMPTIONS = ["publishChange by its contract (proved as E06), comparison of arrays by its contract (proved as V03), std::vector, std::unique_ptr and std::string as the C++ standard says", "a known array variable with a maximum size has that size (its invariant; established by activation and kept by assignment, both proved); fewer than 10^9 elements",
               "elements are compared with the == of their type, so a real element set to -0.0 from 0.0 may keep its sign; initializers and size expressions are arbitrary objects behind the Expression interface"]
def build(P): return proof.build(F, FILES)
def tasks(P): return proof.tasks(F, opts={"*": {"merge": False, "houdini_ms": 20000, "portfolio": 1, "sym_unroll": 0}}, pre={"*": B.install})
def replay(P, failed, errs): return proof.replay(P, F, "expr", failed)
def selfcheck(P): return proof.selfcheck(P, F, "expr")
