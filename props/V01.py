"""V01: values."""
from vf import proof
FILES = ["value/ArrayImpl.cc", "value/Array.cc", "value/Value.cc", "value/ValueType.cc"]
F = "value.cc"
CONTRACTS = ["Value: constructors, copy/move construction and assignment, typed assignment, setUnknown, getValue, getValuePointer, toValue, equals, lessThan, comparison operators, for every type", "ArrayImpl<T>::operator== (typed and generic), operator!=, <, <=, >, >= for Boolean, Integer, Real, String"]
ASSUMPTIONS = ["std::vector, std::vector<bool> and std::string behave as the C++ standard says (assumed contracts); string order is an arbitrary total order", "NaN is excluded from equality and order (IEEE NaN is unequal to itself)", "arrays hold at most 10^9 elements"]
def build(P): return proof.build(F, FILES)
def tasks(P): return proof.tasks(F)
def replay(P, failed, errs): return proof.replay(P, F, "value", failed)
def selfcheck(P): return proof.selfcheck(P, F, "value")
