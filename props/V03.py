"""V03: arrays."""
from vf import proof
FILES = ["value/ArrayImpl.cc", "value/Array.cc", "value/Value.cc", "value/ValueType.cc"]
F = "array.cc"
CONTRACTS = ["ArrayImpl<T> for Boolean, Integer, Real, String: constructors, copy/move construction and assignment (typed and generic), clone, resize, getElement, getElementPointer, getElementValue, setElement, setElementValue", "Array::size, checkIndex, elementKnown, setElementUnknown, reset, resize, allElementsKnown, anyElementsKnown"]
ASSUMPTIONS = ["std::vector, std::vector<bool> and std::string behave as the C++ standard says (assumed contracts)", "arrays hold at most 10^9 elements"]
def build(P): return proof.build(F, FILES)
def tasks(P): return proof.tasks(F)
def replay(P, failed, errs): return proof.replay(P, F, "value", failed)
def selfcheck(P): return proof.selfcheck(P, F, "value")
