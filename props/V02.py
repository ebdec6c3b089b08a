"""V02: serialization."""
from vf import proof, bytes as B
FILES = ["value/ArrayImpl.cc", "value/Array.cc", "value/Value.cc", "value/ValueType.cc"]
F = "serial.cc"
CONTRACTS = ["serialize<T>, deserialize<T>, serialSize<T> for Boolean, Integer, Real, String, CommandHandleValue", "Value::serialize, deserialize, serialSize for every type, reading over a value of any type", "ArrayImpl<T>::serialize, deserialize, serialSize for Boolean, Integer, Real, String; serializeBoolVector, deserializeBoolVector, bitVectorSize, serializeElement, deserializeElement; array values and string arrays by the contracts of the functions they call"]
ASSUMPTIONS = ["std::vector, std::vector<bool> and std::string behave as the C++ standard says (assumed contracts)", "the buffer is as large as the announced size"]
def build(P): return proof.build(F, FILES)
def tasks(P): return proof.tasks(F, opts={"*": {"houdini_ms": 20000, "lean": 1, "portfolio": 1, "sym_unroll": 0}}, pre={"*": B.install})
def replay(P, failed, errs): return proof.replay(P, F, "value", failed)
def selfcheck(P): return proof.selfcheck(P, F, "value")
