"""I01: the queue of external events."""
from vf import proof, bytes as B, build as bld
FILES = ["app-framework/SimpleInputQueue.cc", "app-framework/SerializedInputQueue.cc", "intfc/QueueEntry.cc", "intfc/State.cc", "value/Value.cc", "value/ValueType.cc"]
F = "inqueue.cc"
CONTRACTS = ["SimpleInputQueue and SerializedInputQueue: constructor, isEmpty, put, get, allocate, release, flush (any number of entries)", "QueueEntry: constructor, reset, every initFor... method"]
ASSUMPTIONS = ["the entries of a queue, and the free ones, are distinct objects linked through their next pointer (the representation invariant, re-established by each operation)", "std::mutex provides mutual exclusion; between a thread's unlock and its next lock other threads may change the queue arbitrarily", "QueueEntry::reset is used by contract in the proofs about queues; its own proof is here", "queues hold at most 10^9 entries; std::string and std::vector behave as the C++ standard says"]
def pre(eng):
    B.install(eng); eng.rx = [r for r in eng.rx if "lock_guard" not in r[0].pattern]
def build(P): return proof.build(F, FILES)
def tasks(P): return proof.tasks(F, opts={"*": {"merge": False, "houdini_ms": 3000, "portfolio": 1, "sym_unroll": 0, "witness_links": True}}, pre={"*": pre})
LIB = lambda: bld.layer("intfc") + ["app-framework/SimpleInputQueue.cc", "app-framework/SerializedInputQueue.cc"]
def replay(P, failed, errs): return proof.replay(P, F, LIB(), failed)
def selfcheck(P): return proof.selfcheck(P, F, LIB())
