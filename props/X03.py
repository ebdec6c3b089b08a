"""X03: intrusive queues."""
from vf import proof
FILES = []
F = "queue.cc"
CONTRACTS = ["LinkedQueue<T>::push, pop, insert_after, remove, find_if, remove_if, clear, front, size, empty, begin, end", "LinkedQueueIterator / LinkedQueueConstIterator: dereference, ++, ==", "PriorityQueue<T>::insert, front_count"]
ASSUMPTIONS = ["queue members are distinct objects linked through their own next pointer, front to tail (the representation invariant, re-established by each operation)", "templates verified at an item type whose next()/nextPtr() access one field, as the two classes require", "queues hold at most 10^9 items"]
def build(P): return proof.build(F, [])
def tasks(P): return proof.tasks(F, opts={"front_count": {"houdini_ms": 500}, "priority_insert": {"houdini_ms": 700}})
def replay(P, failed, errs): return proof.replay(P, F, "utils", failed)
def selfcheck(P): return proof.selfcheck(P, F, "utils")
