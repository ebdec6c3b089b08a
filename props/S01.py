"""S01: sorted maps and sets."""
from vf import proof
FILES = ["utils/stricmp.c"]
F = "simple.cc"
CONTRACTS = ["SimpleMap<K,V>::insert, find (3 forms), operator[] (2 forms), insertEntry, clear, size, empty", "SimpleSet<T>::insert, find, contains, erase, insertEntry, clear, size, empty"]
ASSUMPTIONS = ["std::lower_bound/std::binary_search meet their standard contract on ranges ordered by the comparator passed to them", "std::vector insert/erase/push_back shift elements as the standard says", "templates verified at K = V = T = int (the bodies use keys only through the comparator)"]
def build(P): return proof.build(F, [])
def tasks(P): return proof.tasks(F, opts={"*": {"feas_timeout_ms": 300}})
def replay(P, failed, errs): return proof.replay(P, F, "utils", failed)
def selfcheck(P): return proof.selfcheck(P, F, "utils")
