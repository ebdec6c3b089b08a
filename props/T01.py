"""T01: time arithmetic."""
from vf import proof
FILES = ["utils/timeval-utils.cc", "utils/timespec-utils.cc"]
F = "time.cc"
CONTRACTS = ["timeval/timespec operator+, operator-, operator<, operator>, operator==, doubleToTimeval, doubleToTimespec, timevalToDouble, timespecToDouble, timevalNormalize, timespecNormalize"]
ASSUMPTIONS = ["time_t and suseconds_t are 64 bit signed integers; sums are within their range (|seconds| < 2^60)"]
def build(P): return proof.build(F, FILES)
def tasks(P): return proof.tasks(F, opts={n: {"merge": False} for n in ("timeval_arith", "timespec_arith")})
def replay(P, failed, errs): return proof.replay(P, F, "utils", failed)
def selfcheck(P): return proof.selfcheck(P, F, "utils")
