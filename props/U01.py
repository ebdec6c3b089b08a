"""U01: numbers in UDP messages."""
from vf import proof, build as bld
from vf.engine import *
FILES = ["interfaces/UdpAdapter/udp-utils.cc"]
F = "udp.cc"
CONTRACTS = ["encode_int32_t, encode_short_int, encode_float, decode_int32_t, decode_short_int, decode_float"]
ASSUMPTIONS = ["htonl/htons/ntohl/ntohs swap bytes (little-endian host, C library)", "NaN payloads are not distinguished"]
def build(P): return proof.build(F, FILES)
def tasks(P): return proof.tasks(F)
def replay(P, failed, errs): return proof.replay(P, F, FILES + bld.layer("utils"), failed)
def selfcheck(P): return proof.selfcheck(P, F, FILES + bld.layer("utils"))
