"""E04: real to integer conversions."""
from vf import build as bld
from vf.engine import *
from vf import engine as E
from vf.model import *
from vf.report import Task
import z3

FILES = OPFILES + ["expr/ConversionOperators.cc"]
CONTRACTS = ["Ceiling/Floor/Round/Truncate <Integer, Real> and RealToInteger through Function::getValue: known exactly when defined, value the mathematical one"]
ASSUMPTIONS = ["operands obey the Expression::getValue interface contract", "libm ceil, floor, round, trunc round as IEEE 754 prescribes (assumed contract)"]
def build(P): return bld.module(FILES)

LO, HI = z3.FPVal(-2.0**31, E.F64), z3.FPVal(2.0**31 - 1, E.F64)
MODE = {"Ceiling": z3.RTP(), "Floor": z3.RTN(), "Round": z3.RNA(), "Truncate": z3.RTZ()}
def run(op, T, as_real=False):
    def go(eng):
        fam = ExprFamily(eng); x = fam.r(E.BV(1, 64)); known = fam.known(E.BV(1, 64))
        rnd = x if op == "RealToInteger" else z3.fpRoundToIntegral(MODE[op], x)
        cls = f"N6PLEXIL{len(op)}{op}" + ("" if op == "RealToInteger" else "I" + ("i" if T == "Integer" else "d") + "E") + "E"
        # a real is an Integer value when it equals the real image of some 32-bit integer (the roundings always are integral)
        integral = z3.fpEQ(rnd, z3.fpSignedToFP(E.RM, z3.fpToSBV(z3.RTZ(), rnd, z3.BitVecSort(32)), E.F64)) if op == "RealToInteger" else z3.BoolVal(True)
        fits = z3.And(z3.fpGEQ(rnd, LO), z3.fpLEQ(rnd, HI), integral) if T == "Integer" else z3.BoolVal(True)
        R = "Real" if as_real or T == "Real" else "Integer"
        def check(e, st, k, r, n):
            e.oblige(st, f"{op}<{T}>: known exactly when the operand is known and the result fits", k == z3.And(known, fits))
            if T == "Integer":
                iv = z3.fpToSBV(z3.RTZ(), rnd, z3.BitVecSort(32))
                if R == "Integer": c = bv(r, 32) == iv
                else: c = z3.fpEQ(r, rnd)
            else: c = z3.Or(r == rnd, z3.fpEQ(r, rnd))
            e.oblige(st, f"{op}<{T}>: value", z3.Implies(z3.And(k, known, fits), c))
        eval_fn(eng, cls, "getValue(int&) const" if R == "Integer" else "getValue(double&) const", 1, I32 if R == "Integer" else F64T, fam, check)
    return go
def tasks(P):
    t = []
    for op in ("Ceiling", "Floor", "Round", "Truncate"):
        t += [Task(f"{op}<Integer>", run(op, "Integer")), Task(f"{op}<Real>", run(op, "Real")), Task(f"{op}<Integer> as Real", run(op, "Integer", True))]
    return t + [Task("RealToInteger", run("RealToInteger", "Integer")), Task("RealToInteger as Real", run("RealToInteger", "Integer", True))]

OPS_ALL = [(o, t) for o in ("Ceiling", "Floor", "Round", "Truncate") for t in "id"] + [("RealToInteger", "i")]
def replay(P, failed, errs):
    from vf import rexpr
    return rexpr.replay(OPS_ALL, P.seed, rexpr.from_models(failed))
