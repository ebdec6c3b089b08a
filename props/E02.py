"""E02: arithmetic operators."""
from vf import build as bld
from vf.engine import *
from vf import engine as E
from vf.model import *
from vf.report import Task
import z3

FILES = OPFILES + ["expr/ArithmeticOperators.cc"]
CONTRACTS = ["Addition/Subtraction/Multiplication/Division/Modulo/Minimum/Maximum/AbsoluteValue/SquareRoot <Integer, Real>::calc through Function::getValue(int&), getValue(double&) [1..4 and n operands]"]
ASSUMPTIONS = ["operands obey the Expression::getValue interface contract", "integer results are taken modulo 2^32 (two's complement), as the compiled code computes them",
               "floating point add, subtract, multiply, divide and fmod are uninterpreted: the proof shows they are applied to the right operands in the right order"]

def build(P): return bld.module(FILES)

MIN = E.BV(1 << 31, 32)
def spec(op, T, v, n, form):
    """-> (defined?, value) over operand values v(i); n-ary via fold"""
    I = T == "Integer"; x, y = v(E.BV(0, 64)), v(E.BV(1, 64))
    u = lambda nm: (lambda a, b: z3.Function("uf_" + nm, E.F64, E.F64, E.F64)(a, b))
    add = (lambda a, b: a + b) if I else u("fadd"); sub = (lambda a, b: a - b) if I else u("fsub"); mul = (lambda a, b: a * b) if I else u("fmul")
    lt = (lambda a, b: a < b) if I else z3.fpLT
    neg = (lambda a: -a) if I else z3.fpNeg
    zero = E.BV(0, 32) if I else z3.FPVal(0.0, E.F64)
    sort = z3.BitVecSort(32) if I else E.F64
    if op == "Division":
        if I: return z3.And(y != 0, z3.Not(z3.And(x == MIN, y == E.BV(2**32-1, 32)))), x / y
        return z3.Not(z3.fpEQ(y, zero)), u("fdiv")(x, y)
    if op == "Modulo":
        if I: return y != 0, z3.SRem(x, y)
        return z3.Not(z3.fpEQ(y, zero)), u("fmod")(x, y)
    if op == "AbsoluteValue": return z3.BoolVal(True), z3.If(lt(x, zero), neg(x), x)
    if op == "SquareRoot": return z3.Not(z3.fpLT(x, zero)), z3.fpSqrt(E.RM, x)
    step = {"Addition": lambda a, j: add(a, v(j)), "Subtraction": lambda a, j: sub(a, v(j)), "Multiplication": lambda a, j: mul(a, v(j)),
            "Minimum": lambda a, j: z3.If(lt(v(j), a), v(j), a), "Maximum": lambda a, j: z3.If(lt(a, v(j)), v(j), a)}[op]
    if op == "Addition" and form not in (1, 2): return Fold("sum", sort, zero, step), 0
    if form == 1: return z3.BoolVal(True), (neg(x) if op == "Subtraction" else x)
    if form == 2: return z3.BoolVal(True), {"Addition": lambda: add(x, y), "Subtraction": lambda: sub(x, y), "Multiplication": lambda: mul(x, y),
                 "Minimum": lambda: z3.If(lt(x, y), x, y), "Maximum": lambda: z3.If(lt(y, x), x, y)}[op]()
    return Fold(op, sort, x, step), 1

def val_eq(a, b, T):
    return bv(a, 32) == bv(b, 32) if T == "Integer" else z3.Or(a == b, z3.And(z3.fpIsZero(a), z3.fpIsZero(b)))

def run(op, T, form, as_real=False):
    def go(eng):
        eng.opts["abstract_float"] = True
        fam = ExprFamily(eng)
        v = lambda j: (fam.i if T == "Integer" else fam.r)(j + 1)
        known = lambda j: fam.known(j + 1)
        code = "i" if T == "Integer" else "d"
        cls = f"N6PLEXIL{len(op)}{op}I{code}EE"
        sp = spec(op, T, v, None, form)
        fold = isinstance(sp[0], Fold); ax = []; tm = []; fc = []
        nn = eng.sym("nargs", B64)
        if fold:
            F, first = sp
            allk_ = Conj("all_known", known)
            if form == 'n': allk_.prove_lemma(eng)
            fc = [fold_facts([F], [allk_], nn, first)]
            tm = [bool_fold_invariants([allk_]), fold_templates({op: F})]
        R = "Real" if as_real or T == "Real" else "Integer"
        def check(e, st, k, r, n):
            if fold:
                if form == 'n':
                    for f in fc:
                        for c in f(E.BV(0, 64)): st.assume(c)
                allk = allk_(n) if form == 'n' else z3.And(*[known(E.BV(i, 64)) for i in range(form)]); d, val = z3.BoolVal(True), F(n)
                if form != 'n':
                    a = F.init
                    for i in range(first, form): a = F.step(a, E.BV(i, 64))
                    val = a
            else:
                allk = z3.And(*[known(E.BV(i, 64)) for i in range(form)]); d, val = sp
            want = z3.And(allk, d)
            e.oblige(st, f"{op}<{T}>/{form}: known exactly when all operands known and operation defined", k == want)
            if op in ("Minimum", "Maximum") and T == "Real" and form != 'n':      # unordered operands: result not specified
                for i in range(form): st.assume(z3.Not(z3.fpIsNaN(v(E.BV(i, 64)))))
            if R == "Real" and T == "Integer": val = z3.fpSignedToFP(E.RM, val, E.F64)
            e.oblige(st, f"{op}<{T}>/{form}: value", z3.Implies(z3.And(k, want), val_eq(r, val, R)))
        eval_fn(eng, cls, "getValue(int&) const" if R == "Integer" else "getValue(double&) const", form, I32 if R == "Integer" else F64T, fam, check, tmpl=tm, facts=fc)
    return go

def tasks(P):
    t = []
    for T in ("Integer", "Real"):
        for op in ("Addition", "Subtraction", "Multiplication", "Minimum", "Maximum"):
            for form in (1, 2, 3, 4, 'n'):
                t.append(Task(f"{op}<{T}>/{form}", run(op, T, form), alt=T == "Real"))
                if T == "Integer" and form in (1, 2, 'n'): t.append(Task(f"{op}<{T}>/{form} as Real", run(op, T, form, True)))
        for op in ("Division", "Modulo"): t.append(Task(f"{op}<{T}>/2", run(op, T, 2)))
        t.append(Task(f"AbsoluteValue<{T}>/1", run("AbsoluteValue", T, 1)))
    t.append(Task("SquareRoot<Real>/1", run("SquareRoot", "Real", 1)))
    t.sort(key=lambda x: 0 if '/n' in x.name else 1)
    return t

OPS_ALL = [(o, t) for o in ("Addition", "Subtraction", "Multiplication", "Division", "Modulo", "Minimum", "Maximum", "AbsoluteValue") for t in "id"] + [("SquareRoot", "d")]
def replay(P, failed, errs):
    from vf import rexpr
    return rexpr.replay(OPS_ALL, P.seed, rexpr.from_models(failed))
