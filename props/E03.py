"""E03: comparisons and known tests."""
from vf import build as bld
from vf.engine import *
from vf import engine as E
from vf.model import *
from vf.report import Task
import z3

FILES = OPFILES + ["expr/Comparisons.cc", "value/ArrayImpl.cc", "value/Array.cc", "value/Value.cc"]
CONTRACTS = ["IsKnown, Equal, NotEqual, GreaterThan/GreaterEqual/LessThan/LessEqual <Integer, Real, String>::operator() through Function::getValue(bool&)"]
ASSUMPTIONS = ["operands obey the Expression::getValue interface contract; an expression of unknown type is never known; an integer expression's real value is its integer value",
               "argument types passed the operator's own type check (plan load time)",
               "std::string comparison is a total order consistent with equality", "array equality is the relation decided by property V01"]
def build(P): return bld.module(FILES)
A, B = E.BV(1, 64), E.BV(2, 64)

def cmp_task(op, T):
    def go(eng):
        fam = ExprFamily(eng)
        code = {"Integer": "i", "Real": "d", "String": "NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"}[T]
        cls = f"N6PLEXIL{len(op)}{op}I{code}EE"
        if T == "String":
            from vf.stdlib import S_rank, order_facts
            x, y = fam.s(A), fam.s(B); order_facts(eng, x, y)
            lt, gt, eq = z3.ULT(S_rank(x), S_rank(y)), z3.ULT(S_rank(y), S_rank(x)), x == y
        else:
            f = fam.i if T == "Integer" else fam.r; x, y = f(A), f(B)
            lt, gt, eq = (x < y, y < x, x == y) if T == "Integer" else (z3.fpLT(x, y), z3.fpLT(y, x), z3.fpEQ(x, y))
        want = {"GreaterThan": gt, "LessThan": lt, "GreaterEqual": z3.Or(gt, eq), "LessEqual": z3.Or(lt, eq)}[op]
        def check(e, st, k, r, n):
            kk = z3.And(fam.known(A), fam.known(B))
            e.oblige(st, f"{op}<{T}>: known exactly when both operands are", k == kk)
            e.oblige(st, f"{op}<{T}>: value", z3.Implies(z3.And(k, kk), bv(r, 8) == z3.If(want, E.BV(1, 8), E.BV(0, 8))))
        eval_fn(eng, cls, "getValue(bool&) const", 2, I8, fam, check)
    return go
def isknown(eng):
    fam = ExprFamily(eng)
    def check(e, st, k, r, n):
        e.oblige(st, "IsKnown is always known", k)
        e.oblige(st, "IsKnown is true exactly for a known operand", bv(r, 8) == z3.If(fam.known(A), E.BV(1, 8), E.BV(0, 8)))
    eval_fn(eng, "N6PLEXIL7IsKnownE", "getValue(bool&) const", 1, I8, fam, check)

TY = {}
def types():
    import re
    src = open(bld.SRC + "/value/ValueType.hh").read()
    body = src[src.index("enum ValueType"):]; body = body[body.index("{")+1:body.index("};")]
    body = re.sub(r"//.*", "", body); v = 0; out = {}
    for it in body.split(","):
        it = it.strip()
        if not it: continue
        if "=" in it:
            n, x = it.split("="); n = n.strip(); x = x.strip()
            v = out[x] if x in out else int(x, 0)
        else: n = it
        out[n] = v; v += 1
    return out
def eq_task(op, ta, tb):
    def go(eng):
        T = types(); fam = ExprFamily(eng)
        arr_eq = z3.Function("array_eq", B64, B64, BOOL); arrv = z3.Function("arr_of", B64, B64)
        areg = Region("Array", "fam", vt=eng.vtable("N6PLEXIL9ArrayImplIbEE"), iface="Array")
        eng.iface[("Array", "operator==(PLEXIL::Array const&) const")] = lambda e, st, a, i, f: arr_eq(a[0].idx, a[1].idx)
        def garr(e, st, a, ins, d):
            k = fam.known(a[0].idx); o = st.fork(); out = []
            if e.feasible(st, k): st.assume(k); st.assume(arrv(a[0].idx) != 0); e.store(st, a[1], Ptr(areg, arrv(a[0].idx), 0), PT); out.append((st, True))
            if e.feasible(o, z3.Not(k)): o.assume(z3.Not(k)); out.append((o, False))
            return out
        eng.iface[("Expression", "getValuePointer(PLEXIL::Array const*&) const")] = garr
        eng.on("PLEXIL::operator==(PLEXIL::Array const&, PLEXIL::Array const&)", lambda e, st, a, i, f: arr_eq(a[0].idx, a[1].idx))
        def pre(e, st):
            st.assume(fam.vtyp(A) == T[ta]); st.assume(fam.vtyp(B) == T[tb])
            for X, t in ((A, ta), (B, tb)):
                if t == "UNKNOWN_TYPE": st.assume(z3.Not(fam.known(X)))
                if t == "INTEGER_TYPE": st.assume(fam.r(X) == z3.fpSignedToFP(E.RM, fam.i(X), E.F64))
        t = tb if ta == "UNKNOWN_TYPE" else ta
        if {ta, tb} == {"INTEGER_TYPE", "REAL_TYPE"}: t = "REAL_TYPE"
        eq = {"BOOLEAN_TYPE": fam.b(A) == fam.b(B), "INTEGER_TYPE": fam.i(A) == fam.i(B), "REAL_TYPE": z3.fpEQ(fam.r(A), fam.r(B)), "STRING_TYPE": fam.s(A) == fam.s(B)}.get(t)
        if eq is None: eq = arr_eq(arrv(A), arrv(B)) if "ARRAY" in t else fam.e(A) == fam.e(B)
        def check(e, st, k, r, n):
            kk = z3.And(fam.known(A), fam.known(B)); w = eq if op == "Equal" else z3.Not(eq)
            e.oblige(st, f"{op} {ta},{tb}: known exactly when both operands are", k == kk)
            e.oblige(st, f"{op} {ta},{tb}: value", z3.Implies(z3.And(k, kk), bv(r, 8) == z3.If(w, E.BV(1, 8), E.BV(0, 8))))
        eval_fn(eng, f"N6PLEXIL{len(op)}{op}E", "getValue(bool&) const", 2, I8, fam, check, pre=pre)
    return go
def tasks(P):
    t = [Task("IsKnown", isknown)]
    for op in ("GreaterThan", "GreaterEqual", "LessThan", "LessEqual"):
        for T in ("Integer", "Real", "String"): t.append(Task(f"{op}<{T}>", cmp_task(op, T)))
    ts = ["BOOLEAN_TYPE", "INTEGER_TYPE", "REAL_TYPE", "STRING_TYPE", "BOOLEAN_ARRAY_TYPE", "INTEGER_ARRAY_TYPE", "REAL_ARRAY_TYPE", "STRING_ARRAY_TYPE",
          "NODE_STATE_TYPE", "OUTCOME_TYPE", "FAILURE_TYPE", "COMMAND_HANDLE_TYPE"]
    pairs = [(x, x) for x in ts] + [("INTEGER_TYPE", "REAL_TYPE"), ("REAL_TYPE", "INTEGER_TYPE"), ("UNKNOWN_TYPE", "INTEGER_TYPE"), ("INTEGER_TYPE", "UNKNOWN_TYPE"), ("STRING_TYPE", "UNKNOWN_TYPE"), ("UNKNOWN_TYPE", "STRING_TYPE")]
    for op in ("Equal", "NotEqual"):
        for p in pairs: t.append(Task(f"{op} {p[0]} {p[1]}", eq_task(op, *p)))
    return t

OPS_ALL = [("IsKnown", "b")] + [(o, t) for o in ("GreaterThan", "GreaterEqual", "LessThan", "LessEqual", "Equal", "NotEqual") for t in "ids"]
def replay(P, failed, errs):
    from vf import rexpr
    return rexpr.replay(OPS_ALL, P.seed, rexpr.from_models(failed))
