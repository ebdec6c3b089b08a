"""E01: three-valued boolean connectives."""
from vf import build as bld
from vf.engine import *
from vf import engine as E
from vf.model import *
from vf.report import Task
import z3, itertools, subprocess

FILES = OPFILES + ["expr/BooleanOperators.cc"]
CONTRACTS = ["PLEXIL::BooleanNot/Or/And/Xor::operator()(bool&, ...) [1, 2 and n operands]: result and known flag equal three-valued logic over the operands"]
ASSUMPTIONS = ["operands obey the Expression::getValue interface contract (return value = known, result written when known)",
               "an argument list has at least one and fewer than 2^48 arguments"]
OPS = ("And", "Or", "Xor")

def build(P):
    return bld.module(FILES)

class Quant:
    """the same notion as Conj, written with a quantifier (used on the second attempt: any visiting order)"""
    def __init__(s, p): s.p = p
    def __call__(s, n): return forall_in(E.BV(0, 64), n, s.p)

def run(op, form):
    def go(eng):
        fam = ExprFamily(eng)
        known = lambda j: fam.known(j + 1); val = lambda j: fam.b(j + 1)
        parity = Fold("parity", BOOL, z3.BoolVal(False), lambda a, j: z3.Xor(a, val(j)))
        P_ = {"all_known": known, "none_true": lambda j: z3.Not(z3.And(known(j), val(j))), "none_false": lambda j: z3.Not(z3.And(known(j), z3.Not(val(j))))}
        nn = eng.sym("nargs", B64); fc = []; tm = []; ax = []
        if form != 'n':
            class C:
                def __init__(s, p): s.p = p
                def __call__(s, n): return z3.And(*[s.p(E.BV(i, 64)) for i in range(form)])
            cs = {k: C(p) for k, p in P_.items()}
        elif eng.opts.get("attempt"):
            cs = {k: Quant(p) for k, p in P_.items()}
            tm = [quant_templates(P_, nn), fold_templates({"parity": parity})]
            j = z3.BitVec("pj", 64)
            if op == "Xor": ax = [parity(E.BV(0, 64)) == False, z3.ForAll([j], parity(j + 1) == z3.Xor(parity(j), val(j)), patterns=[parity(j + 1), val(j)])]
        else:
            cs = {k: Conj(k, p) for k, p in P_.items()}
            for c in cs.values(): c.prove_lemma(eng)
            fc = [fold_facts([parity], list(cs.values()), nn)]
            tm = [bool_fold_invariants(list(cs.values())), fold_templates({"parity": parity, **cs})]
        def check(e, st, got, rv, n):
            for f in fc:
                for c in f(E.BV(0, 64)): st.assume(c)
            allK, anyT, anyF = cs["all_known"](n), z3.Not(cs["none_true"](n)), z3.Not(cs["none_false"](n))
            if op == "Not": k, v = allK, z3.Not(val(E.BV(0, 64)))
            elif op == "And": k, v = z3.Or(anyF, allK), z3.Not(anyF)
            elif op == "Or": k, v = z3.Or(anyT, allK), anyT
            else:
                k = allK
                if form == 'n': v = parity(n)
                else:
                    v = val(E.BV(0, 64))
                    for i in range(1, form): v = z3.Xor(v, val(E.BV(i, 64)))
            e.oblige(st, f"{op}/{form}: known flag = three-valued logic", got == k)
            e.oblige(st, f"{op}/{form}: value = three-valued logic when known", z3.Implies(z3.And(got, k), bv(rv, 8) == z3.If(v, E.BV(1, 8), E.BV(0, 8))))
        eval_fn(eng, f"N6PLEXIL{len('Boolean'+op)}Boolean{op}E", "getValue(bool&) const", form, I8, fam, check, tmpl=tm, axioms=ax, facts=fc)
    return go

def tasks(P):
    t = [Task("Not/1", run("Not", 1))]
    for op in OPS:
        for form in ('n', 1, 2, 3, 4): t.append(Task(f"{op}/{form}", run(op, form), alt=True))
    return t

OPS_ALL = [("And", "b"), ("Or", "b"), ("Xor", "b"), ("Not", "b")]
def replay(P, failed, errs):
    from vf import rexpr
    return rexpr.replay(OPS_ALL, P.seed, rexpr.from_models(failed))
