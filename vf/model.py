"""Shared abstract environment: expressions seen through the Expression interface only."""
import z3
from .engine import *
from . import engine as E
from .stdlib import STR, StrV, setstr

B64 = z3.BitVecSort(64); B32 = z3.BitVecSort(32); BOOL = z3.BoolSort()
BOOLT, I8, I32, I64, F64T, PT = E.ity(8), E.ity(8), E.ity(32), E.ity(64), E.fty(64), E.PTRT

NAMER = "N6PLEXIL8ConstantIbEE"     # any concrete Expression class: only used to name vtable slots
EXPR_FILES = ["expr/Constant.cc", "expr/Expression.cc", "expr/GetValueImpl.cc", "expr/Notifier.cc", "expr/Propagator.cc", "value/ValueType.cc"]

class ExprFamily:
    """family of expressions identified by a 64-bit id; contract of Expression::getValue et al.:
       getValue(T&) returns known(id) and, when known, stores val_T(id); when unknown the result cell is arbitrary."""
    def __init__(s, eng, name="Expr", namer=NAMER, iface="Expression"):
        s.eng = eng; s.name = name
        s.known = z3.Function(name + "_known", B64, BOOL)
        s.b = z3.Function(name + "_bool", B64, BOOL)
        s.i = z3.Function(name + "_int", B64, B32)
        s.r = z3.Function(name + "_real", B64, E.F64)
        s.s = z3.Function(name + "_str", B64, STR)
        s.e = z3.Function(name + "_enum", B64, z3.BitVecSort(8))
        s.vtyp = z3.Function(name + "_type", B64, B32)
        s.reg = Region(name, "fam", vt=eng.vtable(namer), iface=iface)
        I = eng.iface
        def put(ty, fn):
            def h(e, st, a, ins, d):
                k = s.known(a[0].idx); p = a[1]
                v = fn(a[0].idx)
                e.store(st, p, v if ty.k == 'f' else z3.If(k, bv(v, 8*ty.size), e.fresh("unk", z3.BitVecSort(8*ty.size))), ty) if ty.k != 'f' else \
                    e.store(st, p, z3.If(k, v, e.fresh("unk", E.F64)), ty)
                return k
            return h
        I[(iface, "getValue(bool&) const")] = put(I8, lambda i: z3.If(s.b(i), E.BV(1, 8), E.BV(0, 8)))
        I[(iface, "getValue(int&) const")] = put(I32, s.i)
        I[(iface, "getValue(double&) const")] = put(F64T, s.r)
        def gstr(e, st, a, ins, d):
            k = s.known(a[0].idx)
            setstr(e, st, a[1], z3.If(k, s.s(a[0].idx), e.fresh("unkstr", STR))); return k
        I[(iface, "getValue(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>&) const")] = gstr
        for t in ("NodeState", "NodeOutcome", "FailureType", "CommandHandleValue"):
            I[(iface, f"getValue(PLEXIL::{t}&) const")] = put(I8, s.e)
        def gptr(e, st, a, ins, d):
            k = s.known(a[0].idx)
            o = st.fork(); out = []
            if e.feasible(st, k):
                r = Region("strval", "obj", size=32)
                st.assume(k); e.store_cell(st, r, 0, 32, StrV(s.s(a[0].idx)))
                e.store(st, a[1], Ptr(r, None, 0), PT); out.append((st, True))
            nk = z3.Not(k)
            if e.feasible(o, nk): o.assume(nk); out.append((o, False))
            return out
        I[(iface, "getValuePointer(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const*&) const")] = gptr
        I[(iface, "isKnown() const")] = lambda e, st, a, ins, d: s.known(a[0].idx)
        I[(iface, "valueType() const")] = lambda e, st, a, ins, d: s.vtyp(a[0].idx)
        for m in ("getName", "exprName", "print", "printSpecialized", "printSubexpressions", "printValue", "toString"):
            I[(iface, m)] = lambda e, st, a, ins, d: Opaque("print")
    def at(s, i): return Ptr(s.reg, i if not isinstance(i, int) else E.BV(i, 64), 0)

class FnArgs:
    """abstract argument list: any number n of arguments, argument i is the expression with id i+1"""
    def __init__(s, eng, fam, namer, iface="Function", nmin=1):
        s.eng = eng; s.fam = fam
        s.n = eng.sym("nargs", B64)
        s.reg = Region("args", "obj", size=None, vt=eng.vtable(namer), iface=iface)
        I = eng.iface
        I[(iface, "size() const")] = lambda e, st, a, ins, d: s.n
        def at(e, st, a, ins, d):
            e.oblige(st, "argument index below argument count", z3.ULT(bv(a[1], 64), s.n), e.where(st))
            return fam.at(bv(a[1], 64) + 1)
        I[(iface, "operator[](unsigned long) const")] = at
        # the same expressions are reachable for the abstract function only through these two
    def pre(s, st, lo=1):
        st.assume(z3.ULE(E.BV(lo, 64), s.n)); st.assume(z3.ULT(s.n, E.BV(2**48, 64)))
    def ptr(s): return Ptr(s.reg, None, 0)

def method(mod, dem):
    """function by full demangled name (unique definition)"""
    fs = [f for f in mod.bydem.get(dem, []) if not f.decl]
    if not fs: raise KeyError("no function " + dem)
    return fs[0]
def methods(mod, prefix):
    return [f for d, fs in mod.bydem.items() if d.startswith(prefix) for f in fs if not f.decl]

def vmethod(eng, st, obj, sig):
    """function a virtual call obj->sig would reach: searched in the vtable stored in the object"""
    vp = eng.load1(st, obj, PT)
    ini = vp.base.meta["init"]; off = vp.off
    while off in ini and ini[off][1].k in ('func', 'null', 'global', 'expr'):
        c = ini[off][1]
        if c.k == 'func':
            d = eng.mod.funcs[c.v].dem
            if d.endswith("::" + sig) and not d.startswith(("virtual thunk", "non-virtual thunk")): return eng.mod.funcs[c.v]
        elif c.k == 'global': break
        off += 8
    raise KeyError("no virtual method " + sig)
def vtobj(eng, name, cls, size=None):
    """object of concrete class cls (mangled) with its real vtables, other fields unconstrained"""
    return Region(name, "obj", size=size, vt=eng.vtable(cls))

# ---- quantified index predicates and folds for loop templates
def forall_in(lo, hi, p, name="j"):
    j = z3.BitVec(name, 64)
    return z3.ForAll([j], z3.Implies(z3.And(z3.UGE(j, lo), z3.ULT(j, hi)), p(j)))
def exists_in(lo, hi, p, name="j"):
    j = z3.BitVec(name, 64)
    return z3.Exists([j], z3.And(z3.UGE(j, lo), z3.ULT(j, hi), p(j)))

def quant_templates(preds, n):
    """for each predicate p over an index: p holds for all / for no index seen so far (forwards or backwards),
       and each truth-valued location equals such a quantified formula."""
    def t(ctx):
        out = []
        rng = {"fwd": lambda k: (E.BV(0, 64), k), "rev": lambda k: (n - k, n), "fwd1": lambda k: (E.BV(0, 64), k + 1), "tail": lambda k: (E.BV(1, 64), k + 1)}
        for pn, p in preds.items():
            for rn, rg in rng.items():
                def all_(st, get, k, p=p, rg=rg): return forall_in(*rg(k), p)
                def none(st, get, k, p=p, rg=rg): return forall_in(*rg(k), lambda j: z3.Not(p(j)))
                out.append((f"forall {rn}: {pn}", all_)); out.append((f"forall {rn}: not {pn}", none))
                for l, cv in ctx.bools():
                    def ball(st, get, k, p=p, rg=rg, l=l, cv=cv):
                        v = get(l)
                        return None if v is None else cv(v) == forall_in(*rg(k), p)
                    def bex(st, get, k, p=p, rg=rg, l=l, cv=cv):
                        v = get(l)
                        return None if v is None else cv(v) == exists_in(*rg(k), p)
                    def nball(st, get, k, p=p, rg=rg, l=l, cv=cv):
                        v = get(l)
                        return None if v is None else cv(v) != forall_in(*rg(k), p)
                    def nbex(st, get, k, p=p, rg=rg, l=l, cv=cv):
                        v = get(l)
                        return None if v is None else cv(v) != exists_in(*rg(k), p)
                    out += [(f"{l} <-> forall {rn} {pn}", ball), (f"{l} <-> exists {rn} {pn}", bex), (f"not {l} <-> forall {rn} {pn}", nball), (f"not {l} <-> exists {rn} {pn}", nbex)]
        return out
    return t

class Fold:
    """ghost left fold F(k+1) = step(F(k), k), F(0) = init; its recurrence is used only at the points the proof asks for"""
    def __init__(s, name, sort, init, step): 
        s.f = z3.Function(name, B64, sort); s.init = init; s.step = step; s.sort = sort
    def __call__(s, k): return s.f(k)
    def facts(s, k):
        """recurrence at k and k+1, and the base"""
        return z3.And(s.f(E.BV(0, 64)) == s.init, s.f(k + 1) == s.step(s.f(k), k))

def bool_fold_invariants(conjs):
    """A(k) or A(k+1) itself holds while the loop runs"""
    def t(ctx):
        return [(f"{c.f}(k+{o})", lambda st, get, k, c=c, o=o: c(k + o)) for c in conjs for o in (0, 1)]
    return t
def fold_templates(folds, offset=0):
    """location == F(k + offset); the fold's own recurrence is a definitional fact, offered as an invariant without entry conditions"""
    def t(ctx):
        out = []
        for fn, F in folds.items():
            for off in (0, 1):
                for l, tag in ctx.of_sort(lambda x: x.sort() == F.sort or (F.sort == BOOL and z3.is_bv(x) and x.size() == 8)):
                    def c(st, get, k, F=F, l=l, off=off):
                        v = get(l)
                        if v is None: return None
                        if F.sort == BOOL: v = zb(bl(v)) if not (z3.is_bv(v) and v.size() == 8) and not (isinstance(v, int) and not isinstance(v, bool) and ctx.gv[l] is not None and z3.is_bv(ctx.gv[l])) else bv(v, 8) != 0
                        elif z3.is_bv_sort(F.sort): v = bv(v, F.sort.size())
                        elif isinstance(v, (int,)): return None
                        return v == F(k + off)
                    out.append((f"{l} == {fn}(k+{off})", c))
                    if F.sort == BOOL:
                        def nc(st, get, k, c=c):
                            x = c(st, get, k)
                            return None if x is None else z3.Not(x)
                        out.append((f"{l} == not {fn}(k+{off})", nc))
        return out
    return t

OPFILES = EXPR_FILES + ["expr/Operator.cc", "expr/OperatorImpl.cc", "expr/Function.cc"]
def mkargs(eng, fam, op_ptr, form, st):
    """a real Function object over abstract operands: made by the real makeFunction/setArgument for 1..4 operands,
    by the real NaryFunction constructor for any larger number"""
    mk = method(eng.mod, "PLEXIL::makeFunction(PLEXIL::Operator const*, unsigned long)")
    if form == 'n':
        n = eng.sym("nargs", B64); st.assume(z3.UGT(n, E.BV(4, 64))); st.assume(z3.ULT(n, E.BV(2**40, 64)))
    else: n = form
    outs = eng.run_function(mk, [op_ptr, n], st)
    if len(outs) != 1 or outs[0].kind != 'ret': raise EngineError("makeFunction does not return exactly one object")
    st, obj = outs[0].st, outs[0].val
    if form == 'n':
        ars = [v.base for _, v in st.cells(obj.base).values() if isinstance(v, Ptr) and v.base is not None and v.base.kind == 'arr' and v.base.es == 8]
        if len(ars) != 1: raise EngineError("argument array of NaryFunction not found")
        ars[0].schema[0] = lambda e, s, r, idx, ty: fam.at(idx + 1)
    else:
        f = [x for x in eng.mod.funcs.values() if x.dem == f"PLEXIL::FixedSizeFunction<{form}u>::setArgument(unsigned long, PLEXIL::Expression*, bool)"][0]
        for i in range(form):
            outs = eng.run_function(f, [obj, i, fam.at(i + 1), False], st)
            if len(outs) != 1 or outs[0].kind != 'ret': raise EngineError("setArgument failed")
            st = outs[0].st
    return st, obj, (n if form == 'n' else E.BV(form, 64))


def cex_args(eng, fam, n, op, T):
    def g(m):
        ev = lambda t: m.eval(t, model_completion=True)
        k = ev(n).as_long() if z3.is_bv(n) else n
        if k > 24: return None
        out = []
        for i in range(1, k + 1):
            x = E.BV(i, 64); r = z3.simplify(z3.fpToIEEEBV(ev(fam.r(x))))
            out.append({"known": z3.is_true(ev(fam.known(x))), "b": z3.is_true(ev(fam.b(x))), "i": ev(fam.i(x)).as_signed_long(), "d": r.as_long() if z3.is_bv_value(r) else 0x7ff8000000000000})
        return {"op": op, "T": T, "args": out}
    return g
def op_of(cls):
    import re
    m = re.match(r"N6PLEXIL(\d+)", cls); k = int(m[1]); b = m.end(); nm = cls[b:b+k]; rest = cls[b+k:]
    T = "i" if rest.startswith("Ii") else "d" if rest.startswith("Id") else "s" if rest.startswith("INSt") else "b"
    if nm.startswith("Boolean"): nm = nm[7:]
    if nm == "RealToInteger": T = "i"
    return nm, T
def eval_fn(eng, opcls, sig, form, rty, fam, check, pre=None, tmpl=(), axioms=(), facts=()):
    """build the real Function over abstract operands with operator object `opcls`, call its virtual getValue `sig`,
       and hand every outcome to check(eng, st, known flag, result value, n)"""
    eng.templates += list(tmpl); eng.axioms += list(axioms); eng.loop_facts += list(facts)
    box = {}
    def setup(e):
        st = State()
        this = vtobj(e, "op", opcls)
        st, obj, box['n'] = mkargs(e, fam, this.ptr(), form, st)
        if pre: pre(e, st)
        st.ghost["cex"] = cex_args(e, fam, box['n'], *op_of(opcls))
        res = Region("result", "obj", size=rty.size); box['res'] = res
        st.mem[res.id] = {0: (rty.size, e.sym("result0", F64 if rty.k == 'f' else z3.BitVecSort(8*rty.size)))}; st.own.add(res.id)
        return vmethod(e, st, obj, sig), [obj, res.ptr()], st
    def after(e, outs):
        for o in outs:
            if o.kind != 'ret':
                e.oblige(o.st, f"no error raised ({o.kind} {o.val})", False); continue
            check(e, o.st, zb(bl(o.val)), e.load1(o.st, box['res'].ptr(), rty), box['n'])
    eng.verify(setup, after)
F64 = E.F64

class Conj(Fold):
    """ghost fold A(k) = p(0) & ... & p(k-1), with the lemma  i <= n & A(n) -> A(i)  (proved by induction in prove_lemma)"""
    def __init__(s, name, p): super().__init__(name, BOOL, z3.BoolVal(True), lambda a, j: z3.And(a, p(j))); s.p = p
    def mono(s, i, n): return z3.Implies(z3.And(z3.ULE(i, n), s(n)), s(i))
    def prove_lemma(s, eng):
        st = State(); i, n = z3.BitVecs("li ln", 64)
        eng.oblige(st, f"lemma {s.f}: monotone, base", z3.Implies(z3.And(z3.ULE(i, E.BV(0, 64)), s(E.BV(0, 64))), s(i)))
        st.assume(s(n + 1) == z3.And(s(n), s.p(n))); st.assume(s.mono(i, n)); st.assume(z3.ULT(n, E.BV(2**63, 64)))
        eng.oblige(st, f"lemma {s.f}: monotone, step", s.mono(i, n + 1))
def fold_facts(folds, conjs=(), n=None, first=0):
    """recurrences of the ghost folds at k-1, k, k+1 and their base; monotonicity of conjunctions from k, k+1, k+2 up to n"""
    def facts(k):
        r = []
        for F in folds:
            b = E.BV(first, 64)
            r.append(F(b) == F.init)
            for j in (k, k + 1): r.append(z3.Implies(z3.UGE(j, b), F(j + 1) == F.step(F(j), j)))
        for C in conjs:
            r.append(C(E.BV(0, 64)) == True)
            for j in (k, k + 1): r.append(C(j + 1) == z3.And(C(j), C.p(j)))
            r.append(C(E.BV(1, 64)) == C.p(E.BV(0, 64)))
            for j in (k, k + 1, k + 2, E.BV(1, 64)): r.append(C.mono(j, n))
        return r
    return facts
