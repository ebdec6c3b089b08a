"""Contract harnesses: PROOF(name) functions in proofs/*.cc state requires (vf_assume), call the real code, and state ensures
(vf_check).  Each is verified for all values of its vf_* inputs; loops in the code it calls are cut with invariants.
The same text is compiled natively, so the verifier's counterexample (the sequence of input values) is replayed on the real code."""
import os, re, z3
from . import build as bld
from .engine import *
from . import engine as E
from .stdlib import cstring, setstr, STR, StrV
from . import vec as V
from .report import Task
B64 = z3.BitVecSort(64)
PDIR = os.path.join(bld.HERE, "proofs")
def text(f, sym=True):
    return ("#define VF_SYMBOLIC 1\n" if sym else "") + open(os.path.join(PDIR, "vf.hh")).read() + "\n" + open(os.path.join(PDIR, f)).read().replace('#include "vf.hh"', '')
ELEM = ("Boolean", "Integer", "Real", "String")
MORE = ELEM + ("NodeState", "NodeOutcome", "FailureType", "CommandHandleValue", "BooleanArray", "IntegerArray", "RealArray", "StringArray", "Unk")
def proofs(f):
    out = []
    for m in re.finditer(r"^(?:BOTH\(\w+\) )?(PROOF|EACH|EACHNUM|EACH_INT_REAL|EACHTYPE|EACHCACHED)\((\w+)\)", open(os.path.join(PDIR, f)).read(), re.M):
        out += [m.group(2)] if m.group(1) == "PROOF" else [f"{m.group(2)}_{t}" for t in (MORE if m.group(1) == "EACHTYPE" else MORE[:4] + MORE[8:12])] if m.group(1) in ("EACHTYPE", "EACHCACHED") else [f"{m.group(2)}_{t}" for t in ELEM if m.group(1) == "EACH" or t in ("Integer", "Real") or (m.group(1) == "EACHNUM" and t != "String")]
    return out
def build(f, files, layout=None, includes=()): return bld.module(files, text(f), layout=layout, includes=includes)
def install(eng):
    def nd(w):
        def h(e, st, a, ins, f):
            n = label(e, st, a[0]); t = fresh(e, st, n, z3.BoolSort() if w == 'b' else E.F64 if w == 'd' else E.fsort(32) if w == 'f' else z3.BitVecSort(w))
            return t
        return h
    def label(e, st, p): return cstring(e, st, p).decode()
    def fresh(e, st, n, sort):
        L = st.ghost.get("nd", ()); t = e.sym(f"{n}#{len(L)}", sort); st.ghost["nd"] = L + ((n, t),)
        return t
    for n, w in (("vf_bool", 'b'), ("vf_u8", 8), ("vf_u16", 16), ("vf_i32", 32), ("vf_u32", 32), ("vf_i64", 64), ("vf_u64", 64), ("vf_f32", 'f'), ("vf_f64", 'd')): eng.on(n, nd(w))
    def size(e, st, a, ins, f):
        t = fresh(e, st, label(e, st, a[0]), B64); st.assume(z3.And(z3.UGE(t, bv(a[1], 64)), z3.ULE(t, bv(a[2], 64)))); return t
    eng.on("vf_size", size)
    def string(e, st, a, ins, f): setstr(e, st, a[0], fresh(e, st, label(e, st, a[1]), STR))
    eng.on("vf_string", string)
    def assume(e, st, a, ins, f):
        c = bl(a[0])
        if not e.feasible(st, c): return []
        st.assume(c)
    eng.on("vf_assume", assume)
    def check(e, st, a, ins, f): e.oblige(st, f"{e.named.get('proof', '')}: {label(e, st, a[1])}", zb(bl(a[0])), e.where(st)); e.named.setdefault("checked", set()).add(label(e, st, a[1]))
    eng.on("vf_check", check)
    def expect(e, st, a, ins, f): st.ghost["expect"] = zb(bl(a[0]))
    eng.on("vf_expect_error", expect)
    eng.on("vf_same_f64", lambda e, st, a, ins, f: a[0] == a[1])
    def anyvec(kinds):
        def h(e, st, a, ins, f):
            n = label(e, st, a[1]); ks = (kinds or label(e, st, a[2])).split(",")
            fields = []; o = 0
            for k in ks:
                t = V.KINDS[k]; o = -(-o // t.size) * t.size; fields.append((o, t)); o += t.size
            al = max(t.size for _, t in fields); es = -(-o // al) * al
            ln = fresh(e, st, n, B64); st.assume(z3.ULT(ln, E.BV(2**40, 64)))
            r = V.newregion(e, st, n, (es, fields), ln); V.put3(e, st, a[0], Ptr(r, E.BV(0, 64), 0), ln)
        return h
    def vecn(e, st, a, ins, f):
        """n arbitrary elements of kind i32 / f64 / s"""
        t = V.KINDS[label(e, st, a[2])]; es = t.size; n = bv(a[3], 64)
        r = V.newregion(e, st, label(e, st, a[1]), (es, [(0, t)]), n); V.put3(e, st, a[0], Ptr(r, E.BV(0, 64), 0), n)
    eng.on("vf_vec_n", vecn)
    def forall(e, st, a, ins, f):
        """cond holds for every i in [lo, hi) (its value at the given i is its value at all)"""
        i = bv(a[0], 64); lo, hi = bv(a[1], 64), bv(a[2], 64); c = zb(bl(a[3]))
        if not (z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED): raise EngineError("vf_forall: index is not a plain input")
        g = lambda j: z3.Implies(z3.And(z3.ULE(lo, j), z3.ULT(j, hi)), z3.substitute(c, (i, j)))
        for p in a[4:]:
            if not isinstance(p, Ptr) or p.base is None: continue
            b = e.load1(st, p, E.PTRT)
            e.element_fact(b.base, g)
    eng.on("vf_forall", forall)
    def hintmem(e, st, a, ins, f):
        """loop hint: once w < k, the memory at p holds x"""
        w, p = bv(a[0], 64), a[1]
        if f.name == "vf_hint_str": x = strterm(e, st, a[2]); t = V.STRT
        else:
            t = {"vf_hint_u8": E.ity(8), "vf_hint_i32": E.ity(32), "vf_hint_f64": E.fty(64)}[f.name]; x = a[2]
            if t.k == 'f': pass
            else: x = bv(x, t.w)
        st.ghost["hintmem"] = st.ghost.get("hintmem", ()) + ((w, p, t, x),)
    for n in ("vf_hint_u8", "vf_hint_i32", "vf_hint_f64", "vf_hint_str"): eng.on(n, hintmem)
    def hint(e, st, a, ins, f): st.ghost["hints"] = st.ghost.get("hints", ()) + ((I64(a[0]), zb(bl(a[1]))),)
    I64 = lambda x: bv(x, 64)
    eng.on("vf_hint", hint)
    def hint_templates(ctx):
        e = ctx.eng; out = []
        for j, (w, cond) in enumerate(ctx.entry.ghost.get("hints", ())):
            for c in range(-1, 4):
                lt = (lambda k, w=w, c=c: z3.ULE(w, k + c)) if c >= 0 else (lambda k, w=w: z3.ULT(w, k))
                out.append((f"hint {j} up to k+{c}", lambda st, get, k, lt=lt, cond=cond: z3.Implies(lt(k), cond)))
        for j, (w, p, t, x) in enumerate(ctx.entry.ghost.get("hintmem", ())):
            key = V.akey(p.base, p.off, t)
            def held(st, get, k, w=w, p=p, t=t, x=x, key=key, strict=True, every=False):
                if p.base.kind != 'arr' or key not in st.mem: return None
                v = e.rd(st.mem[key], p.idx)
                return (v == x) if every else z3.Implies(z3.ULT(w, k) if strict else z3.ULE(w, k), v == x)
            out.append((f"memory hint {j} below k", held)); out.append((f"memory hint {j} up to k", lambda st, get, k, h=held: h(st, get, k, strict=False)))
            out.append((f"memory hint {j} kept", lambda st, get, k, h=held: h(st, get, k, every=True)))
        return out
    eng.templates.append(hint_templates)
    eng.on("vf_vec_u8", anyvec("i8")); eng.on("vf_vec_i32", anyvec("i32")); eng.on("vf_vec_f64", anyvec("f64")); eng.on("vf_vec_raw", anyvec(None))
    def vecb(e, st, a, ins, f):
        """n arbitrary flags"""
        p = V.bnew(e, st, a[0], bv(a[2], 64)); t = e.arr_term(st, p.base, 0, E.ity(8)); e.element_fact(p.base, lambda i: z3.ULE(z3.Select(t, i), 1))
    eng.on("vf_vec_bool", vecb)
    def increasing(e, st, a, ins, f):
        """the vector's first 32-bit field is strictly increasing"""
        b = e.load1(st, a[0], E.PTRT); en = e.load1(st, ptr_add(a[0], 8), E.PTRT); arr = e.arr_term(st, b.base, 0, E.ity(32))
        e.element_fact(b.base, lambda i, j: z3.Implies(z3.And(z3.ULE(b.idx, i), z3.ULT(i, j), z3.ULT(j, en.idx)), arr[i] < arr[j]), 2)
    eng.on("vf_increasing", increasing)
    fams(eng)
    V.install(eng); eng.named.setdefault('elems', {})['Val'] = (4, [(0, E.ity(32))])
def fams(eng):
    """families of objects made from a prototype (see proofs/vf.hh)"""
    I64 = lambda x: bv(x, 64)
    def make(e, st, a, ins, f):
        n = cstring(e, st, a[0]).decode(); p = a[1]; sz = int(a[2]); r = Region(n, "fam"); r.meta.update(n=I64(a[3]), proto=True)
        base = p.off
        for off, (w, v) in sorted(st.cells(p.base).items()):
            if not base <= off < base + sz: continue
            o = off - base
            if isinstance(v, Ptr) and v.base is not None:
                if v.base.gv is not None and not r.meta.get("novt") and v.base.name.startswith("_ZTV"): r.vt[o] = (v.base.name, v.off); continue
                if v.base.kind == "obj": r.schema[o] = (lambda e, s, rr, i, ty, v=v: v); continue
                if v.base.kind == "fam": r.schema[o] = v.base; v = I64(v.idx)
                elif v.base.kind == "arr": continue       # (its members' own vectors are not modelled: their use is an error)
                else: raise EngineError(f"prototype field {o} of {n} is {v}")
            elif isinstance(v, Ptr): v = E.BV(0, 64); r.schema[o] = r
            if isinstance(v, (bool, z3.BoolRef)): v = bv(v, 8)
            if isinstance(v, int): v = E.BV(v, 8 * w)
            if isinstance(v, z3.ExprRef):
                t = z3.K(B64, v); st.mem[(r.id, o)] = t; e.named[('init', (r.id, o))] = t
        return Ptr(r, E.BV(0, 64), 0)
    eng.on("vf_fam", make)
    def forallfam(e, st, a, ins, f):
        """cond holds of member i + 1 for every i in [lo, hi)"""
        i = bv(a[0], 64); lo, hi = bv(a[1], 64), bv(a[2], 64); c = zb(bl(a[3]))
        if not (z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED): raise EngineError("vf_forall_fam: index is not a plain input")
        e.element_fact(a[4].base, lambda j: z3.Implies(z3.And(z3.ULE(lo, j - 1), z3.ULT(j - 1, hi)), z3.substitute(c, (i, z3.simplify(j - 1)))))
    eng.on("vf_forall_fam", forallfam)
    def vecfam(e, st, a, ins, f):
        """the family's first n members"""
        n = bv(a[2], 64); r = V.newregion(e, st, a[1].base.name + "s", (8, [(0, E.PTRT)]), n); r.schema[0] = a[1].base
        t = e.edit(z3.ArraySort(B64, B64), lambda i: i + 1); st.mem[(r.id, 0)] = t; e.named[('init', (r.id, 0))] = t; r.meta.setdefault('qf', [])
        V.put3(e, st, a[0], Ptr(r, E.BV(0, 64), 0), n)
    eng.on("vf_vec_fam", vecfam)
    def structfield(e, st, a, ins, f):
        """vector elements of this type have such a field"""
        T = cstring(e, st, a[0]).decode(); d = e.named.setdefault('elems', {}); sz, fs = d.get(T, (int(a[1]), []))
        t = [E.ity(8), E.ity(32), V.KINDS["f64"] if "f64" in V.KINDS else V.SC["double"], E.PTRT, V.STRT][int(a[3])]
        d[T] = (sz, sorted([x for x in fs if x[0] != int(a[2])] + [(int(a[2]), t)], key=lambda x: x[0]))
    eng.on("vf_struct_field", structfield)
    def fieldfam(e, st, a, ins, f):
        """element i's field points to member i + 1 of the family (where that is present) or is null"""
        b = e.load1(st, a[0], E.PTRT); r = b.base; o = int(a[1]); fam = a[2].base; p = int(a[3]); r.schema[o] = fam; r.meta.setdefault('qf', [])
        pt = None if p < 0 or p >= 1 << 63 else e.arr_term(st, fam, p, E.ity(8))
        t = e.edit(z3.ArraySort(B64, B64), lambda i: i + 1 if pt is None else z3.If(z3.Select(pt, i + 1) != 0, i + 1, E.BV(0, 64)))
        st.mem[(r.id, o)] = t; e.named[('init', (r.id, o))] = t
    eng.on("vf_field_fam", fieldfam)
    def fat(e, st, a, ins, f): return Ptr(a[0].base, I64(a[1]), 0)
    def fid(e, st, a, ins, f):
        if a[1].base is None: return 0
        if a[1].base is not a[0].base: raise EngineError("id of a foreign object")
        return a[1].idx
    eng.on("vf_fam_at", fat); eng.on("vf_fam_id", fid)
    def setfield(e, st, r, o, t): st.mem[(r.id, o)] = t; e.named[('init', (r.id, o))] = t
    def anyf(e, st, a, ins, f):
        r, o, w = a[0].base, int(a[1]), int(a[2]) & 255; t = e.sym(f"{r.name}.{o}", z3.ArraySort(B64, E.F64 if int(a[2]) & 512 else z3.BitVecSort(8 * w))); setfield(e, st, r, o, t)
        if int(a[2]) == 257: e.element_fact(r, lambda i: z3.ULE(z3.Select(t, i), 1))
    eng.on("vf_fam_any", anyf)
    def chain(e, st, a, ins, f):
        r, o, n = a[0].base, int(a[1]), I64(a[2]); r.schema[o] = r; r.meta["chain"] = n; r.meta.setdefault("qf", [])
        t = e.edit(z3.ArraySort(B64, B64), lambda i: z3.If(z3.And(i != 0, z3.ULT(i, n)), i + 1, E.BV(0, 64))); setfield(e, st, r, o, t); r.meta["chainarr"] = ((r.id, o), t)
    eng.on("vf_fam_chain", chain)
    def order(e, st, a, ins, f):
        r, o, n = a[0].base, int(a[1]), I64(a[2]); t = st.mem[(r.id, o)]; r.meta["order"] = t; one = E.BV(1, 64)
        e.element_fact(r, lambda i, j: z3.Implies(z3.And(z3.ULE(one, i), z3.ULE(i, j), z3.ULE(j, n)), t[i] <= t[j]), 2); e.touch(r, one)
    eng.on("vf_fam_order", order)
    def templates(ctx):
        e = ctx.eng; out = []
        chains = []
        for l in ctx.locs:
            g = ctx.gv.get(l)
            if not (isinstance(g, Ptr) and g.base is not None and g.base.kind == "fam" and "chain" in g.base.meta): continue
            n = g.base.meta["chain"]
            def ti(get, l=l, r=g.base):
                p = get(l)
                if isinstance(p, Ptr) and p.base is r and p.idx is not None: return I64(p.idx)
                return E.BV(0, 64) if isinstance(p, Ptr) and p.base is None else e.fresh("other", B64)
            if g.base not in chains: chains.append(g.base)
            t0 = ti(lambda l: ctx.ev[l])
            for c in range(4):
                out.append((f"{l} item k+{c}", lambda st, get, k, ti=ti, c=c: ti(get) == k + c))
                out.append((f"{l} item k+{c} or end", lambda st, get, k, ti=ti, c=c, n=n: ti(get) == z3.If(z3.ULE(k + c, n), k + c, E.BV(0, 64))))
            out.append((f"{l} item entry+k", lambda st, get, k, ti=ti, t0=t0: ti(get) == t0 + k))
            out.append((f"{l} item entry+k or end", lambda st, get, k, ti=ti, t0=t0, n=n: ti(get) == z3.If(z3.ULE(t0 + k, n), t0 + k, E.BV(0, 64))))
            out.append((f"{l} item <= n", lambda st, get, k, ti=ti, n=n: z3.ULE(ti(get), n)))
            od = g.base.meta.get("order")
            if od is not None:
                def first(st, get, k, ti=ti, od=od, r=g.base): e.touch(r, ti(get)); return z3.Implies(ti(get) != 0, od[ti(get)] == od[E.BV(1, 64)])
                out.append((f"{l} equal to front", first))
        for r in chains:
            n = r.meta["chain"]
            for c in range(4):
                out.append((f"k+{c} <= n", lambda st, get, k, n=n, c=c: z3.ULE(k + c, n)))
        for l in ctx.locs:
            if l[0] != "arr": continue
            for r in {g.base for g in ctx.gv.values() if isinstance(g, Ptr) and g.base is not None and g.base.kind == "fam"}:
                if r.meta.get("chainarr", (None,))[0] != l[1]: continue
                t0 = ctx.ev[l]
                if e.opts.get("witness_links"):      # links beyond item k unchanged (as a fact about the indices looked at; a goal at an arbitrary one)
                    def rest(st, get, k, l=l, t0=t0, r=r):
                        a = get(l); f = lambda i: z3.Implies(z3.UGT(i, k), e.rd(a, i) == e.rd(t0, i))
                        if getattr(e, "assuming", False): e.element_fact(r, f); return True
                        i = e.fresh("at", B64); e.touch(r, i); return f(i)
                    out.append((f"{l} unchanged beyond k", rest)); continue
                for c in range(3):
                    def cleared(st, get, k, l=l, t0=t0, c=c):
                        i = z3.BitVec("i!q", 64); return z3.ForAll([i], e.rd(get(l), i) == z3.If(z3.And(i != 0, z3.ULE(i, k + c)), E.BV(0, 64), e.rd(t0, i)))
                    out.append((f"{l} cleared up to k+{c}", cleared))
        return out
    eng.templates.append(templates)
def cex(m, st):
    out = []
    for n, t in st.ghost.get("nd", ()):
        if t.sort() == STR: continue
        v = m.eval(t, model_completion=True)
        if isinstance(t, z3.BoolRef): v = int(z3.is_true(v))
        elif isinstance(t, z3.FPRef):
            b = z3.simplify(z3.fpToIEEEBV(v)); v = b.as_long() if z3.is_bv_value(b) else 0x7ff8000000000000
        else: v = v.as_long()
        out.append("%s=%x" % (n.replace(" ", "_"), v))
    return {"proof": st.ghost.get("proof"), "values": out}
cex.wants_state = True
def run(name, pre=None, post=None):
    def go(eng):
        install(eng); eng.named["proof"] = name
        if pre: pre(eng)
        def setup(e):
            st = State(); st.ghost["proof"] = name; st.ghost["nd"] = (); st.ghost["cex"] = cex
            return next(f for f in e.mod.funcs.values() if f.name == "proof_" + name), [], st
        def after(e, outs):
            for o in outs:
                x = o.st.ghost.get("expect")
                if o.kind == 'raise': e.oblige(o.st, f"{name}: no error reported unless specified ({o.val})", x if x is not None else False)
                elif o.kind == 'ret':
                    if x is not None: e.oblige(o.st, f"{name}: an error is reported when specified", z3.Not(x))
                else: e.oblige(o.st, f"{name}: {o.kind} {o.val}", False)
            if not outs: e.oblige(State(), f"{name}: some input satisfies the precondition", False)
            e.count_obl(f"{name}: call returns")
        eng.verify(setup, after)
    return go
def tasks(f, pre=None, opts=None):
    opts = opts or {}
    return [Task(n, run(n, (pre or {}).get(n, (pre or {}).get("*"))), **{"merge": True, **opts.get(n, opts.get("*", {}))}) for n in proofs(f)]
def native(f, lines, files, timeout=300):
    import subprocess
    drv = text(f, False) + "\n" + open(os.path.join(bld.HERE, "drivers", "proof_main.cc")).read().replace('#include "vf.hh"', '')
    exe = bld.native(drv, files, libs=("-rdynamic",))
    r = subprocess.run([exe], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=timeout)
    return r.stdout.split("\n")[:len(lines)]
def replay(P, f, files, failed, n=20000):
    lines = []; names = proofs(f)
    for _, o in failed:
        c = o.get("cex")
        if c and c.get("proof") in names: lines.append(f"{c['proof']} V " + " ".join(c["values"]))
    lines = list(dict.fromkeys(lines))[:200]
    lines += [f"{p} R {P.seed * 1000003} {n}" for p in names]
    outs = native(f, lines, files)
    bad = [{"run": l[:400], "result": o[:800]} for l, o in zip(lines, outs) if not o.startswith("OK")]
    return {"confirmed": bad[:20], "evaluations": sum(int(o.split()[1]) for o in outs if o.startswith("OK")), "note": f"contract harnesses of proofs/{f} run natively on counterexample and generated inputs", "how": f"proofs/{f} + drivers/proof_main.cc, fed with the 'run' line"}
def selfcheck(P, f, files): return replay(P, f, files, [], 2000)
