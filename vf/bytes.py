"""Raw bytes: strings built from and copied into byte sequences, and loop invariants written as code (vf_inv)."""
import z3
from .engine import *
from . import engine as E
from .stdlib import STR, S_len, S_chr, strterm, setstr, literal, cs_term
from . import vec as V
from .stdlib import cstring
def label(e, st, p): return cstring(e, st, p).decode()
B64 = z3.BitVecSort(64); I8 = E.ity(8)
STRING = r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::"
def chr_at(e, t, i):
    """character i of string t"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: return z3.If(t.arg(0), chr_at(e, t.arg(1), i), chr_at(e, t.arg(2), i))
    f = e.named.setdefault("strchars", {}).get(t.get_id())
    return f[1](i) if f else S_chr(t, i)
def len_of(e, t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: return z3.If(t.arg(0), len_of(e, t.arg(1)), len_of(e, t.arg(2)))
    f = e.named.setdefault("strchars", {}).get(t.get_id())
    return f[2] if f else S_len(t)
def reader(e, st, p):
    """byte at distance i from p"""
    r = p.base
    if 'cstr' in r.meta: t = r.meta['cstr']; return lambda i: chr_at(e, t, z3.simplify(bv(p.idx, 64) + i))
    a = e.arr_term(st, r, p.off, I8); return lambda i: e.rd(a, z3.simplify(p.idx + i))
def inside(e, st, p, n, what):
    """p[0..n) lies within its region"""
    r = p.base
    if r is None: e.oblige(st, f"{what}: not through a null pointer", n == 0, e.where(st)); st.assume(n == 0); return False
    if r.kind != 'arr' or r.es != 1: raise EngineError(f"{what} {p}")
    ln = st.mem[(r.id, 'len')] if 'lenkey' in r.meta else S_len(r.meta['cstr']) + 1
    c = z3.And(z3.ULE(p.idx, ln), z3.ULE(n, ln - p.idx))
    e.oblige(st, f"index in bounds ({what} of {r.name})", z3.Or(n == 0, c), e.where(st)); st.assume(z3.Or(n == 0, c)); return True
def install(e):
    def memcpy(e, st, a, ins, f):
        d, s, n = a; n = bv(n, 64)
        if not (inside(e, st, d, n, "memcpy target") and inside(e, st, s, n, "memcpy source")): return None
        if d.base is s.base: raise EngineError("overlapping memcpy")
        src = reader(e, st, s); old = e.arr_term(st, d.base, 0, I8); i0 = d.idx
        st.mem[(d.base.id, 0)] = e.edit(old.sort(), lambda j: z3.If(z3.And(z3.ULE(i0, j), z3.ULT(j - i0, n)), src(z3.simplify(j - i0)), e.rd(old, j)))
    e.on("memcpy:symbolic", memcpy)
    def newstr(e, st, p, n):
        n = bv(n, 64); inside(e, st, p, n, "string source")
        t = e.fresh("str", STR); rd = reader(e, st, p) if p.base is not None else lambda i: E.BV(0, 8)
        e.named.setdefault("strchars", {})[t.get_id()] = (t, rd, n); e.qaxioms.append((S_len(t) == n, e.consts(t))); return t
    def replace(e, st, a, ins, f):
        if not f.dem.endswith("char const*, unsigned long)"): return NotImplemented
        setstr(e, st, a[0], newstr(e, st, a[3], a[4])); return a[0]
    e.onrx(STRING + r"replace\(", replace); e.rx.insert(0, e.rx.pop())
    def it(end):
        def h(e, st, a, ins, f): return E.Opaque("string iterator")
        return h
    e.onrx(STRING + r"(begin|end)\(", it(0)); e.rx.insert(0, e.rx.pop())
    e.opts["str_from_buf"] = newstr
    def same(e, st, a, ins, f):
        x, y = strterm(e, st, a[0]), strterm(e, st, a[1])
        if x.eq(y): return True
        k = e.fresh("char", B64); n = len_of(e, x)
        return z3.And(n == len_of(e, y), z3.Implies(z3.ULT(k, n), chr_at(e, x, k) == chr_at(e, y, k)))
    e.on("vf_same_string", same)      # a goal only: the character compared is arbitrary
    e.on("vf_char", lambda e, st, a, ins, f: chr_at(e, strterm(e, st, a[0]), bv(a[1], 64)))
    e.on("vf_length", lambda e, st, a, ins, f: len_of(e, strterm(e, st, a[0])))
    e.on("vf_f64_bits", lambda e, st, a, ins, f: e.fpbits(a[0]) if isinstance(a[0], z3.FPRef) else a[0])
    e.on("vf_f64_from", lambda e, st, a, ins, f: z3.fpBVToFP(bv(a[0], 64), E.F64))
    def inv(e, st, a, ins, f): st.ghost["invs"] = st.ghost.get("invs", ()) + ((a[0].name, a[1]),)
    e.on("vf_inv", inv)
    def loc_inv(e, st, a, ins, f): st.ghost["loc_invs"] = st.ghost.get("loc_invs", ()) + ((a[0].name, a[1]),)
    e.on("vf_loc_inv", loc_inv)
    for n, k in (("vf_pair_inv", False), ("vf_pair_inv_f64", True)):
        e.on(n, lambda e, st, a, ins, f, k=k: st.ghost.__setitem__("pair_invs", st.ghost.get("pair_invs", ()) + ((a[0].name, a[1], k),)))
    def total(e, st, a, ins, f): st.ghost["totals"] = st.ghost.get("totals", ()) + (bv(a[0], 64),)
    e.on("vf_total", total)
    def instead(e, st, a, ins, f): e.redirect = dict(e.redirect or {}); e.redirect[label(e, st, a[0])] = e.mod.funcs[a[1].name]
    e.on("vf_instead", instead)
    def templates(ctx):
        e = ctx.eng; out = []
        for j, (fn, c) in enumerate(ctx.entry.ghost.get("invs", ())):
            out.append((f"stated invariant {j}", lambda st, get, k, fn=fn, c=c: evaluate(e, st, fn, c, k)))
        from .loops import terms
        for j, (fn, c) in enumerate(ctx.entry.ghost.get("loc_invs", ())):
            for l, w, tag in ctx.ints:
                if w != 64: continue
                out.append((f"stated invariant of {l} ({j})", lambda st, get, k, fn=fn, c=c, l=l: evaluate(e, st, fn, c, k, bv(terms(get(l))[0][1], 64))))
        for j, (fn, c, fl) in enumerate(ctx.entry.ghost.get("pair_invs", ())):
            for l, w, tag in ctx.ints:
                if w not in (1, 8): continue
                nums = [(m, None) for m in ctx.gv if isinstance(ctx.gv[m], z3.FPRef) or (ctx.gv[m] is None)] if fl else [(m, w2) for m, w2, _ in ctx.ints if w2 in (32, 64)]
                for m, w2 in nums:
                    def both(st, get, k, l=l, m=m, w2=w2, fn=fn, c=c):
                        x = get(l); x = z3.ZeroExt(63, bv(x, 1)) if w == 1 else bv(x, 64) if not z3.is_bv(x) else z3.ZeroExt(64 - x.size(), x)
                        y = get(m)
                        if w2 is not None: y = bv(terms(y)[0][1], w2); y = z3.SignExt(64 - w2, y) if w2 < 64 else y
                        elif not isinstance(y, z3.FPRef): return None
                        return evaluate(e, st, fn, c, k, x, y)
                    out.append((f"stated invariant of {l} and {m} ({j})", both))
        for n in ctx.entry.ghost.get("totals", ()):
            out.append(("k is at most the number of groups of 8", lambda st, get, k, n=n: z3.ULE(k, z3.LShR(n + 7, 3)))); out.append(("k is at most the number of elements", lambda st, get, k, n=n: z3.ULE(k, n)))
            for l, w, tag in ctx.ints:
                if w != 64 or not tag.startswith("v"): continue
                def upto(st, get, k, l=l, n=n): return bv(get(l), 64) == z3.If(z3.ULE(k * 8, n), k * 8, n)
                out.append((f"{l} is 8k up to the end", upto))
        return out
    e.templates.append(templates)
def evaluate(e, st, fn, c, *k):
    """value of the C++ predicate fn(c, k) in state st"""
    f = e.mod.funcs[fn]; g = st.fork(); n = len(g.pc); was = e.recording; e.recording = False
    try: outs = e.run_function(f, [c, *k], g)
    finally: e.recording = was
    r = []
    for o in outs:
        if o.kind != 'ret': return None
        d = [zb(x) for x in o.st.pc[n:]]; r.append(z3.Implies(z3.And(*d), zb(bl(o.val))) if d else zb(bl(o.val)))
    return z3.simplify(z3.And(*r)) if r else None
