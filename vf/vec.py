"""Assumed contracts on std::vector and the standard algorithms over vectors (C++ standard library): element sequences of any
length, held in an 'arr' region whose current length is the memory cell (region, 'len').  Growth is in place, so use of an
iterator invalidated by reallocation is not detected."""
import re, z3
from .engine import *
from .stdlib import STR, strterm, literal
from . import engine as E
B64 = z3.BitVecSort(64)
def top_split(s, sep=","):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<([": d += 1
        if ch in ">)]": d -= 1
        if ch == sep and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    out.append(cur.strip()); return out
def balanced_back(s):
    """s without its trailing <...>"""
    if not s.endswith(">"): return s
    d = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ">": d += 1
        elif s[i] == "<":
            d -= 1
            if d == 0: return s[:i]
    return s
def parse(dem):
    """(element type, method) of a std::vector member, or None"""
    s = strip_params(dem).rstrip()
    if s.endswith(" const"): s = s[:-6]
    s = re.sub(r"\[abi:\w+\]", "", s)
    s = balanced_back(s) if not s.endswith("operator>") else s
    d = 0; cut = None
    for i in range(len(s) - 1, 0, -1):
        if s[i] == ">": d += 1
        elif s[i] == "<": d -= 1
        elif s[i] == ":" and s[i-1] == ":" and d == 0: cut = i - 1; break
    if cut is None: return None
    cls, meth = s[:cut], s[cut+2:]
    d = 0; start = 0
    for i, ch in enumerate(cls):
        if ch in "<(": d += 1
        elif ch in ">)": d -= 1
        elif ch == " " and d == 0: start = i + 1
    cls = cls[start:]
    if not (cls.startswith("std::vector<") and cls.endswith(">")): return None
    return top_split(cls[len("std::vector<"):-1])[0], meth
_parsed = {}
SC = {"int": E.ity(32), "unsigned int": E.ity(32), "unsigned char": E.ity(8), "char": E.ity(8), "signed char": E.ity(8), "short": E.ity(16), "unsigned short": E.ity(16), "long": E.ity(64), "unsigned long": E.ity(64), "double": E.fty(64), "float": E.fty(32)}
KINDS = {"i8": E.ity(8), "i16": E.ity(16), "i32": E.ity(32), "i64": E.ity(64), "f64": E.fty(64), "ptr": E.PTRT}
def tyinfo(e, T):
    T = re.sub(r"\bconst$", "", T.strip()).strip()
    x = e.opts.get("elems", {}).get(T) or e.named.get("elems", {}).get(T)
    if x: return x
    if T.startswith("std::__cxx11::basic_string<char") or T == "std::string": return 32, [(0, STRT)]
    if T in SC: return SC[T].size, [(0, SC[T])]
    if T.endswith("*"): return 8, [(0, E.PTRT)]
    if T.startswith("PLEXIL::") and T in ("PLEXIL::ResourceId",): return 8, [(0, E.PTRT)]
    if T.startswith("std::unique_ptr<"): return 8, [(0, E.PTRT)]
    if T.startswith("std::pair<") and T.endswith(">"):
        a, b = [tyinfo(e, t) for t in top_split(T[10:-1])[:2]]
        if a and b:
            al = max(t.size for _, t in a[1] + b[1]); bo = -(-a[0] // min(8, max(t.size for _, t in b[1]))) * max(t.size for _, t in b[1])
            n = bo + b[0]; n = -(-n // al) * al
            return n, a[1] + [(o + bo, t) for o, t in b[1]]
    return None
class StrTy:
    """a std::string element"""
    k = 's'; size = 32; w = 256
STRT = StrTy()
KINDS["s"] = STRT
def akey(r, o, t): return (r.id, ('str', o)) if t.k == 's' else (r.id, o)
def aget(e, st, r, o, t):
    if t.k != 's': return e.arr_term(st, r, o, t)
    k = akey(r, o, t)
    if k not in st.mem: st.mem[k] = e.named[('init', k)] = e.sym(f"{r.name}#{r.id}.str{o}", z3.ArraySort(B64, STR))
    return st.mem[k]
def zero(e, t): return literal(e, b"") if t.k == 's' else z3.BitVecVal(0, 8*t.size) if t.k != 'f' else z3.FPVal(0.0, E.fsort(t.w))
def newregion(e, st, name, info, n=0):
    es, fields = info
    r = Region(f"{name}@{next(e.fresh_n)}", "arr", es=es); r.meta.update(lenkey=True, fields=fields)
    setlen(e, st, r, E.BV(n, 64) if isinstance(n, int) else n); e.named[('init', (r.id, 'len'))] = st.mem[(r.id, 'len')]
    for o, t in fields: aget(e, st, r, o, t)
    return r
def setlen(e, st, r, n): st.mem[(r.id, 'len')] = z3.simplify(n)
def put3(e, st, v, b, n):
    e.store(st, v, b, E.PTRT); end = Ptr(b.base, z3.simplify(b.idx + n), 0)
    e.store(st, ptr_add(v, 8), end, E.PTRT); e.store(st, ptr_add(v, 16), end, E.PTRT)
def get(e, st, v, info):
    b = e.load1(st, v, E.PTRT)
    if not isinstance(b, Ptr): raise EngineError(f"vector of unknown content at {e.where(st)}")
    if b.base is None:
        r = newregion(e, st, "vec", info); b = Ptr(r, E.BV(0, 64), 0); put3(e, st, v, b, E.BV(0, 64))
    en = e.load1(st, ptr_add(v, 8), E.PTRT)
    return b, en, z3.simplify(en.idx - b.idx)
def rdelem(e, st, p, info): return [strterm(e, st, ptr_add(p, o)) if t.k == 's' else e.load1(st, ptr_add(p, o), t) for o, t in info[1]]
def wrelem(e, st, r, i, info, vals):
    for (o, t), v in zip(info[1], vals):
        if t.k == 'ptr' and isinstance(v, Ptr) and v.base is not None and o not in r.schema: r.schema[o] = v.base
        if t.k == 's': k = akey(r, o, t); st.mem[k] = z3.Store(aget(e, st, r, o, t), i, v)
        else: e.store_arr(st, Ptr(r, i, o), v, t)
def remap(e, st, r, f):
    """every field array a becomes the sequence j -> f(field index, element reader of a, j)"""
    for n, (o, t) in enumerate(r.meta['fields']):
        a = aget(e, st, r, o, t)
        st.mem[akey(r, o, t)] = e.edit(a.sort(), lambda j, n=n, a=a: f(n, Reader(e, a), j))
class Reader:
    def __init__(s, e, a): s.e = e; s.a = a
    def __getitem__(s, i): return s.e.rd(s.a, z3.simplify(i))
def vector(e, st, a, ins, f):
    vp = _parsed.get(f.dem, 0)
    if vp == 0: vp = _parsed[f.dem] = parse(f.dem)
    if vp is None: return NotImplemented
    T, m = vp
    if T == "bool": return vbool(e, st, a, ins, f, m)
    info = tyinfo(e, T)
    if info is None: return NotImplemented
    params = f.dem[len(strip_params(f.dem)):]
    v = a[0]
    if m == "vector":
        ps = top_split(params[1:params.rindex(")")])
        if ps == [""] or (len(ps) == 1 and "allocator" in ps[0] and "vector" not in ps[0]):
            r = newregion(e, st, "vec", info); put3(e, st, v, Ptr(r, E.BV(0, 64), 0), E.BV(0, 64)); return None
        if ps[0].startswith("std::vector<") and ps[0].endswith("const&"): return copy(e, st, v, a[1], info)
        if ps[0].startswith("std::vector<") and ps[0].endswith("&&"):
            b, en, n = get(e, st, a[1], info); put3(e, st, v, b, n)
            r = newregion(e, st, "vec", info); put3(e, st, a[1], Ptr(r, E.BV(0, 64), 0), E.BV(0, 64)); return None
        if ps[0] == "unsigned long":
            n = bv(a[1], 64); r = newregion(e, st, "vec", info, n); put3(e, st, v, Ptr(r, E.BV(0, 64), 0), n)
            vals = rdelem(e, st, a[2], info) if len(ps) > 1 and ps[1].endswith("const&") and not ps[1].startswith("std::allocator") else None
            fill(e, st, r, info, vals); return None
        return NotImplemented
    if m == "~vector": return None
    if m == "size": b, en, n = get(e, st, v, info); return simp(n)
    if m == "empty": b, en, n = get(e, st, v, info); return simp(n == 0)
    if m == "capacity": b, en, n = get(e, st, v, info); c = e.fresh("capacity", B64); st.assume(z3.UGE(c, n)); return c
    if m == "reserve": get(e, st, v, info); return None
    if m in ("push_back", "emplace_back"):
        b, en, n = get(e, st, v, info); r = b.base
        if m == "emplace_back" and not params.startswith("(") : return NotImplemented
        vals = rdelem(e, st, a[1], info) if len(a) > 1 else None
        if vals is None: return NotImplemented
        steal(e, st, T, params, a[1])
        i = en.idx; wrelem(e, st, r, i, info, vals)
        setlen(e, st, r, i + 1); put3(e, st, v, b, n + 1)
        return Ptr(r, i, 0) if m == "emplace_back" else None
    if m == "clear": b, en, n = get(e, st, v, info); setlen(e, st, b.base, b.idx); put3(e, st, v, b, E.BV(0, 64)); return None
    if m in ("insert", "emplace"):
        b, en, n = get(e, st, v, info); r = b.base; pos = a[1]
        ps = top_split(params[1:params.rindex(")")])
        if len(a) != 3 or not ps[-1].endswith("&") and not ps[-1].endswith("&&"): return NotImplemented
        if pos.base is not r: raise EngineError("vector insert with foreign iterator")
        vals = rdelem(e, st, a[2], info); k = pos.idx; steal(e, st, T, params, a[2])
        e.oblige(st, "vector insert position in range", z3.ULE(k - b.idx, n), e.where(st))
        remap(e, st, r, lambda q, arr, j: z3.If(z3.ULT(j, k), arr[j], z3.If(j == k, arr[j], arr[j - 1])))
        wrelem(e, st, r, k, info, vals); setlen(e, st, r, en.idx + 1); put3(e, st, v, b, n + 1); return Ptr(r, k, 0)
    if m == "erase":
        b, en, n = get(e, st, v, info); r = b.base; k = a[1].idx; l = a[2].idx if len(a) > 2 and isinstance(a[2], Ptr) else k + 1
        e.oblige(st, "vector erase position in range", z3.And(z3.ULE(k - b.idx, l - b.idx), z3.ULE(l - b.idx, n)), e.where(st))
        remap(e, st, r, lambda q, arr, j: z3.If(z3.ULT(j, k), arr[j], arr[j + (l - k)]))
        setlen(e, st, r, en.idx - (l - k)); put3(e, st, v, b, n - (l - k)); return Ptr(r, k, 0)
    if m == "resize":
        b, en, n = get(e, st, v, info); r = b.base; w = bv(a[1], 64)
        z = [zero(e, t) for _, t in info[1]]
        if len(a) > 2: z = [x if t.k == 's' else e.enc(x, t, r.schema.get(o)) for x, (o, t) in zip(rdelem(e, st, a[2], info), info[1])]
        remap(e, st, r, lambda q, arr, j: z3.If(z3.ULT(j, en.idx), arr[j], z[q]))
        setlen(e, st, r, b.idx + w); put3(e, st, v, b, w); return None
    if m == "operator=":
        ps = params
        if "const&" in ps: copy(e, st, v, a[1], info); return v
        b, en, n = get(e, st, a[1], info); put3(e, st, v, b, n); r = newregion(e, st, "vec", info); put3(e, st, a[1], Ptr(r, E.BV(0, 64), 0), E.BV(0, 64)); return v
    if m == "swap":
        b, en, n = get(e, st, v, info); b2, en2, n2 = get(e, st, a[1], info); put3(e, st, v, b2, n2); put3(e, st, a[1], b, n); return None
    return NotImplemented
def steal(e, st, T, params, p):
    if T.startswith("std::unique_ptr<"): e.store(st, p, NULL, E.PTRT)
def fill(e, st, r, info, vals):
    for n, (o, t) in enumerate(info[1]):
        if vals is None: x = zero(e, t)
        elif t.k == 's': x = vals[n]
        else:
            v = vals[n]
            if t.k == 'ptr' and isinstance(v, Ptr) and v.base is not None: r.schema[o] = v.base
            x = e.enc(v, t, r.schema.get(o))
        st.mem[akey(r, o, t)] = z3.K(B64, x)
def copy(e, st, v, src, info):
    b, en, n = get(e, st, src, info)
    r = newregion(e, st, "vec", info, n); r.schema.update(b.base.schema)
    for o, t in info[1]:
        t0 = aget(e, st, b.base, o, t)
        st.mem[akey(r, o, t)] = t0 if z3.is_bv_value(b.idx) and b.idx.as_long() == 0 else e.edit(t0.sort(), lambda j, t0=t0: e.rd(t0, z3.simplify(j + b.idx)))
    r.meta['orig'] = (b.base, b.idx); put3(e, st, v, Ptr(r, E.BV(0, 64), 0), n)
# ---- std::vector<bool>: an 'arr' region with one byte (0/1) per flag, its length in the memory cell (region, 'len')
BOOL = (1, [(0, E.ity(8))])
def bget(e, st, v):
    c = st.cells(v.base).get(v.off) if v.base.kind == 'obj' else None
    b = e.load1(st, v, E.PTRT) if c is not None or v.base.kind != 'obj' else NULL
    if b.base is None: b = bnew(e, st, v, E.BV(0, 64))
    return b.base, st.mem[(b.base.id, 'len')]
def bnew(e, st, v, n, src=None, val=None):
    r = newregion(e, st, "flags", BOOL, n)
    if src is not None: st.mem[(r.id, 0)] = aget(e, st, src, 0, BOOL[1][0][1]); r.meta['orig'] = (src, E.BV(0, 64))
    elif val is not None: st.mem[(r.id, 0)] = z3.K(B64, val)
    p = Ptr(r, E.BV(0, 64), 0); e.store(st, v, p, E.PTRT); e.store(st, ptr_add(v, 16), p, E.PTRT); return p
def b8(x): return z3.If(zb(x), E.BV(1, 8), E.BV(0, 8)) if isinstance(x, (bool, z3.BoolRef)) else z3.If(bv(x, 8) != 0, E.BV(1, 8), E.BV(0, 8))
def bread(e, st, p):
    if not e.deref_check(st, p, "load"): return None
    return bv(e.load1(st, p, E.ity(8)), 8)
def bwrite(e, st, p, x):
    if not e.deref_check(st, p, "store"): return False
    e.store_arr(st, p, z3.simplify(b8(x)), E.ity(8)); return True
def vbool(e, st, a, ins, f, m):
    params = f.dem[len(strip_params(f.dem)):]; v = a[0]
    if m == "vector":
        ps = top_split(params[1:params.rindex(")")])
        if ps == [""] or (len(ps) == 1 and "allocator" in ps[0] and "vector" not in ps[0]): bnew(e, st, v, E.BV(0, 64)); return None
        if ps[0].startswith("std::vector<") and ps[0].endswith("const&"): r, n = bget(e, st, a[1]); bnew(e, st, v, n, src=r); return None
        if ps[0].startswith("std::vector<"): r, n = bget(e, st, a[1]); bnew(e, st, v, n, src=r); bnew(e, st, a[1], E.BV(0, 64)); return None
        if ps[0] == "unsigned long":
            val = E.BV(0, 8)
            if len(ps) > 1 and ps[1].startswith("bool"): val = z3.simplify(b8(e.load1(st, a[2], E.ity(8))))
            bnew(e, st, v, bv(a[1], 64), val=val); return None
        return NotImplemented
    if m in ("~vector", "reserve"): return None
    if m == "size": return simp(bget(e, st, v)[1])
    if m == "empty": return simp(bget(e, st, v)[1] == 0)
    if m in ("operator[]", "at"):
        r, n = bget(e, st, v); p = Ptr(r, bv(a[1], 64), 0)
        if " const" in params[-6:]:
            x = bread(e, st, p); return [] if x is None else simp(x != 0)
        return [p, 1]
    if m in ("begin", "cbegin"): r, n = bget(e, st, v); return [Ptr(r, E.BV(0, 64), 0), 0]
    if m in ("end", "cend"): r, n = bget(e, st, v); return [Ptr(r, n, 0), 0]
    if m == "clear": r, n = bget(e, st, v); setlen(e, st, r, E.BV(0, 64)); return None
    if m == "push_back":
        r, n = bget(e, st, v); setlen(e, st, r, n + 1); e.store_arr(st, Ptr(r, n, 0), z3.simplify(b8(a[1])), E.ity(8)); return None
    if m == "resize":
        r, n = bget(e, st, v); z = z3.simplify(b8(a[2])) if len(a) > 2 else E.BV(0, 8); w = bv(a[1], 64)
        remap(e, st, r, lambda q, arr, j: z3.If(z3.ULT(j, n), arr[j], z)); setlen(e, st, r, w); return None
    if m == "operator=":
        r, n = bget(e, st, a[1])
        if "const&" in params: bnew(e, st, v, n, src=r)
        else: bnew(e, st, v, n, src=r); bnew(e, st, a[1], E.BV(0, 64))
        return v
    if m == "swap":
        r, n = bget(e, st, v); r2, n2 = bget(e, st, a[1]); bnew(e, st, v, n2, src=r2); bnew(e, st, a[1], n, src=r); return None
    return NotImplemented
def bitref(e, st, a, ins, f):
    d = f.dem
    if "operator bool" in d:
        p = e.load1(st, a[0], E.PTRT)
        if not isinstance(p, Ptr) or p.base is None or p.base.kind != 'arr': return NotImplemented
        x = bread(e, st, p); return [] if x is None else simp(x != 0)
    if "operator=(" in d:
        p = e.load1(st, a[0], E.PTRT)
        if "_Bit_reference const&" in d[d.index("operator=("):]:
            x = bread(e, st, e.load1(st, a[1], E.PTRT))
            if x is None: return []
        else: x = a[1]
        return a[0] if bwrite(e, st, p, x) else []
    return NotImplemented
def fillbits(e, st, a, ins, f):
    p, q = [x for x in a if isinstance(x, Ptr) and x.base is not None and x.base.kind == 'arr'][:2]; v = [x for x in a if isinstance(x, Ptr)][-1]
    x = z3.simplify(b8(e.load1(st, v, E.ity(8))))
    remap(e, st, p.base, lambda _, arr, j: z3.If(z3.And(z3.ULE(p.idx, j), z3.ULT(j, q.idx)), x, arr[j])); return None
def veq(e, st, a, ins, f):
    """std::operator== / != over vectors: equal lengths and elements equal by =="""
    d = f.dem; m = re.match(r"^bool std::operator(==|!=)\s?<(.*)>\(std::vector<", d)
    if not m: return NotImplemented
    T = top_split(m.group(2))[0]
    if T == "bool":
        (r1, n1), (r2, n2) = bget(e, st, a[0]), bget(e, st, a[1]); i1 = i2 = E.BV(0, 64); info = BOOL
    else:
        info = tyinfo(e, T)
        if info is None or len(info[1]) != 1: return NotImplemented
        b1, _, n1 = get(e, st, a[0], info); b2, _, n2 = get(e, st, a[1], info); r1, r2, i1, i2 = b1.base, b2.base, b1.idx, b2.idx
    o, t = info[1][0]; x, y = aget(e, st, r1, o, t), aget(e, st, r2, o, t)
    eqf = (lambda p, q: z3.fpEQ(p, q)) if t.k == 'f' else (lambda p, q: p == q)
    res = e.fresh("veq", z3.BoolSort()); k = e.fresh("differ", B64)
    st.assume(z3.Implies(res, n1 == n2)); st.assume(z3.Implies(z3.Not(res), z3.Or(n1 != n2, z3.And(z3.ULT(k, n1), z3.Not(eqf(e.rd(x, i1 + k), e.rd(y, i2 + k)))))))
    f1 = lambda j: z3.Implies(z3.And(res, z3.ULE(i1, j), z3.ULT(j - i1, n1)), eqf(e.rd(x, j), e.rd(y, z3.simplify(j - i1 + i2))))
    e.element_fact(r1, f1)
    if r2 is not r1: e.element_fact(r2, lambda j: f1(z3.simplify(j - i2 + i1)))
    e.touch(r1, z3.simplify(i1 + k))
    if r2 is not r1: e.touch(r2, z3.simplify(i2 + k))
    return res if m.group(1) == "==" else z3.Not(res)
def find(e, st, a, ins, f):
    first, last = a[0], a[1]
    if not (isinstance(first, Ptr) and isinstance(last, Ptr)): return NotImplemented
    if first.base is None and last.base is None: return last
    if first.base is None or first.base.kind != 'arr' or 'fields' not in first.base.meta or len(first.base.meta['fields']) != 1: return NotImplemented
    r = first.base; o, t = r.meta['fields'][0]
    x = e.load1(st, a[2], t)
    if t.k == 'ptr' and isinstance(x, Ptr) and x.base is not None and o not in r.schema: r.schema[o] = x.base
    x = e.enc(x, t, r.schema.get(o)); arr = e.arr_term(st, r, o, t)
    k = e.fresh("found", B64); j = z3.BitVec("j!find", 64); eqf = (lambda p, q: z3.fpEQ(p, q)) if t.k == 'f' else (lambda p, q: p == q)
    inr = z3.ULE(first.idx, last.idx)
    st.assume(z3.Implies(inr, z3.And(z3.ULE(first.idx, k), z3.ULE(k, last.idx), z3.Or(k == last.idx, eqf(e.rd(arr, k), x)))))
    e.element_fact(r, lambda j: z3.Implies(z3.And(inr, z3.ULE(first.idx, j), z3.ULT(j, k)), z3.Not(eqf(e.rd(arr, j), x))))
    e.touch(r, k)
    return Ptr(r, k, 0)
def install(e):
    e.onrx(r"std::vector<", vector); e.rx.insert(0, e.rx.pop())
    e.onrx(r"^std::_Bit_reference::operator", bitref); e.rx.insert(0, e.rx.pop())
    e.onrx(r"std::fill<std::_Bit_iterator", fillbits); e.rx.insert(0, e.rx.pop())
    e.onrx(r"^bool std::operator(==|!=)\s?<.*>\(std::vector<", veq); e.rx.insert(0, e.rx.pop())
    e.onrx(r"(^| )std::find<__gnu_cxx::__normal_iterator<", find); e.rx.insert(0, e.rx.pop())
