"""Assumed contracts on the environment: C++ runtime, iostreams, std::string, diagnostics.
Every entry used in a run is listed in the evidence as an assumed contract."""
import z3
from .engine import *
from . import engine as E

STR = z3.DeclareSort("Str")
S_len = z3.Function("str_len", STR, z3.BitVecSort(64))
S_chr = z3.Function("str_chr", STR, z3.BitVecSort(64), z3.BitVecSort(8))
S_rank = z3.Function("str_rank", STR, z3.BitVecSort(64)); S_unrank = z3.Function("str_unrank", z3.BitVecSort(64), STR)

def nop(eng, st, args, ins, f): return None
def noop_ret0(eng, st, args, ins, f): return args[0]
def raiser(kind):
    def h(eng, st, args, ins, f): return Raise(kind)
    return h

def newobj(eng, st, args, ins, f):
    n = args[0]
    n = simp(n)
    size = n if isinstance(n, int) else None
    if size is None:
        # array allocation of symbolic length: element size from the multiplication in the size term
        if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE:
            c = n.arg(0)
            if eng.valid(st, z3.Not(c)): n = n.arg(2)
            elif eng.valid(st, c): n = n.arg(1)
        es = 1
        for c in (8, 4, 2):
            if eng._divide(n, 1, c) is not None: es = c; break
        es = eng.opts.get("new_elem_size", es)
        ln = z3.LShR(n, {1: 0, 2: 1, 4: 2, 8: 3}[es]) if es in (1, 2, 4, 8) else eng._divide(n, 1, es)
        r = Region(f"new[]@{next(eng.fresh_n)}", "arr", es=es, length=z3.simplify(ln)); r.meta['symsize'] = n; r.meta['heap'] = True
        return r.ptr()
    r = Region(f"new@{f.dem.split('(')[0]}#{next(eng.fresh_n)}", "obj", size=size)
    if size is None: r.meta['symsize'] = n
    r.meta['heap'] = True
    return Ptr(r, None, 0)
def delobj(eng, st, args, ins, f):
    p = args[0]
    if isinstance(p, Ptr) and p.base is not None and p.base.kind == 'obj' and p.base.meta.get('heap'):
        if ('freed', p.base.id) in st.ghost:
            eng.oblige(st, f"no double free ({p.base.name})", False, eng.where(st)); return []
        st.ghost[('freed', p.base.id)] = True
    return None

# ---- std::string: opaque value term of sort Str kept in the object's first cell
class StrV:
    def __init__(s, t): s.t = t
class CStr:   # const char* into a string value
    pass
_lits = {}
def literal(eng, bs):
    k = bytes(bs)
    d = eng.named.setdefault('strlits', {})
    if k not in d:
        c = z3.Const("lit_%d_%s" % (len(d), k[:12].decode('latin1').replace(" ", "_")), STR)
        eng.axioms.append(S_len(c) == len(k))
        for i, b in enumerate(k[:16]): eng.axioms.append(S_chr(c, E.BV(i, 64)) == b)
        if d: eng.axioms.append(z3.And(*[c != o for o in d.values()]))
        d[k] = c
    return d[k]
def cstring(eng, st, p):
    """concrete C string at p (global constant), or Str term of a c_str() pointer"""
    if not isinstance(p, Ptr) or p.base is None: raise EngineError("C string through " + repr(p))
    if 'cstr' in p.base.meta and p.off == 0: return p.base.meta['cstr']
    if p.base.gv is None and 'const' not in p.base.meta: raise EngineError("C string not constant: " + p.base.name)
    bs = []; off = p.off
    if not isinstance(off, int): raise EngineError("C string at symbolic offset")
    while True:
        b = simp(eng.byte(st, p.base, off))
        if not isinstance(b, int): raise EngineError("C string not constant: " + p.base.name)
        if b == 0: break
        bs.append(b); off += 1
    return bytes(bs)
def strterm(eng, st, p):
    """Str value of the std::string object at p"""
    v = None
    if p.base is None: eng.oblige(st, "string object exists (null dereference)", False, eng.where(st)); return eng.fresh("nullstr", STR)
    if p.base.kind != 'obj':
        h = p.base.meta.get('strterm')
        if h: return h(eng, st, p)
        t = st.mem.get((p.base.id, ('str', p.off)))
        if t is None:
            t = st.mem[(p.base.id, ('str', p.off))] = eng.sym(f"{p.base.name}#{p.base.id}.str{p.off}", z3.ArraySort(z3.BitVecSort(64), STR))
        if 'lenkey' in p.base.meta: eng.deref_check(st, p, "string")
        v = eng.rd(t, p.idx)
        if 'qf' in p.base.meta or 'orig' in p.base.meta: eng.touch(p.base, p.idx, v)
        return v
    c = st.cells(p.base).get(p.off)
    if c is not None and isinstance(c[1], StrV): return c[1].t
    if p.base.gv is not None: raise EngineError("global std::string " + p.base.name)
    if c is not None: raise EngineError(f"std::string object overwritten: {p} {c}")
    if p.base.meta.get('alloca') or p.base.meta.get('heap'): raise EngineError(f"use of unconstructed std::string {p.base.name} at {eng.where(st)}")
    t = z3.Const(f"{p.base.name}#{p.base.id}+{p.off}.str", STR)
    eng.store_cell(st, p.base, p.off, 32, StrV(t))
    return t
def setstr(eng, st, p, t):
    if p.base.kind != 'obj':
        strterm(eng, st, p)
        k = (p.base.id, ('str', p.off)); st.mem[k] = z3.Store(st.mem[k], p.idx, t); return
    eng.store_cell(st, p.base, p.off, 32, StrV(t))
def cs_term(eng, st, p):
    s = cstring(eng, st, p)
    return literal(eng, s) if isinstance(s, bytes) else s

def str_install(eng):
    B = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::"
    on = eng.onrx
    def ctor(eng, st, args, ins, f):
        d = f.dem[len(B):]
        p = args[0]
        if d.startswith("basic_string()") or d.startswith("basic_string(std::allocator"): t = literal(eng, b"")
        elif d.startswith("basic_string(std::__cxx11::basic_string"):
            t = strterm(eng, st, args[1])
            if '&&' in d: setstr(eng, st, args[1], eng.fresh("movedstr", STR))
            if "unsigned long" in d: t = eng.fresh("substr", STR)
        elif d.startswith("basic_string<std::allocator<char>>(char const*, std::allocator") or d.startswith("basic_string(char const*, std::allocator"):
            t = cs_term(eng, st, args[1])
        elif d.startswith("basic_string(char const*, unsigned long"):
            h = eng.opts.get("str_from_buf")
            t = h(eng, st, args[1], args[2]) if h else eng.fresh("str", STR)
        else: t = eng.fresh("str", STR)
        setstr(eng, st, p, t); return None
    eng.onrx(r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::basic_string", ctor)
    eng.onrx(r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::~basic_string", nop)
    def assign(eng, st, args, ins, f):
        d = f.dem
        if "(char const*)" in d: t = cs_term(eng, st, args[1])
        elif "(char const*, unsigned long)" in d:
            h = eng.opts.get("str_from_buf"); t = h(eng, st, args[1], args[2]) if h else eng.fresh("str", STR)
        elif "basic_string<char" in d.split("::", 3)[-1] and len(args) == 2:
            t = strterm(eng, st, args[1])
            if "&&" in d: setstr(eng, st, args[1], eng.fresh("movedstr", STR))
        else: t = eng.fresh("str", STR)
        setstr(eng, st, args[0], t); return args[0]
    eng.onrx(r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::(operator=|assign)\(", assign)
    eng.onrx(r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::(append|operator\+=|push_back|reserve|resize)\(",
             lambda e, st, a, i, f: (None if "reserve" in f.dem else setstr(e, st, a[0], e.fresh("str", STR)), a[0])[1])
    eng.onrx(r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::clear\(", lambda e, st, a, i, f: setstr(e, st, a[0], literal(e, b"")))
    eng.onrx(r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::(size|length)\(", lambda e, st, a, i, f: S_len(strterm(e, st, a[0])))
    eng.onrx(r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::empty\(", lambda e, st, a, i, f: simp(strterm(e, st, a[0]) == literal(e, b"")))
    def c_str(e, st, a, i, f):
        t = strterm(e, st, a[0])
        r = cstr_region(e, t)
        return Ptr(r, E.BV(0, 64), 0)
    eng.onrx(r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::(c_str|data)\(", c_str)
    def at(e, st, a, i, f):
        t = strterm(e, st, a[0]); r = cstr_region(e, t)
        return Ptr(r, bv(a[1], 64), 0)
    eng.onrx(r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::(operator\[\]|at)\(", at)
    def cmp(e, st, a, i, f):
        x = strterm(e, st, a[0])
        y = cs_term(e, st, a[1]) if "char const*" in f.dem else strterm(e, st, a[1])
        return str_cmp(e, x, y)
    eng.onrx(r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::compare\(", cmp)
    def rel(op):
        def h(e, st, a, i, f):
            d = f.dem; inside = d[d.rindex(">(")+1:] if ">(" in d else d
            def T(p, k):
                par = split_params(d)
                return cs_term(e, st, p) if par[k].startswith("char const*") else strterm(e, st, p)
            x, y = T(a[0], 0), T(a[1], 1)
            if op == '==': return simp(x == y)
            if op == '!=': return simp(x != y)
            c = str_cmp(e, x, y)
            z = {'<': c < 0, '>': c > 0, '<=': c <= 0, '>=': c >= 0}[op]
            return simp(z)
        return h
    for op, rx in (('==', '=='), ('!=', '!='), ('<=', '<='), ('>=', '>='), ('<', '<'), ('>', '>')):
        eng.onrx(r"^bool std::operator" + rx.replace('<', '<').replace('>', '>') + r"( )?<char(, std::char_traits<char>, std::allocator<char>)?>\(", rel(op))
    eng.on("std::allocator<char>::allocator", nop, False); eng.on("std::allocator<char>::~allocator", nop, False)
    eng.on("std::__new_allocator<char>::~__new_allocator", nop, False)

def split_params(d):
    s = d[len(E.strip_params(d)):]; s = s[s.index("(")+1:s.rindex(")")]
    out = []; n = 0; cur = ""
    for c in s:
        if c in "<(": n += 1
        if c in ">)": n -= 1
        if c == "," and n == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out
def str_cmp(e, x, y):
    """three-way comparison, the sign function of an arbitrary total order consistent with equality"""
    order_facts(e, x, y)
    return z3.If(x == y, E.BV(0, 32), z3.If(z3.ULT(S_rank(x), S_rank(y)), E.BV(2**32-1, 32), E.BV(1, 32)))
def order_facts(e, *ts):
    """finitely many distinct strings embed, in any total order, into the 64-bit integers"""
    seen = e.named.setdefault('strorder', {})
    for t in ts:
        if t.get_id() in seen: continue
        seen[t.get_id()] = t; e.qaxioms.append((S_unrank(S_rank(t)) == t, e.consts(t)))
def cstr_region(e, t):
    """read-only characters of string value t"""
    d = e.named.setdefault('cstrs', {})
    k = t.get_id()
    if k not in d:
        r = Region("chars", "arr", es=1, length=S_len(t) + 1)
        e.axioms.append(z3.ULT(S_len(t), E.BV(2**48, 64)))
        r.const = True; r.meta['cstr'] = t
        r.schema[0] = lambda eng, st, rr, idx, ty: S_chr(t, idx)
        d[k] = (t, r)
    return d[k][1]

def memcmp(eng, st, a, ins, f):
    n = simp(a[2])
    if not isinstance(n, int) or n > 64: raise EngineError("memcmp of symbolic length")
    r = E.BV(0, 32)
    x = [eng.load1(st, eng.gep(a[0], i, []), E.ity(8)) for i in range(n)]; y = [eng.load1(st, eng.gep(a[1], i, []), E.ity(8)) for i in range(n)]
    for p, q in reversed(list(zip(x, y))):
        p, q = bv(p, 8), bv(q, 8)
        r = z3.If(p == q, r, z3.If(z3.ULT(p, q), E.BV(2**32-1, 32), E.BV(1, 32)))
    return simp(r)
def strlen(eng, st, a, ins, f):
    s = cstring(eng, st, a[0])
    return len(s) if isinstance(s, bytes) else S_len(s)
def strcmp(eng, st, a, ins, f):
    x, y = cstring(eng, st, a[0]), cstring(eng, st, a[1])
    if isinstance(x, bytes) and isinstance(y, bytes): return ((x > y) - (x < y)) % 2**32
    x = literal(eng, x) if isinstance(x, bytes) else x; y = literal(eng, y) if isinstance(y, bytes) else y
    return str_cmp(eng, x, y)

def dyncast(eng, st, args, ins, f):
    """dynamic_cast: decided by the vtable actually stored in the object (exact class from its type_info chain)"""
    p, src, dst = args[0], args[1], args[2]
    if p.base is None: return NULL
    h = p.base.meta.get('dyncast')
    if h:
        r = h(eng, st, p, src, dst)
        if r is not NotImplemented: return r
    vt = p.base.vt.get(p.off) or next(iter(p.base.vt.values()), None)
    vp = None
    if vt is None:
        v = eng.load1(st, p, E.PTRT)
        if isinstance(v, Ptr) and v.base is not None and v.base.gv: vp = v
    else: vp = Ptr(eng.gregion(vt[0]), None, vt[1])
    if vp is None: raise EngineError("dynamic_cast of object without vtable " + p.base.name)
    top = eng.load1(st, Ptr(vp.base, None, vp.off - 16), E.ity(64))
    top = sgn(top.p.off % 2**64 if isinstance(top, PtrInt) else top, 64) if not is_sym(top) else 0
    ti = eng.load1(st, Ptr(vp.base, None, vp.off - 8), E.PTRT)
    off = ti_find(eng, st, ti.base, dst.base)
    if off is None: return NULL
    return ptr_add(p, top + off)
def ti_find(eng, st, ti, want):
    if ti is want: return 0
    ini = ti.meta['init']
    kind = ini[0][1]
    k = str(kind.extra[0].v if kind.k == 'expr' else kind.v)
    def P(o): 
        v = eng.cval(ini[o][1]); return v
    if 'si_class' in k:
        return ti_find(eng, st, P(16).base, want)
    if 'vmi_class' in k:
        n = P(20)
        for i in range(n):
            b = P(24 + 16*i).base; fl = P(32 + 16*i)
            r = ti_find(eng, st, b, want)
            if r is not None:
                if fl & 1: raise EngineError("dynamic_cast to virtual base")
                return (sgn(fl, 64) >> 8) + r
    return None

def install(eng):
    def swap(w):
        def h(e, st, a, ins, f):
            x = E.bv(a[0], w); return E.simp(z3.Concat(*[z3.Extract(8*i+7, 8*i, x) for i in range(w//8)]))
        return h
    for n, w in (("htonl", 32), ("ntohl", 32), ("htons", 16), ("ntohs", 16)): eng.on(n, swap(w))
    on, onrx = eng.on, eng.onrx
    # diagnostics
    onrx(r"^(PLEXIL|)::?DebugMessage::DebugMessage|^DebugMessage::DebugMessage|PLEXIL::DebugMessage::DebugMessage", debug_ctor)
    onrx(r"^(PLEXIL::)?Error::(Error|~Error)", nop)
    onrx(r"^(PLEXIL::)?(PlanError|ParserException|InterfaceError|PlexilError)::~?(PlanError|ParserException|InterfaceError|PlexilError)\(", nop)
    onrx(r"^(PLEXIL::)?(Error|PlanError|ParserException|InterfaceError)::report\(", raiser("error"))
    onrx(r"^(PLEXIL::)?Error::(handleAssert|printAssert)", raiser("error"))
    onrx(r"(::|^)(reportPlanError|reportInterfaceError|reportParserException)", raiser("error"))
    onrx(r"^std::(cout|cerr)", nop); onrx(r"^PLEXIL::Error::printWarning\(", nop)
    onrx(r"std::basic_ostream<char.*operator<<|^std::ostream::|std::ostream::operator<<|operator<< ?<", noop_ret0)
    onrx(r"^std::basic_ostream<char", noop_ret0)
    onrx(r"operator<<\(std::(basic_)?ostream", noop_ret0)
    onrx(r"^std::(__cxx11::)?basic_(o|i)?(string)?stream.*::(basic_.*|~basic_.*)\(", nop)
    onrx(r"^std::__cxx11::basic_o?stringstream<.*::str\(\)", lambda e, st, a, i, f: setstr(e, st, a[0], e.fresh("oss", STR)))
    onrx(r"^std::ios_base::Init", nop)
    onrx(r"^PLEXIL::(getErrorOutputStream|getDebugOutputStream|.*OutputStream)\(\)", lambda e, st, a, i, f: Ptr(e.named.setdefault('ostream', Region("ostream")), None, 0))
    onrx(r"std::flush|std::endl", noop_ret0)
    on("abort", raiser("abort")); on("std::terminate", raiser("terminate")); on("exit", raiser("exit"))
    on("__cxa_pure_virtual", raiser("pure virtual call"))
    on("__cxa_throw", raiser("exception")); on("__cxa_allocate_exception", lambda e, st, a, i, f: Ptr(Region("exception", size=None), None, 0))
    on("__cxa_free_exception", nop); on("__clang_call_terminate", raiser("terminate")); on("__cxa_rethrow", raiser("exception"))
    onrx(r"^std::(logic_error|runtime_error|exception|bad_alloc|out_of_range|invalid_argument)::", nop)
    onrx(r"^std::__throw_", raiser("exception"))
    # storage
    onrx(r"^operator new(\[\])?\(unsigned long", newobj); onrx(r"^operator delete(\[\])?\(void\*", delobj)
    on("malloc", newobj); on("free", delobj)
    on("strdup", lambda e, st, a, ins, f: E.NULL)     # (names are for printing only)
    on("__cxa_atexit", lambda e, st, a, i, f: 0)
    on("__cxa_guard_acquire", lambda e, st, a, i, f: 1); on("__cxa_guard_release", nop); on("__cxa_guard_abort", nop)
    on("__dynamic_cast", dyncast)
    on("memcmp", memcmp); on("strlen", strlen); on("strcmp", strcmp); on("bcmp", memcmp)
    # mutexes: the verifier reasons about one thread at a time between lock and unlock
    onrx(r"^std::(recursive_)?mutex::|^std::lock_guard<|^std::unique_lock<|^pthread_mutex", nop)
    # math
    on("sqrt", lambda e, st, a, i, f: z3.fpSqrt(E.RM, a[0])); on("std::sqrt", lambda e, st, a, i, f: z3.fpSqrt(E.RM, a[0]))
    on("fabs", lambda e, st, a, i, f: z3.fpAbs(a[0])); 
    on("floor", lambda e, st, a, i, f: z3.fpRoundToIntegral(z3.RTN(), a[0])); on("ceil", lambda e, st, a, i, f: z3.fpRoundToIntegral(z3.RTP(), a[0]))
    on("trunc", lambda e, st, a, i, f: z3.fpRoundToIntegral(z3.RTZ(), a[0])); on("round", lambda e, st, a, i, f: z3.fpRoundToIntegral(z3.RNA(), a[0]))
    on("rint", lambda e, st, a, i, f: z3.fpRoundToIntegral(z3.RNE(), a[0])); on("nearbyint", lambda e, st, a, i, f: z3.fpRoundToIntegral(z3.RNE(), a[0]))
    on("modf", modf); on("fmod", lambda e, st, a, i, f: e.ufun("fmod", a[0], a[1]))
    on("llabs", iabs); on("labs", iabs); on("abs", iabs)
    str_install(eng)

def iabs(e, st, a, i, f):
    w = i.ty.w; x = bv(a[0], w)
    if e.check_overflow: e.oblige(st, "no signed overflow (abs)", x != E.BV(1 << (w-1), w), e.where(st))
    return simp(z3.If(x < 0, -x, x))
def modf(e, st, a, i, f):
    x = a[0]; ip = z3.fpRoundToIntegral(z3.RTZ(), x)
    e.store(st, a[1], ip, E.fty(64))
    inf = z3.fpIsInf(x); nan = z3.fpIsNaN(x)
    z = z3.FPVal(0.0, E.F64)
    fr = z3.If(inf, z, z3.fpSub(E.RM, x, ip))
    # the fraction carries the sign of x, also for a zero fraction
    fr = z3.If(z3.And(z3.fpIsZero(fr), z3.fpIsNegative(x)), z3.fpNeg(z3.fpAbs(fr)), z3.If(z3.fpIsZero(fr), z3.fpAbs(fr), fr))
    return fr
def debug_ctor(eng, st, args, ins, f):
    # DebugMessage(const char *marker): registration object; logging disabled
    return NotImplemented if eng.opts.get("real_debug") else _dbg(eng, st, args)
def _dbg(eng, st, args):
    p = args[0]
    lay = getattr(eng.mod, 'layout', {}).get('DebugMessage')
    off = lay['enabled'] if lay else eng.opts.get("debug_enabled_off", 16)
    eng.store(st, ptr_add(p, off), 0, E.ity(8))
    return None
