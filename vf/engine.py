"""Verification-condition generator: symbolic execution of LLVM IR against contracts.

 * a path state carries a path condition, a region/family memory, ghost state and an event log;
 * functions without a contract are inlined; functions with a contract (handlers, abstract
   interface methods) are replaced by it at the call site;
 * loops whose trip count is not decided by the path condition are cut with inductive
   invariants found by Houdini over candidate templates (see loops.py part of this file);
 * every obligation is discharged by z3 (unsat of its negation), cvc5 as second opinion.
"""
import itertools, re, time, sys
import z3
from .llvm import Module, Const, Func, Ty

BV = z3.BitVecVal
class EngineError(Exception): pass
class Restart(Exception): pass

# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ("base", "idx", "off")
    def __init__(s, base, idx=None, off=0): s.base = base; s.idx = idx; s.off = off
    def __repr__(s): return f"Ptr({s.base.name if s.base else None},{s.idx},{s.off})"
NULL = Ptr(None, None, 0)
class PtrInt:            # ptrtoint of a pointer
    __slots__ = ("p",)
    def __init__(s, p): s.p = p
class FuncPtr:
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
    def __repr__(s): return f"Fn({s.name})"
class Opaque:            # value nobody may look into
    __slots__ = ("tag",)
    def __init__(s, t): s.tag = t
    def __repr__(s): return f"Opaque({s.tag})"
class MemberPtrVal: pass

class Raise:
    def __init__(s, kind): s.kind = kind

_rid = itertools.count(1)
class Region:
    """kind: obj (concrete object), arr (elements indexed by a BV64 term), fam (objects named by a BV64 id, 0 = null)"""
    def __init__(s, name, kind="obj", size=None, es=None, length=None, schema=None, vt=None, iface=None, gv=None, default=None, const=False):
        s.id = next(_rid); s.name = name; s.kind = kind; s.size = size; s.es = es; s.length = length
        s.schema = schema or {}; s.vt = vt or {}; s.iface = iface; s.gv = gv; s.default = default; s.const = const; s.meta = {}
    def __repr__(s): return f"<{s.kind} {s.name}>"
    def at(s, i): return Ptr(s, i if not isinstance(i, int) else BV(i, 64), 0)
    def ptr(s, off=0): return Ptr(s, BV(0, 64) if s.kind == "arr" else None, off)

class Frame:
    __slots__ = ("fn", "blk", "prev", "ip", "loc", "ins", "allocas", "phidone")
    def __init__(s, fn): s.fn = fn; s.blk = 0; s.prev = -1; s.ip = 0; s.loc = {}; s.ins = None; s.allocas = None; s.phidone = False
    def copy(s):
        f = Frame(s.fn); f.blk = s.blk; f.prev = s.prev; f.ip = s.ip; f.loc = dict(s.loc); f.ins = s.ins; f.phidone = s.phidone; f.allocas = list(s.allocas) if s.allocas else None; return f

class State:
    def __init__(s):
        s.mem = {}; s.own = set(); s.pc = []; s.frames = []; s.ghost = {}; s.ev = []; s.models = []; s.visits = {}; s.trail = []
        s.loopctx = None
    def fork(s):
        t = State(); t.mem = dict(s.mem); t.own = set(); s.own = set(); t.pc = list(s.pc); t.frames = [f.copy() for f in s.frames]
        t.ghost = dict(s.ghost); t.ev = list(s.ev); t.models = list(s.models); t.visits = dict(s.visits); t.trail = list(s.trail); t.loopctx = s.loopctx
        return t
    def cells(s, r): return s.mem.get(r.id) or {}
    def wcells(s, r):
        c = s.mem.get(r.id)
        if c is None: c = s.mem[r.id] = {}; s.own.add(r.id)
        elif r.id not in s.own: c = s.mem[r.id] = dict(c); s.own.add(r.id)
        return c
    def assume(s, c):
        if c is True: return
        s.pc.append(c)

class Outcome:
    def __init__(s, kind, val, st): s.kind = kind; s.val = val; s.st = st

# ------------------------------------------------------------------ helpers
def is_sym(v): return isinstance(v, z3.ExprRef)
def bv(v, w):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v
def flag01(v):
    """condition c when v is c ? 1 : 0"""
    if isinstance(v, (bool, z3.BoolRef)): return v
    if isinstance(v, int): return bool(v) if v in (0, 1) else None
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        a, b = v.arg(1), v.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            x, y = a.as_long(), b.as_long()
            if (x, y) == (1, 0): return v.arg(0)
            if (x, y) == (0, 1): return z3.Not(v.arg(0))
    return None
def bl(v):
    """to python bool or z3 Bool"""
    if isinstance(v, bool): return v
    if isinstance(v, int): return bool(v & 1)
    if isinstance(v, z3.BoolRef): return v
    return v == 1
def simp(v):
    if isinstance(v, z3.ExprRef):
        v = z3.simplify(v)
        if z3.is_bv_value(v): return v.as_long()
        if z3.is_true(v): return True
        if z3.is_false(v): return False
    return v
def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a): return False
    return True if not a else a[0] if len(a) == 1 else z3.And(*a)
def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a): return True
    return False if not a else a[0] if len(a) == 1 else z3.Or(*a)
def Not(a): return (not a) if isinstance(a, bool) else z3.Not(a)
def Implies(a, b): return Or(Not(a), b)
def zb(a): return z3.BoolVal(a) if isinstance(a, bool) else a
def sgn(v, w): return v - (1 << w) if v >> (w-1) else v
F64 = z3.Float64(); F32 = z3.Float32(); RM = z3.RNE()
def fsort(w): return F64 if w == 64 else F32 if w == 32 else z3.FPSort(15, 64)
def fval(d, w): return z3.FPVal(d, fsort(w))
def ptr_add(p, c): return Ptr(p.base, p.idx, p.off + c)

class Obligation:
    __slots__ = ("name", "ok", "status", "model", "time", "backend", "detail", "st", "goal", "count")

class Engine:
    def __init__(s, mod, opts=None):
        s.mod = mod; s.handlers = {}; s.rx = []; s.hcache = {}; s.iface = {}
        s.obl = []; s.opts = opts or {}
        s.globals = {}; s.inlined = set(); s.used_contracts = set(); s.assumptions = set()
        s.lam = {}
        s.invloops = {}         # (fn name, header) -> True : cut with invariants
        s.loop_facts = []       # definitional facts about ghost folds, instantiated at the loop counter
        s.templates = []        # property supplied candidate templates
        s.solver_time = 0.0; s.queries = 0; s.paths = 0
        s.fresh_n = itertools.count()
        s.unroll_limit = s.opts.get("unroll", 40)
        s.timeout = s.opts.get("timeout_ms", 20000)
        s.max_steps = s.opts.get("max_steps", 3000000); s.steps = 0
        s.recording = True
        s.axioms = []           # global facts about ghost symbols
        s.qaxioms = []; s._consts = {}
        s.deadline = s.opts.get("deadline")
        s.named = {}
        s.unknowns = 0
        s.check_overflow = s.opts.get("check_overflow", False)
        s.invariants_found = {}
        from . import stdlib
        stdlib.install(s)
    # ---- symbols
    def fresh(s, name, sort):
        return z3.Const(f"{name}!{next(s.fresh_n)}", sort)
    def sym(s, name, sort):
        k = (name, str(sort))
        if k not in s.named: s.named[k] = z3.Const(name, sort)
        return s.named[k]
    # ---- solver
    def check(s, fs, timeout=None, want_model=True):
        t = time.time()
        if s.deadline and t > s.deadline: raise EngineError("time budget exhausted")
        sol = z3.Solver()
        limit = timeout or s.timeout; portfolio = s.opts.get("portfolio") and limit > 1500; s.last_backend = "z3"
        sol.set("timeout", 1200 if portfolio else limit)
        for a in s.axioms: sol.add(a)
        for f in fs:
            if f is True: continue
            if f is False: return z3.unsat, None
            sol.add(f)
        for a in s.relevant(fs): sol.add(a)
        r = sol.check(); s.queries += 1
        if portfolio and r == z3.unknown:
            w = s.race(sol.to_smt2(), limit)
            if w == "unsat": r = z3.unsat
            elif w == "sat" or w is None:
                if w == "sat" and not want_model: r = z3.sat
                else: sol.set("timeout", limit); r = sol.check()
        m = None
        if r == z3.sat and want_model: m = sol.model()
        s.solver_time += time.time() - t
        if r == z3.unknown: s.unknowns += 1
        if r == z3.unknown and s.opts.get("dump_unknown"):
            open("/tmp/unknown.smt2","w").write(sol.to_smt2())
        return r, m
    def race(s, text, limit):
        """the other solvers side by side on one query; the first definite answer"""
        import subprocess, tempfile, os
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write("(set-logic ALL)\n" + text)
        ps = [(n, subprocess.Popen(c + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for n, c in (("cvc5", ["cvc5", "--tlimit=%d" % limit]), ("z3-4.8", ["/usr/bin/z3", "-T:%d" % max(2, limit // 1000)]))]
        try:
            end = time.time() + limit / 1000 + 2; left = list(ps)
            while left and time.time() < end:
                for x in list(left):
                    if x[1].poll() is None: continue
                    left.remove(x); a = (x[1].stdout.read() or "").strip().split("\n")[0]
                    if a in ("sat", "unsat"): s.last_backend = x[0]; s.queries += 1; return a
                time.sleep(0.02)
            return None
        finally:
            for _, q in ps:
                if q.poll() is None: q.kill()
                q.wait()
            os.unlink(f.name)
    def consts(s, f):
        """ids of the uninterpreted constants of f"""
        c = s._consts.get(f.get_id())
        if c is not None: return c[1]
        out = set(); todo = [f]; seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.get_id())
                todo += x.children()
            elif z3.is_quantifier(x): todo.append(x.body())
        s._consts[f.get_id()] = (f, out); return out
    def relevant(s, fs):
        """instances of element facts whose index terms are about constants of the query"""
        if not s.qaxioms: return []
        have = set()
        for f in fs:
            if is_sym(f): have |= s.consts(f)
        return [a for a, need in s.qaxioms if need <= have]
    def feasible(s, st, c):
        """can pc & c hold?  unknown counts as feasible"""
        if c is False: return False
        for j, (m, n) in enumerate(st.models[-3:]):
            try:
                e = m.eval(c if is_sym(c) else z3.BoolVal(c), model_completion=True)
                if not z3.is_true(e): continue
                if all(z3.is_true(m.eval(x if is_sym(x) else z3.BoolVal(x), model_completion=True)) for x in st.pc[n:] if not z3.is_quantifier(x)):
                    st.models = st.models[-3:]; st.models[j] = (m, len(st.pc)); return True
            except z3.Z3Exception: pass
        r, m = s.check(st.pc + [c], timeout=s.opts.get("feas_timeout_ms", 5000))
        if r == z3.sat:
            st.models = st.models[-2:] + [(m, len(st.pc))]; return True
        return r != z3.unsat
    def valid(s, st, c, timeout=None):
        c = simp(c)
        if c is True: return True
        r, _ = s.check(st.pc + [Not(c)], timeout=timeout, want_model=False)
        return r == z3.unsat
    def oblige(s, st, name, goal, detail=None):
        """record and discharge an obligation pc |- goal"""
        if not s.recording: return True
        o = Obligation(); o.name = name; o.detail = detail; o.model = None; o.backend = "z3"; o.st = None; o.goal = None; o.count = 1
        t = time.time()
        goal = simp(goal) if is_sym(goal) else goal
        if goal is True:
            o.ok = True; o.status = "valid (simplifier)"
        else:
            # portfolio: short z3, cvc5, long z3
            r, m = s.check(st.pc + [Not(goal)], timeout=s.timeout if s.opts.get("portfolio") else min(4000, s.timeout)); o.backend = s.last_backend
            if r == z3.unknown and not s.opts.get("portfolio"):
                if not s.opts.get("no_cvc5"):
                    r2 = s.cvc5_check(st.pc + [Not(goal)])
                    if r2 == "unsat": r = z3.unsat; o.backend = "cvc5"; s.unknowns -= 1
                if r == z3.unknown and s.timeout > 4000:
                    r, m = s.check(st.pc + [Not(goal)])
                    if r != z3.unknown: s.unknowns -= 1
            o.ok = r == z3.unsat; o.status = "valid" if o.ok else "counterexample" if r == z3.sat else "unknown"; o.model = m
            if not o.ok: o.st = st; o.goal = goal
        o.time = time.time() - t
        s.obl.append(o)
        return o.ok
    def oblige_all(s, st, items, detail=None):
        """several obligations under one path condition: discharged by one query on their conjunction when it is valid, else one by one"""
        if not s.recording: return True
        n0 = len(s.obl)
        g = And(*[simp(g) if is_sym(g) else g for _, g in items])
        if s.oblige(st, "all", g, detail):
            o = s.obl.pop()
            for nm, _ in items:
                c = Obligation(); [setattr(c, x, getattr(o, x)) for x in o.__slots__]; c.name = nm; c.time = o.time/len(items); s.obl.append(c)
            return True
        if len(items) > 1: del s.obl[n0:]
        else: s.obl[-1].name = items[0][0]; return False
        for nm, g in items: s.oblige(st, nm, g, detail)
        if all(o.ok for o in s.obl[n0:]): pass
        return False
    def count_obl(s, name):
        o = Obligation(); o.name = name; o.detail = None; o.model = None; o.backend = "z3"; o.st = None; o.goal = None; o.count = 1; o.time = 0; o.ok = True; o.status = "valid"
        s.obl.append(o)
    def verify(s, setup, after):
        """setup(eng) -> (fn, args, state); after(eng, outcomes).  Restarts when a loop must be cut."""
        for _ in range(12):
            n0 = len(s.obl)
            try:
                fn, args, st = setup(s)
                outs = s.run_function(fn, args, st)
                return after(s, outs)
            except Restart:
                del s.obl[n0:]; s.recording = True; s.loopdepth = 0
        raise EngineError("too many restarts")
    def cvc5_check(s, fs):
        import subprocess, tempfile, os
        sol = z3.Solver()
        for a in s.axioms + s.relevant(fs): sol.add(a)
        for f in fs:
            if is_sym(f): sol.add(f)
            elif f is False: return "unsat"
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + sol.to_smt2())
        try:
            t = time.time()
            r = subprocess.run(["cvc5", "--tlimit=%d" % s.opts.get("cvc5_ms", 20000), f.name], capture_output=True, text=True)
            s.solver_time += time.time() - t; s.queries += 1
            return r.stdout.strip().split("\n")[0] if r.stdout else "unknown"
        finally: os.unlink(f.name)
    # ---- globals / constants
    def gregion(s, name):
        r = s.globals.get(name)
        if r is None:
            gv = s.mod.globals.get(name)
            if gv is None: raise EngineError("unknown global " + name)
            from . import llvm as L
            ty = s.mod.ty(L.GVT(gv))
            init = L.Init(gv)
            r = Region("@" + name, "obj", size=ty.size); r.gv = name; r.meta["ty"] = ty; r.meta["const"] = bool(L.IsGConst(gv))
            r.meta["init"] = {}
            if init:
                c = s.mod.const(init)
                r.meta["hasinit"] = True
                if c.k == 'agg' and ty.k == 'arr' and ty.n > 4096: pass
                s._flatten(c, 0, r.meta["init"], r)
            else: r.meta["hasinit"] = False
            s.globals[name] = r
        return r
    def _flatten(s, c, off, out, r):
        t = c.ty
        if c.k == 'agg':
            if t.k == 'struct':
                for e, o in zip(c.v, t.offs): s._flatten(e, off + o, out, r)
            else:
                z = s.mod.alloc_size(t.sub)
                for i, e in enumerate(c.v): s._flatten(e, off + i*z, out, r)
        elif c.k == 'zero': r.meta.setdefault("zeros", []).append((off, off + t.size))
        elif c.k == 'undef': pass
        else: out[off] = (t.size, c)
    def cval(s, c):
        k = c.k
        if k == 'int': return c.v if c.ty.w != 1 else bool(c.v)
        if k == 'null': return NULL
        if k == 'real': return fval(c.v, c.ty.w)
        if k == 'func': return FuncPtr(c.v)
        if k == 'global': return Ptr(s.gregion(c.v), None, 0)
        if k == 'undef':
            return s.undef(c.ty)
        if k == 'zero': return s.zero(c.ty)
        if k == 'agg': return [s.cval(x) for x in c.v]
        if k == 'expr':
            if c.v == 'gep':
                b = s.cval(c.extra[0]); o, sy = c.extra[1]
                if sy: raise EngineError("symbolic constant gep")
                return s.gep(b, o, [])
            a = [s.cval(x) for x in c.extra]
            if c.v in ('bitcast', 'addrspacecast'): return a[0]
            if c.v == 'ptrtoint': return PtrInt(a[0]) if isinstance(a[0], Ptr) else Opaque('fnint')
            if c.v == 'inttoptr': return Ptr(None, None, a[0])
            if c.v == 'trunc' and isinstance(a[0], int): return a[0] & ((1 << c.ty.w) - 1)
            if c.v == 'sub' and all(isinstance(x, PtrInt) for x in a) and a[0].p.base is a[1].p.base: return a[0].p.off - a[1].p.off
            raise EngineError("constant expression " + str(c.v))
        if k == 'meta': return Opaque('meta')
        raise EngineError("constant kind " + k + " " + str(c.v))
    def zero(s, t):
        if t.k == 'i': return False if t.w == 1 else 0
        if t.k == 'ptr': return NULL
        if t.k == 'f': return fval(0.0, t.w)
        if t.k == 'struct': return [s.zero(e) for e in t.elems]
        if t.k in ('arr', 'vec'): return [s.zero(t.sub) for _ in range(t.n)]
        raise EngineError("zero of " + t.k)
    def undef(s, t, name="undef"):
        if t.k == 'i': return s.fresh(name, z3.BoolSort() if t.w == 1 else z3.BitVecSort(t.w))
        if t.k == 'ptr': return Opaque('undef ptr')
        if t.k == 'f': return s.fresh(name, fsort(t.w))
        if t.k == 'struct': return [s.undef(e) for e in t.elems]
        if t.k in ('arr', 'vec'): return [s.undef(t.sub) for _ in range(t.n)]
        raise EngineError("undef of " + t.k)
    # ---- pointers
    def gep(s, p, c, syms):
        """syms: list of (int or BV term, scale)"""
        if not isinstance(p, Ptr):
            if isinstance(p, Opaque): return p
            if is_sym(p) : raise EngineError("gep on symbolic integer pointer")
            raise EngineError(f"gep on {p}")
        off = p.off + c; idx = p.idx; extra = []
        for t, sc in syms:
            if isinstance(t, int): off += sgn(t & (2**64-1), 64) * sc
            else: extra.append((t, sc))
        b = p.base
        if b is not None and b.kind == 'arr':
            for t, sc in extra:
                if sc % b.es == 0: idx = idx + t * (sc // b.es) if sc != b.es else idx + t
                else:
                    # byte-scaled symbolic offset: must be a syntactic multiple of the element size
                    q = s._divide(t, sc, b.es)
                    if q is None: raise EngineError(f"symbolic offset {t}*{sc} not a multiple of element size {b.es} in {b.name}")
                    idx = idx + q
            if off < 0 or off >= b.es:
                idx = idx + BV((off // b.es) % 2**64, 64); off %= b.es
            return Ptr(b, z3.simplify(idx) if is_sym(idx) else idx, off)
        if extra:
            if isinstance(off, int):
                o = BV(off % 2**64, 64)
            else: o = off
            for t, sc in extra: o = o + t * BV(sc, 64)
            o = simp(o)
            return Ptr(b, idx, sgn(o, 64) if isinstance(o, int) else o)
        return Ptr(b, idx, off)
    def _divide(s, t, sc, es):
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            v = sgn(t.as_long(), 64) * sc
            return BV((v // es) % 2**64, 64) if v % es == 0 else None
        if t.decl().kind() == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            v = sgn(t.arg(0).as_long(), 64) * sc
            return t.arg(1) * BV((v // es) % 2**64, 64) if v % es == 0 else None
        if t.decl().kind() == z3.Z3_OP_BADD:
            qs = [s._divide(x, sc, es) for x in t.children()]
            if any(q is None for q in qs): return None
            r = qs[0]
            for q in qs[1:]: r = r + q
            return r
        if t.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(t.num_args()-1)) and t.arg(t.num_args()-1).as_long() == 0:
            zb_ = t.arg(t.num_args()-1).size()
            if ((1 << zb_) * sc) % es == 0:
                hi = t.children()[:-1]
                h = hi[0] if len(hi) == 1 else z3.Concat(*hi)
                return z3.SignExt(zb_, h) * BV((1 << zb_) * sc // es, 64)
        return None
    def ptr_eq(s, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b: return True
            raise EngineError(f"comparison of opaque pointer {a} {b}")
        if isinstance(a, FuncPtr) or isinstance(b, FuncPtr):
            return isinstance(a, FuncPtr) and isinstance(b, FuncPtr) and a.name == b.name
        if a.base is b.base:
            if a.base is None or a.base.kind == 'obj':
                if isinstance(a.off, int) and isinstance(b.off, int): return a.off == b.off
                return simp(bv(a.off, 64) == bv(b.off, 64))
            if a.off != b.off: 
                return False
            return simp(a.idx == b.idx)
        if a.base is None: a, b = b, a
        # b is null or other region
        if b.base is None:
            if a.base.kind == 'fam' and b.off == 0 and a.off == 0: return simp(a.idx == 0)
            return False
        if a.base.kind == 'fam' and b.base.kind == 'fam': 
            if a.off == 0 and b.off == 0: return simp(z3.And(a.idx == 0, b.idx == 0))
            return False
        return False
    def nonnull(s, p):
        if p.base is None: return False
        if p.base.kind == 'fam': return simp(p.idx != 0)
        return True
    def ptr_diff(s, a, b):
        if a.base is not b.base: raise EngineError("difference of pointers into different regions")
        d = a.off - b.off
        if a.base is None or a.base.kind == 'obj': return d % 2**64 if isinstance(d, int) else d
        return simp((a.idx - b.idx) * BV(a.base.es, 64) + BV(d % 2**64, 64))
    def ptr_rel(s, pred, a, b):
        """unsigned order of two pointers"""
        if a.base is None and b.base is None: x, y = bv(a.off, 64), bv(b.off, 64)
        elif a.base is b.base and a.base.kind == 'obj': x, y = bv(a.off, 64), bv(b.off, 64)
        elif a.base is b.base:
            x, y = a.idx, b.idx
            if a.off != b.off: raise EngineError("pointer order within elements")
        else: raise EngineError("order of unrelated pointers")
        return simp({'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}[pred](x, y))
    # ---- memory
    def newobj(s, st, name, size, **kw):
        return Region(name, "obj", size=size, **kw)
    def deref_check(s, st, p, what, size=None):
        """obligation: p points to an object.  Returns False when the path cannot continue."""
        if not isinstance(p, Ptr): raise EngineError(f"{what} through {p}")
        if p.base is None:
            s.oblige(st, f"no null dereference ({what})", False, s.where(st)); return False
        if p.base.kind == 'fam':
            c = simp(p.idx != 0)
            if c is not True:
                s.oblige(st, f"no null dereference ({what} of {p.base.name})", c, s.where(st))
                st.assume(c)
        elif p.base.kind == 'arr' and (p.base.length is not None or 'lenkey' in p.base.meta):
            c = simp(z3.ULT(p.idx, p.base.length if p.base.length is not None else st.mem[(p.base.id, 'len')]))
            if c is not True:
                s.oblige(st, f"index in bounds ({what} of {p.base.name})", c, s.where(st))
                st.assume(c)
        elif p.base.kind == 'obj' and p.base.meta.get("freed_ok") is None and ('freed', p.base.id) in st.ghost:
            s.oblige(st, f"no use after free ({what} of {p.base.name})", False, s.where(st)); return False
        return True
    def where(s, st):
        return " <- ".join(f"{f.fn.dem.split('(')[0]}:{f.ins.line if f.ins else 0}" for f in reversed(st.frames[-7:]))
    def load(s, st, p, ty):
        """-> list of (guard, value)"""
        if isinstance(p, Opaque): raise EngineError(f"load through opaque {p} at {s.where(st)}")
        r = p.base
        if r is None: raise EngineError("load null")
        if ty.k == 'struct':
            vals = []
            for e, o in zip(ty.elems, ty.offs): vals.append(s.load1(st, ptr_add(p, o), e))
            return [(True, vals)]
        hook = r.meta.get("load")
        if hook:
            x = hook(s, st, p, ty)
            if x is not None: return x
        if r.kind == 'obj':
            if not isinstance(p.off, int): return s.load_symoff(st, p, ty)
            return s.load_obj(st, r, p.off, ty)
        return s.load_arr(st, p, ty)
    def load1(s, st, p, ty):
        x = s.load(st, p, ty)
        if len(x) != 1: raise EngineError("ambiguous load inside aggregate")
        return x[0][1]
    def load_symoff(s, st, p, ty):
        # table lookup in an object with a symbolic offset: enumerate the feasible offsets
        r = p.base; out = []
        hi = r.size
        offs = [o for o in range(0, hi, ty.size)]
        for o in offs:
            g = simp(p.off == BV(o, 64))
            if g is False: continue
            if not s.feasible(st, g): continue
            for (g2, v) in s.load_obj(st, r, o, ty): out.append((And(g, g2), v))
        cov = Or(*[p.off == BV(o, 64) for o in offs])
        s.oblige(st, f"index in bounds (load of {r.name})", cov, s.where(st))
        return out
    def load_obj(s, st, r, off, ty):
        cells = st.mem.get(r.id) or {}
        c = cells.get(off)
        if c is not None and c[0] == ty.size: return s.conv(st, c[1], ty)
        if c is None and not s._overlap(cells, off, ty.size): return s.initial(st, r, off, ty)
        return [(True, s.bytes_load(st, r, off, ty))]
    def _overlap(s, cells, off, size):
        for o in range(off - 15, off + size):
            c = cells.get(o)
            if c and o + c[0] > off: return True
        return False
    def fpbits(s, v):
        """bit pattern of a floating-point value (of a NaN: that of some NaN)"""
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1 and z3.is_bv(v.arg(0)): return v.arg(0)
        t = z3.simplify(v)
        if z3.is_fp_value(t) and not t.isNaN(): return z3.simplify(z3.fpToIEEEBV(t))
        w = v.sort().ebits() + v.sort().sbits(); t = z3.Function("bits%d" % w, v.sort(), z3.BitVecSort(w))(v)
        s.qaxioms.append((z3.fpBVToFP(t, v.sort()) == v, s.consts(v)))
        return t
    def conv(s, st, v, ty):
        """cell value as ty"""
        if isinstance(v, list) and v and isinstance(v[0], tuple): # guarded alternatives kept in a cell
            out = []
            for g, x in v: out += [(And(g, g2), y) for g2, y in s.conv(st, x, ty)]
            return out
        if ty.k == 'i':
            if isinstance(v, Ptr):
                if v.base is None: return [(True, v.off % 2**ty.w if isinstance(v.off, int) else v.off)]
                return [(True, PtrInt(v))]
            if isinstance(v, z3.FPRef): return [(True, simp(s.fpbits(v)))]
            if isinstance(v, z3.BoolRef) or isinstance(v, bool):
                return [(True, v if ty.w == 1 else simp(bv(v, ty.w)))]
            if ty.w == 1 and (isinstance(v, int) or is_sym(v)): return [(True, simp(bl(v)))]
            if is_sym(v) and z3.is_bv(v) and v.size() > ty.w: return [(True, simp(z3.Extract(ty.w-1, 0, v)))]
            return [(True, v)]
        if ty.k == 'ptr':
            if isinstance(v, PtrInt): return [(True, v.p)]
            if isinstance(v, int): return [(True, Ptr(None, None, v))]
            if isinstance(v, z3.FPRef): v = simp(s.fpbits(v)) # a union of a real and a pointer
            if z3.is_expr(v) and z3.is_bv_value(v): v = v.as_long()
            if isinstance(v, int) and not isinstance(v, bool): return [(True, Ptr(None, None, v))]
            return [(True, v)]
        if ty.k == 'f':
            if isinstance(v, int): return [(True, simp_fp(z3.fpBVToFP(BV(v, ty.w), fsort(ty.w))))]
            if z3.is_bv(v): return [(True, z3.fpBVToFP(v, fsort(ty.w)))]
            return [(True, v)]
        return [(True, v)]
    def initial(s, st, r, off, ty):
        """content of a never written cell"""
        if off in r.vt and ty.k == 'ptr':
            g, ap = r.vt[off]
            return [(True, Ptr(s.gregion(g), None, ap))]
        sp = r.schema.get(off)
        if sp is not None:
            v = sp(s, st, r, None, ty) if callable(sp) else sp
            if not (isinstance(v, list) and v and isinstance(v[0], tuple)): v = [(True, v)]
            out = []
            for g, x in v: out += [(And(g, g2), y) for g2, y in s.conv(st, x, ty)]
            return out
        if r.gv is not None:
            init = r.meta["init"]
            c = init.get(off)
            if c is not None:
                if c[0] == ty.size: return s.conv(st, s.cval(c[1]), ty)
                return [(True, s.bytes_load(st, r, off, ty))]
            for a, b in r.meta.get("zeros", []):
                if a <= off < b: return [(True, s.zero(ty))]
            if s._overlap({o: (c[0],) for o, c in init.items()}, off, ty.size):
                return [(True, s.bytes_load(st, r, off, ty))]
        if r.size is not None and not (0 <= off and off + ty.size <= r.size):
            s.oblige(st, f"access inside object {r.name}", False, s.where(st) + f" off {off} size {ty.size}/{r.size}")
        if r.default is not None:
            v = r.default(s, st, r, off, ty)
            if v is not None: return [(True, v)]
        if ty.k == 'i':
            v = s.sym(f"{r.name}#{r.id}+{off}", z3.BitVecSort(8*ty.size))
            return s.conv(st, v, ty)
        if ty.k == 'f': return [(True, s.sym(f"{r.name}#{r.id}+{off}", fsort(ty.w)))]
        if ty.k == 'ptr': return [(True, Opaque(f"{r.name}+{off}"))]
        raise EngineError("initial " + ty.k)
    def bytes_load(s, st, r, off, ty):
        bs = [s.byte(st, r, off + i) for i in range(ty.size)]
        v = z3.Concat(*reversed(bs)) if len(bs) > 1 else bs[0]
        v = simp(v)
        if ty.k == 'i': return v if ty.w != 1 else bl(v)
        if ty.k == 'f': return s.conv(st, v, ty)[0][1]
        if ty.k == 'ptr' and isinstance(v, int): return Ptr(None, None, v)
        raise EngineError(f"byte-wise load of {ty.k} from {r.name}+{off}")
    def byte(s, st, r, off):
        cells = st.mem.get(r.id) or {}
        for o in range(off, off - 16, -1):
            c = cells.get(o)
            if c and o + c[0] > off:
                v = c[1]; n = c[0]
                if isinstance(v, z3.FPRef): v = s.fpbits(v)
                if isinstance(v, (Ptr, Opaque, FuncPtr)):
                    if isinstance(v, Ptr) and v.base is None: v = v.off
                    else: raise EngineError("byte of a pointer")
                v = bv(v, 8*n)
                if v.size() < 8*n: v = z3.ZeroExt(8*n - v.size(), v)
                k = off - o
                return z3.Extract(8*k+7, 8*k, v)
        if r.gv is not None:
            for o, c in r.meta["init"].items():
                if o <= off < o + c[0]:
                    v = bv(s.cval(c[1]), 8*c[0]); k = off - o
                    return z3.Extract(8*k+7, 8*k, v)
            for a, b in r.meta.get("zeros", []):
                if a <= off < b: return BV(0, 8)
        t8 = Ty(); t8.k = 'i'; t8.w = 8; t8.size = 1; t8.elems = None
        return bv(s.initial(st, r, off, t8)[0][1], 8)
    def store(s, st, p, v, ty):
        if isinstance(p, Opaque): raise EngineError(f"store through opaque {p} at {s.where(st)}")
        r = p.base
        if r is None: raise EngineError("store null")
        if ty.k == 'struct':
            for e, o, x in zip(ty.elems, ty.offs, v): s.store(st, ptr_add(p, o), x, e)
            return
        if ty.k in ('arr', 'vec'):
            z = s.mod.alloc_size(ty.sub)
            for i, x in enumerate(v): s.store(st, ptr_add(p, i*z), x, ty.sub)
            return
        hook = r.meta.get("store")
        if hook and hook(s, st, p, v, ty): return
        if r.kind == 'obj':
            if not isinstance(p.off, int):
                raise EngineError(f"store at symbolic offset in object {r.name} at {s.where(st)}")
            if r.size is not None and not (0 <= p.off and p.off + ty.size <= r.size):
                s.oblige(st, f"write inside object {r.name}", False, s.where(st) + f" off {p.off}+{ty.size}/{r.size}")
                return
            s.store_cell(st, r, p.off, ty.size, v)
            return
        s.store_arr(st, p, v, ty)
    def store_cell(s, st, r, off, size, v):
        cells = st.wcells(r)
        c = cells.get(off)
        if not (c and c[0] == size):
            # split overlapped cells into bytes
            for o in list(range(off - 15, off + size)):
                c = cells.get(o)
                if c and o + c[0] > off and not (o >= off and o + c[0] <= off + size):
                    bs = [(o + i, s.byte(st, r, o + i)) for i in range(c[0])]
                    del cells[o]
                    for bo, b in bs: cells[bo] = (1, simp(b))
            for o in range(off, off + size):
                if o in cells: del cells[o]
        cells[off] = (size, v)
    # array / family memory: one SMT array per (region, field offset)
    def arr_sort(s, r, off, ty):
        if ty.k == 'ptr': return z3.BitVecSort(64)
        if ty.k == 'f': return fsort(ty.w)
        return z3.BitVecSort(8*ty.size)
    def arr_term(s, st, r, off, ty):
        key = (r.id, off)
        t = st.mem.get(key)
        if t is None:
            srt = s.arr_sort(r, off, ty)
            if r.meta.get("zerofill"): t = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, srt.size()) if z3.is_bv_sort(srt) else z3.FPVal(0.0, srt))
            else: t = s.sym(f"{r.name}#{r.id}.{off}", z3.ArraySort(z3.BitVecSort(64), srt))
            st.mem[key] = t; s.named[('init', key)] = t
            r.meta.setdefault("cells", {})[off] = ty
        return t
    def load_arr(s, st, p, ty):
        r = p.base
        if r.es == 1 and ty.size > 1 and ty.k in 'if':
            bs = []
            for i in range(ty.size):
                q = s.gep(p, i, [])
                if not s.deref_check(st, q, "load"): return []
                bs.append(bv(s.load1(st, q, ity(8)), 8))
            return s.conv(st, simp(z3.Concat(*reversed(bs))), ty)
        if p.off in r.vt and ty.k == 'ptr':
            g, ap = r.vt[p.off]
            return [(True, Ptr(s.gregion(g), None, ap))]
        sp = r.schema.get(p.off)
        if callable(sp):
            v = sp(s, st, r, p.idx, ty)
            if v is not None:
                if not (isinstance(v, list) and v and isinstance(v[0], tuple)): v = [(True, v)]
                out = []
                for g, x in v: out += [(And(g, g2), y) for g2, y in s.conv(st, x, ty)]
                return out
        srt = s.arr_sort(r, p.off, ty)
        t = s.arr_term(st, r, p.off, ty)
        if t.sort().range() != srt:
            v = z3.Select(t, p.idx)
            return s.conv(st, v, ty)
        v = simp(s.rd(t, p.idx)) if ty.k != 'f' else s.rd(t, p.idx)
        if 'qf' in r.meta or 'orig' in r.meta: s.touch(r, p.idx, v)
        if ty.k == 'ptr':
            if isinstance(sp, Region):
                return [(True, Ptr(sp, bv(v, 64), 0))]
            raise EngineError(f"no pointer schema for {r.name}.{p.off} at {s.where(st)}")
        if ty.k == 'i' and ty.w == 1: v = bl(v)
        return [(True, v)]
    def rd(s, t, i):
        """element i of array term t, reading through stores and sequence edits"""
        f = s.lam.get(t.get_id())
        if f is not None: return f[1](i)
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_STORE:
                c = simp(t.arg(1) == i)
                if c is True: return t.arg(2)
                if c is False: return s.rd(t.arg(0), i)
                if s.lam: return z3.If(c, t.arg(2), s.rd(t.arg(0), i))
            if k == z3.Z3_OP_ITE and s.lam: return z3.If(t.arg(0), s.rd(t.arg(1), i), s.rd(t.arg(2), i))
        return z3.Select(t, i)
    def edit(s, sort, f):
        """array whose element i is f(i)"""
        a = s.fresh("seq", sort); s.lam[a.get_id()] = (a, f); return a
    # quantified facts about a region's elements, instantiated at the indices the program and the contracts look at
    def element_fact(s, r, fact, arity=1):
        if not any(f is fact for f, _ in r.meta.setdefault('qf', [])):
            r.meta['qf'].append((fact, arity))
            for i in list(r.meta.get('qidx', {}).values()): s._inst(r, fact, arity, i)
    def _inst(s, r, fact, arity, i):
        ci = s.consts(i)
        if arity == 1: s.qaxioms.append((fact(i), ci))
        else:
            for j in list(r.meta['qidx'].values()):
                if j is not i:
                    c = ci | s.consts(j); s.qaxioms.append((z3.And(fact(i, j), fact(j, i)), c))
    def touch(s, r, idx, v=None):
        new = [idx]
        if is_sym(v):
            todo = [v]; seen = set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_SELECT: new.append(x.arg(1))
                    todo += x.children()
        q = r.meta.setdefault('qidx', {})
        for i in new:
            i = z3.simplify(i) if is_sym(i) else BV(i, 64)
            if i.get_id() in q: continue
            q[i.get_id()] = i
            for fact, ar in r.meta.get('qf', []): s._inst(r, fact, ar, i)
            if 'orig' in r.meta: s.touch(r.meta['orig'][0], i + r.meta['orig'][1])     # elements copied from another sequence
    def enc(s, v, ty, target):
        if ty.k == 'ptr':
            if isinstance(v, Ptr):
                if v.base is None and v.off == 0: return BV(0, 64)
                if target is not None and v.base is target and v.off == 0: return v.idx
            raise EngineError(f"cannot store pointer {v} in a field typed {target}")
        if ty.k == 'f':
            if z3.is_bv(v): return z3.fpBVToFP(v, fsort(ty.w))
            return v
        if isinstance(v, z3.FPRef): v = s.fpbits(v)
        x = bv(v, 8*ty.size)
        if z3.is_bv(x) and x.size() < 8*ty.size: x = z3.ZeroExt(8*ty.size - x.size(), x)
        return x
    def store_arr(s, st, p, v, ty):
        r = p.base
        if r.es == 1 and ty.size > 1 and ty.k in 'if':
            x = s.enc(s.fpbits(v) if ty.k == 'f' and not z3.is_bv(v) else v, ity(8*ty.size), None)
            for i in range(ty.size):
                q = s.gep(p, i, [])
                if not s.deref_check(st, q, "store"): return
                s.store_arr(st, q, simp(z3.Extract(8*i+7, 8*i, x)), ity(8))
            return
        sp = r.schema.get(p.off)
        t = s.arr_term(st, r, p.off, ty)
        if r.const: s.oblige(st, f"no write to {r.name}", False, s.where(st))
        x = s.enc(v, ty, sp if isinstance(sp, Region) else None)
        if t.sort().range() != x.sort():
            raise EngineError(f"field {r.name}.{p.off} written as {x.sort()} but read as {t.sort().range()}")
        st.mem[(r.id, p.off)] = z3.Store(t, p.idx, x)
    def havoc_region(s, st, r):
        for k in [k for k in st.mem if k == r.id or (isinstance(k, tuple) and k[0] == r.id)]: del st.mem[k]
    # ---- vtables
    def vtable(s, cls):
        """layout of the vtable group of class cls (mangled type name): {subobject offset: address point}"""
        name = "_ZTV" + cls
        r = s.gregion(name)
        if not r.meta["hasinit"]: raise EngineError("vtable of " + cls + " not in the module")
        ty = r.meta["ty"]; res = {}
        offs = ty.offs if ty.k == 'struct' else [0]
        subs = ty.elems if ty.k == 'struct' else [ty]
        for o, t in zip(offs, subs):
            n = t.n
            # entries: [vcall/vbase offsets..., offset-to-top, rtti, functions...]
            for i in range(n):
                c = r.meta["init"].get(o + 8*i)
                if c and c[1].k == 'global' and c[1].v.startswith("_ZTI"):
                    top = r.meta["init"].get(o + 8*(i-1))
                    t_ = 0
                    if top and top[1].k == 'expr': t_ = s.cval(top[1]); t_ = t_.off if isinstance(t_, Ptr) else t_
                    res.setdefault(-sgn(t_ % 2**64, 64), o + 8*(i+1))
                    break
        return {off: (name, ap) for off, ap in res.items()}
    # ---- calls
    def on(s, name, fn, contract=True):
        """handler for functions whose demangled name (before the parameter list) is `name`, or full name"""
        s.handlers[name] = (fn, contract); s.hcache.clear()
    redirect = None      # callee (name without parameters) -> function of the harness stating its contract
    def onrx(s, rx, fn, contract=True): s.rx.append((re.compile(rx), fn, contract))
    def handler(s, f):
        h = s.hcache.get(f.name, 0)
        if h == 0:
            d = f.dem; short = strip_params(d)
            h = s.handlers.get(f.name) or s.handlers.get(d) or s.handlers.get(short)
            if h is None:
                for rx, fn, c in s.rx:
                    if rx.search(d): h = (fn, c); break
            s.hcache[f.name] = h
        return h
    def call(s, st, f, args, ins):
        """returns list of (state, value|Raise) or None when a frame was pushed"""
        to = s.redirect.get(strip_params(f.dem)) if s.redirect else None
        if to is not None: f = to
        h = s.handler(f)
        if h is not None:
            r = h[0](s, st, args, ins, f)
            if r is not NotImplemented:
                if h[1]: s.used_contracts.add(strip_params(f.dem))
                return s.norm(st, r)
        if f.decl: raise EngineError(f"external function without a contract: {f.dem} at {s.where(st)}")
        s.mod.load(f)
        n = sum(1 for fr in st.frames if fr.fn is f)
        if n > s.opts.get("max_recursion", 6): raise EngineError("recursion too deep: " + f.dem)
        fr = Frame(f)
        for pid, a in zip(f.params, args): fr.loc[pid] = a
        st.frames.append(fr); s.inlined.add(f.dem)
        return None
    def norm(s, st, r):
        if isinstance(r, list) and r and isinstance(r[0], tuple) and isinstance(r[0][0], State): return r
        if isinstance(r, list) and not r: return []
        return [(st, r)]
    def call_abstract(s, st, recv, fname, args, ins):
        f = s.mod.funcs.get(fname)
        d = f.dem if f else fname
        d = re.sub(r"^(virtual thunk to |non-virtual thunk to )", "", d)
        meth = strip_params(d).split("::")[-1] if "operator" not in d else "operator" + strip_params(d).split("::operator")[-1]
        params = d[len(strip_params(d)):]
        iface = recv.base.iface
        h = s.iface.get((iface, meth + params)) or s.iface.get((iface, meth))
        if h is None: raise EngineError(f"no interface contract for {iface}::{meth}{params} at {s.where(st)}")
        s.used_contracts.add(f"[interface] {iface}::{meth}")
        return s.norm(st, h(s, st, args, ins, d))
    # ---- running
    def run_function(s, fn, args, st=None):
        """execute fn from state st; returns outcomes"""
        st = st or State()
        s.mod.load(fn)
        fr = Frame(fn)
        for pid, a in zip(fn.params, args): fr.loc[pid] = a
        base = len(st.frames)
        st.frames.append(fr); s.inlined.add(fn.dem)
        return s.explore([st], base)
    def explore(s, work, base, loop=None):
        """run states until frame depth drops to base.  With loop=(depth, header, body): stop at header re-entry
        and at loop exit; returns (back, exits, outcomes)."""
        outs = []; back = []; exits = []
        while work:
            st = work.pop()
            try:
                r = s.run_path(st, base, loop, work)
            except EngineError:
                if not isinstance(st, _Done) and s.check(st.pc, timeout=3000)[0] == z3.unsat: continue     # not a real path
                raise
            if r is None: continue
            k = r[0]
            if k == 'done': outs.append(Outcome(r[1], r[2], r[3])); s.paths += 1
            elif k == 'back': back.append(r[1])
            elif k == 'exit': exits.append(r[1])
        if loop: return back, exits, outs
        return outs
    def val(s, fr, o):
        if isinstance(o, int): return fr.loc[o]
        return s.cval(o)
    def enter(s, st, fr, tgt, loop, work):
        """jump to block tgt, evaluating phis.  Returns None or a result tuple for explore"""
        prev = fr.blk
        B = fr.fn.blocks[tgt]
        if B.phis:
            vals = [s.val(fr, p.x[prev]) for p in B.phis]
            for p, v in zip(B.phis, vals): fr.loc[p.id] = v
        fr.prev = prev; fr.blk = tgt; fr.ip = 0
        return s.arrive(st, fr, prev, tgt, loop, work)
    def arrive(s, st, fr, prev, tgt, loop, work):
        depth = len(st.frames)
        if loop is not None and depth == loop[0]:
            if tgt == loop[1]: return ('back', st)
            if tgt not in loop[2]: return ('exit', st)
        if tgt in fr.fn.loops:
            # inside this loop already?  (back edge) or entering
            inside = prev in fr.fn.loops[tgt]
            key = (fr.fn.name, tgt)
            if not inside:
                st.visits[(depth,) + key] = 0
                if key in s.invloops:
                    return s.cut_loop(st, fr, tgt, work, loop)
            else:
                n = st.visits.get((depth,) + key, 0) + 1
                st.visits[(depth,) + key] = n
                if n > s.unroll_limit or (n > s.opts.get("sym_unroll", 6) and st.visits.get((depth,) + key + ('sym',))):
                    s.invloops[key] = True
                    raise Restart()
        return None
    def run_path(s, st, base, loop, work):
        while True:
            fr = st.frames[-1]
            B = fr.fn.blocks[fr.blk]
            ins = B.ins[fr.ip]
            fr.ins = ins
            s.steps += 1
            if s.steps > s.max_steps: raise EngineError("instruction budget exhausted")
            op = ins.op
            if op == 'br':
                if not ins.ops: tgt = ins.x[0]
                else:
                    c = simp(bl(s.val(fr, ins.ops[0])))
                    if isinstance(c, bool): tgt = ins.x[0] if c else ins.x[1]
                    else:
                        nc = z3.Not(c)
                        ft = s.feasible(st, c); ff = s.feasible(st, nc) if ft else True
                        if ft and ff:
                            if ins.x[0] != ins.x[1]:
                                if s.opts.get("merge"):
                                    from . import merge
                                    if merge.join(s, st, fr, [(c, ins.x[0]), (nc, ins.x[1])], loop, work): return None
                                o = st.fork()
                                o.pc.append(nc); st.pc.append(c)
                                s.marksym(st, fr); s.marksym(o, o.frames[-1])
                                r = s.enter(o, o.frames[-1], ins.x[1], loop, work)
                                if r is None: work.append(o)
                                elif r[0] == 'multi': pass
                                else: work.append(_Done(r))
                            tgt = ins.x[0]
                        else:
                            tgt = ins.x[0] if ft else ins.x[1]
                r = s.enter(st, fr, tgt, loop, work)
                if r is not None:
                    if r[0] == 'multi': return None
                    return r
                continue
            if op == 'switch':
                v = s.val(fr, ins.ops[0]); cases, dflt = ins.x
                if isinstance(v, bool): v = int(v)
                if isinstance(v, int):
                    tgt = next((d for c, d in cases if c == v), dflt)
                    r = s.enter(st, fr, tgt, loop, work)
                    if r is not None:
                        if r[0] == 'multi': return None
                        return r
                    continue
                w = v.size() if z3.is_bv(v) else 1
                alts = {}
                for c, d in cases: alts.setdefault(d, []).append(bv(v, w) == BV(c, w))
                conds = [(Or(*cs), d) for d, cs in alts.items()]
                conds.append((And(*[bv(v, w) != BV(c, w) for c, _ in cases]), dflt))
                feas = [(c, d) for c, d in conds if s.feasible(st, c)]
                if not feas: return None
                if len(feas) > 1 and s.opts.get("merge"):
                    from . import merge
                    if merge.join(s, st, fr, feas, loop, work): return None
                for c, d in feas[1:]:
                    o = st.fork(); o.pc.append(c); s.marksym(o, o.frames[-1])
                    r = s.enter(o, o.frames[-1], d, loop, work)
                    if r is None: work.append(o)
                    elif r[0] != 'multi': work.append(_Done(r))
                if len(feas) > 1: st.pc.append(feas[0][0]); s.marksym(st, fr)
                r = s.enter(st, fr, feas[0][1], loop, work)
                if r is not None:
                    if r[0] == 'multi': return None
                    return r
                continue
            if op == 'ret':
                v = s.val(fr, ins.ops[0]) if ins.ops else None
                st.frames.pop()
                for r in fr.allocas or ():
                    if r.id in st.mem: del st.mem[r.id]         # automatic storage ends with the call
                if len(st.frames) <= base: return ('done', 'ret', v, st)
                r = s.finish_call(st, v, loop, work)
                if r is not None:
                    if r[0] == 'multi': return None
                    return r
                continue
            if op in ('call', 'invoke'):
                res = s.do_call(st, fr, ins)
                if res is None: continue          # frame pushed
                nxt = None; first = True
                todo = []
                for st2, v in res:
                    if isinstance(v, Raise): todo.append(('raise', st2, v)); continue
                    todo.append(('ok', st2, v))
                if not todo: return None
                for kind, st2, v in todo[1:]:
                    if kind == 'raise': work.append(_Done(('done', 'raise', v.kind, st2)))
                    else:
                        r = s.finish_call(st2, v, loop, work)
                        if r is None: work.append(st2)
                        elif r[0] != 'multi': work.append(_Done(r))
                kind, st2, v = todo[0]
                if kind == 'raise': return ('done', 'raise', v.kind, st2)
                r = s.finish_call(st2, v, loop, work)
                if r is not None:
                    if r[0] == 'multi': return None
                    return r
                st = st2
                continue
            if op == 'unreachable':
                return ('done', 'unreachable', None, st)
            if op == 'resume': return ('done', 'raise', 'resume', st)
            # simple instruction; may fork on loads/selects
            r = s.step(st, fr, ins)
            if r is None: fr.ip += 1; continue
            if r == 'dead': return None
            # list of (guard, value): fork
            alts = [(g, v) for g, v in r if s.feasible(st, g)] if len(r) > 1 else r
            if not alts: return None
            for g, v in alts[1:]:
                o = st.fork(); o.assume(g); f2 = o.frames[-1]; f2.loc[ins.id] = v; f2.ip += 1; work.append(o)
            st.assume(alts[0][0]); fr.loc[ins.id] = alts[0][1]; fr.ip += 1
    def marksym(s, st, fr):
        """remember that a symbolic decision was taken inside the loops around this block"""
        d = len(st.frames)
        for dd, f in enumerate(st.frames, 1):
            for h, body in f.fn.loops.items():
                if f.blk in body: st.visits[(dd, f.fn.name, h, 'sym')] = True
    def finish_call(s, st, v, loop, work):
        fr = st.frames[-1]; ins = fr.fn.blocks[fr.blk].ins[fr.ip]
        if ins.ty.k != 'void': fr.loc[ins.id] = v
        if ins.op == 'invoke': return s.enter(st, fr, ins.x['normal'], loop, work)
        fr.ip += 1
        return None
    def do_call(s, st, fr, ins):
        callee = ins.x['callee']
        args = [s.val(fr, a) for a in ins.ops]
        if isinstance(callee, Const) and callee.k == 'func':
            f = s.mod.funcs[callee.v]
            if f.name.startswith("llvm."): return s.norm(st, s.intrinsic(st, f.name, args, ins))
            return s.call(st, f, args, ins)
        fv = s.val(fr, callee)
        if isinstance(fv, FuncPtr):
            # virtual call?  receiver in an abstract region -> interface contract
            if args and isinstance(args[0], Ptr) and args[0].base is not None and args[0].base.iface:
                if not s.deref_check(st, args[0], "virtual call"): return []
                return s.call_abstract(st, args[0], fv.name, args, ins)
            # hidden sret: receiver may be second
            if len(args) > 1 and isinstance(args[1], Ptr) and args[1].base is not None and args[1].base.iface and isinstance(args[0], Ptr) and args[0].base is not None and not args[0].base.vt:
                return s.call_abstract(st, args[1], fv.name, args, ins)
            return s.call(st, s.mod.funcs[fv.name], args, ins)
        if isinstance(fv, Opaque):
            h = s.handlers.get("call:" + str(fv.tag))
            if h: return s.norm(st, h[0](s, st, args, ins, None))
        raise EngineError(f"call through {fv} at {s.where(st)}")
    def intrinsic(s, st, name, args, ins):
        b = name[5:]
        if b.startswith(("lifetime", "dbg", "assume", "experimental.noalias", "invariant", "donothing", "prefetch", "stacksave", "stackrestore")): return None
        if b.startswith(("memcpy", "memmove")):
            return s.memcpy(st, args[0], args[1], args[2])
        if b.startswith("memset"): return s.memset(st, args[0], args[1], args[2])
        if b.startswith("expect"): return args[0]
        if b.startswith("fabs"): return z3.fpAbs(args[0])
        if b.startswith("floor"): return z3.fpRoundToIntegral(z3.RTN(), args[0])
        if b.startswith("ceil"): return z3.fpRoundToIntegral(z3.RTP(), args[0])
        if b.startswith("trunc."): return z3.fpRoundToIntegral(z3.RTZ(), args[0])
        if b.startswith("round."): return z3.fpRoundToIntegral(z3.RNA(), args[0])
        if b.startswith("sqrt"): return z3.fpSqrt(RM, args[0])
        if b.startswith("fmuladd"): return z3.fpAdd(RM, z3.fpMul(RM, args[0], args[1]), args[2])
        if b.startswith("umax"): return simp(z3.If(z3.UGT(bv(args[0],ins.ty.w), bv(args[1],ins.ty.w)), bv(args[0],ins.ty.w), bv(args[1],ins.ty.w)))
        if b.startswith("umin"): return simp(z3.If(z3.ULT(bv(args[0],ins.ty.w), bv(args[1],ins.ty.w)), bv(args[0],ins.ty.w), bv(args[1],ins.ty.w)))
        if b.startswith("smax"): return simp(z3.If(bv(args[0],ins.ty.w) > bv(args[1],ins.ty.w), bv(args[0],ins.ty.w), bv(args[1],ins.ty.w)))
        if b.startswith("smin"): return simp(z3.If(bv(args[0],ins.ty.w) < bv(args[1],ins.ty.w), bv(args[0],ins.ty.w), bv(args[1],ins.ty.w)))
        if b.startswith("bswap"):
            w = ins.ty.w; x = bv(args[0], w)
            return simp(z3.Concat(*[z3.Extract(8*i+7, 8*i, x) for i in range(w//8)]))
        if b.startswith("abs."):
            w = ins.ty.w; x = bv(args[0], w)
            return simp(z3.If(x < 0, -x, x))
        if b.startswith(("umul.with.overflow", "uadd.with.overflow", "usub.with.overflow", "smul.with.overflow", "sadd.with.overflow", "ssub.with.overflow")):
            w = ins.ty.elems[0].w; x, y = bv(args[0], w), bv(args[1], w); sg = b[0] == 's'; o = b[1:4]
            ext = (lambda v: z3.SignExt(w, v)) if sg else (lambda v: z3.ZeroExt(w, v))
            wide = {'mul': lambda: ext(x) * ext(y), 'add': lambda: ext(x) + ext(y), 'sub': lambda: ext(x) - ext(y)}[o]()
            r = {'mul': lambda: x * y, 'add': lambda: x + y, 'sub': lambda: x - y}[o]()
            return [simp(r), simp(ext(r) != wide)]
        if b.startswith("trap"): 
            s.oblige(st, "no trap", False, s.where(st)); return []
        if b.startswith("is.constant"): return False
        if b.startswith("objectsize"): return 2**64-1
        if b.startswith("eh.typeid"): return 0
        raise EngineError("intrinsic " + name)
    def memcpy(s, st, d, sp, n):
        n = simp(n) if is_sym(n) else n
        if isinstance(n, int):
            if n == 0: return None
            if not (s.deref_check(st, d, "memcpy target") and s.deref_check(st, sp, "memcpy source")): return []
            h = d.base.meta.get("memcpy") or sp.base.meta.get("memcpy")
            if h:
                r = h(s, st, d, sp, n)
                if r is not NotImplemented: return r
            if sp.base.kind == 'obj' and d.base.kind == 'obj' and isinstance(sp.off, int) and isinstance(d.off, int):
                src = sp.base; cells = st.mem.get(src.id) or {}
                got = []; o = sp.off; end = sp.off + n
                if d.base.size is not None and not (0 <= d.off and d.off + n <= d.base.size):
                    s.oblige(st, f"write inside object {d.base.name}", False, s.where(st)); return []
                while o < end:
                    c = cells.get(o)
                    if c is None and not s._overlap(cells, o, 1):
                        k = None
                        if o in src.vt: k = (8, s.initial(st, src, o, PTRT)[0][1])
                        elif o in src.schema: 
                            sz = src.meta.get("ssize", {}).get(o, 8)
                            ty = PTRT if sz == 8 and not src.meta.get("stype", {}).get(o) else src.meta["stype"][o]
                            v = s.initial(st, src, o, ty)
                            k = (ty.size, v if len(v) > 1 else v[0][1])
                        elif src.gv is not None and o in src.meta["init"]:
                            cc = src.meta["init"][o]; k = (cc[0], s.cval(cc[1]))
                        if k and o + k[0] <= end: got.append((o, k)); o += k[0]; continue
                        if src.gv is None and src.default is None:
                            # uninitialised / unconstrained: copy the largest aligned chunk lazily
                            sz = 8
                            while sz > 1 and (o % sz or o + sz > end or s._overlap(cells, o, sz) or any((o+j) in src.schema or (o+j) in src.vt for j in range(1, sz))): sz //= 2
                            ity = Ty(); ity.k = 'i'; ity.w = 8*sz; ity.size = sz; ity.elems = None
                            got.append((o, (sz, s.initial(st, src, o, ity)[0][1]))); o += sz; continue
                        got.append((o, (1, simp(s.byte(st, src, o))))); o += 1
                    elif c is not None and o + c[0] <= end: got.append((o, c)); o += c[0]
                    else: got.append((o, (1, simp(s.byte(st, src, o))))); o += 1
                for o, c in got: s.store_cell(st, d.base, d.off + (o - sp.off), c[0], c[1])
                return None
            # element copies to/from arrays or families, by declared cells
            ends = (sp.base, d.base)
            for r in ends:
                if r.kind != 'obj' and r.es is not None and n % r.es == 0 and 'fields' in r.meta and n // r.es <= 4:
                    for e in range(n // r.es):
                        for (o, ty) in r.meta['fields']:
                            a = s.gep(sp, e*r.es + o, []); bq = s.gep(d, e*r.es + o, [])
                            v = s.load1(st, a, ty); s.store(st, bq, v, ty)
                    return None
            if n <= 16 and any(r.kind == 'arr' and r.es == 1 for r in ends):
                i8 = ity_(8); bs = []
                for i in range(n):
                    q = s.gep(sp, i, [])
                    if not s.deref_check(st, q, "memcpy source"): return []
                    bs.append(s.load1(st, q, i8) if q.base.kind != 'obj' else simp(s.byte(st, q.base, q.off)))
                for i in range(n):
                    q = s.gep(d, i, [])
                    if not s.deref_check(st, q, "memcpy target"): return []
                    s.store(st, q, bs[i], i8)
                return None
            ity = Ty(); ity.k = 'i'; ity.w = 8*n; ity.size = n; ity.elems = None
            if n in (1, 2, 4, 8):
                v = s.load1(st, sp, ity); s.store(st, d, v, ity); return None
        h = s.handlers.get("memcpy:symbolic")
        if h: return h[0](s, st, [d, sp, n], None, None)
        raise EngineError(f"memcpy of {n} bytes {sp} -> {d} at {s.where(st)}")
    def memset(s, st, d, v, n):
        n = simp(n) if is_sym(n) else n
        v = simp(v) if is_sym(v) else v
        if isinstance(n, int) and isinstance(v, int):
            if n == 0: return None
            if not s.deref_check(st, d, "memset target"): return []
            h = d.base.meta.get("memset")
            if h: return h(s, st, d, v, n)
            if d.base.kind == 'obj' and isinstance(d.off, int):
                o = d.off; end = o + n
                while o < end:
                    sz = 8 if o % 8 == 0 and o + 8 <= end else 4 if o % 4 == 0 and o + 4 <= end else 1
                    s.store_cell(st, d.base, o, sz, int.from_bytes(bytes([v & 255])*sz, 'little')); o += sz
                return None
        if d.base is not None and d.base.meta.get("symsize") is not None and v == 0:
            d.base.meta["zeroed"] = True
            for off, ty in d.base.meta.get("cells", {}).items(): raise EngineError("memset after use")
            z = s.arr_sort
            d.base.meta["zerofill"] = True; return None
        h = s.handlers.get("memset:symbolic")
        if h: return h[0](s, st, [d, v, n], None, None)
        raise EngineError(f"memset {d} {v} {n}")
    # ---- instructions
    def step(s, st, fr, ins):
        op = ins.op; loc = fr.loc
        if op == 'load':
            p = s.val(fr, ins.ops[0])
            if isinstance(p, Ptr):
                if not s.deref_check(st, p, "load", ins.ty.size): return 'dead'
            return s.load(st, p, ins.ty)
        if op == 'store':
            p = s.val(fr, ins.ops[1])
            if isinstance(p, Ptr) and not s.deref_check(st, p, "store"): return 'dead'
            s.store(st, p, s.val(fr, ins.ops[0]), ins.x); return None
        if op == 'getelementptr':
            base = s.val(fr, ins.ops[0]); c, sy = ins.x
            syms = []
            for o, sc in sy:
                v = s.val(fr, o)
                if is_sym(v):
                    v = simp(v)
                    if is_sym(v) and v.size() < 64: v = z3.SignExt(64 - v.size(), v)
                if isinstance(v, int) and not isinstance(v, bool):
                    w = s._opwidth(fr, o)
                    if w and w < 64: v = sgn(v, w) % 2**64
                if isinstance(v, PtrInt): raise EngineError("gep by pointer")
                syms.append((v, sc))
            loc[ins.id] = s.gep(base, c, syms); return None
        if op == 'alloca':
            n = s.val(fr, ins.ops[0])
            if not isinstance(n, int): raise EngineError("variable alloca")
            r = Region(f"{fr.fn.dem.split('(')[0].split('::')[-1]}.alloca{ins.id}", "obj", size=s.mod.alloc_size(ins.x)*n)
            r.meta["ty"] = ins.x; r.meta["alloca"] = True; s.named[('alloca', r.id)] = True
            loc[ins.id] = Ptr(r, None, 0); fr.allocas = (fr.allocas or []) + [r]; return None
        if op in BINOPS: loc[ins.id] = s.binop(st, op, s.val(fr, ins.ops[0]), s.val(fr, ins.ops[1]), ins.ty.w, ins.x, ins); return None
        if op == 'icmp':
            loc[ins.id] = s.icmp(ins.x, s.val(fr, ins.ops[0]), s.val(fr, ins.ops[1]), fr, ins); return None
        if op == 'fcmp': loc[ins.id] = s.fcmp(ins.x, s.val(fr, ins.ops[0]), s.val(fr, ins.ops[1])); return None
        if op in ('zext', 'sext', 'trunc'):
            v = s.val(fr, ins.ops[0]); w0 = ins.x.w; w = ins.ty.w
            loc[ins.id] = s.intcast(op, v, w0, w); return None
        if op == 'select':
            c = simp(bl(s.val(fr, ins.ops[0]))); a = s.val(fr, ins.ops[1]); b = s.val(fr, ins.ops[2])
            if isinstance(c, bool): loc[ins.id] = a if c else b; return None
            if isinstance(a, (Ptr, Opaque, FuncPtr, PtrInt, list)) or isinstance(b, (Ptr, Opaque, FuncPtr, PtrInt, list)):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base is b.base and a.base is not None and a.base.kind != 'obj' and a.off == b.off:
                    loc[ins.id] = Ptr(a.base, z3.If(c, a.idx, b.idx), a.off); return None
                return [(c, a), (z3.Not(c), b)]
            if ins.ty.k == 'i' and ins.ty.w == 1: loc[ins.id] = simp(z3.If(c, zb(bl(a)), zb(bl(b))))
            elif ins.ty.k == 'f': loc[ins.id] = z3.If(c, a, b)
            else: loc[ins.id] = simp(z3.If(c, bv(a, ins.ty.w), bv(b, ins.ty.w)))
            return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a = s.val(fr, ins.ops[0]); b = s.val(fr, ins.ops[1])
            loc[ins.id] = s.fop(op, a, b); return None
        if op == 'frem':
            a = s.val(fr, ins.ops[0]); b = s.val(fr, ins.ops[1]); loc[ins.id] = s.ufun("frem", a, b); return None
        if op == 'fneg': loc[ins.id] = z3.fpNeg(s.val(fr, ins.ops[0])); return None
        if op in ('sitofp', 'uitofp'):
            v = s.val(fr, ins.ops[0]); w = ins.x.w
            v = bv(v, w); so = fsort(ins.ty.w)
            loc[ins.id] = simp_fp(z3.fpSignedToFP(RM, v, so) if op == 'sitofp' else z3.fpUnsignedToFP(RM, v, so)); return None
        if op in ('fptosi', 'fptoui'):
            v = s.val(fr, ins.ops[0]); w = ins.ty.w; sg = op == 'fptosi'
            lo = -2.0**(w-1) if sg else 0.0; hi = 2.0**(w-1) if sg else 2.0**w
            so = v.sort()
            if sg and w >= so.sbits(): c = z3.And(z3.fpGEQ(v, z3.FPVal(lo, so)), z3.fpLT(v, z3.FPVal(hi, so)))
            else: c = z3.And(z3.fpGT(v, z3.FPVal(lo - 1, so)), z3.fpLT(v, z3.FPVal(hi, so)))
            if s.opts.get("check_fptosi", True):
                s.oblige(st, "float to integer conversion in range", c, s.where(st)); st.assume(c)
                if simp(c) is False or not s.feasible(st, True): return 'dead'
            sort = z3.BitVecSort(w)
            loc[ins.id] = simp(z3.fpToSBV(z3.RTZ(), v, sort) if sg else z3.fpToUBV(z3.RTZ(), v, sort)); return None
        if op in ('fpext', 'fptrunc'): loc[ins.id] = z3.fpFPToFP(RM, s.val(fr, ins.ops[0]), fsort(ins.ty.w)); return None
        if op == 'bitcast':
            v = s.val(fr, ins.ops[0]); loc[ins.id] = s.conv(st, v, ins.ty)[0][1]; return None
        if op == 'ptrtoint':
            v = s.val(fr, ins.ops[0])
            loc[ins.id] = PtrInt(v) if isinstance(v, Ptr) and v.base is not None else (v.off if isinstance(v, Ptr) else v); return None
        if op == 'inttoptr':
            v = s.val(fr, ins.ops[0]); loc[ins.id] = v.p if isinstance(v, PtrInt) else v if isinstance(v, Opaque) else Ptr(None, None, v); return None
        if op == 'extractvalue':
            v = s.val(fr, ins.ops[0])
            for i in ins.x: v = v[i]
            loc[ins.id] = v; return None
        if op == 'insertvalue':
            import copy
            v = s.val(fr, ins.ops[0]); x = s.val(fr, ins.ops[1])
            def put(a, path):
                a = list(a)
                a[path[0]] = x if len(path) == 1 else put(a[path[0]], path[1:])
                return a
            loc[ins.id] = put(v, ins.x); return None
        if op == 'freeze': loc[ins.id] = s.val(fr, ins.ops[0]); return None
        if op == 'fence': return None
        if op == 'landingpad': raise EngineError("landingpad reached")
        raise EngineError(f"instruction {op} at {s.where(st)}")
    def _opwidth(s, fr, o):
        if isinstance(o, Const): return o.ty.w
        tab = getattr(fr.fn, 'wtab', None)
        if tab is None:
            tab = fr.fn.wtab = {I.id: I.ty.w for B in fr.fn.blocks for I in B.phis + B.ins}
            for p, t in zip(fr.fn.params, fr.fn.ptys): tab[p] = t.w
        return tab.get(o)
    def fop(s, op, a, b):
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RM, a, b)
        if z3.is_fp_value(a) and z3.is_fp_value(b): return simp_fp(r)
        ab = s.opts.get("abstract_float")
        if ab: return s.ufun(op, a, b)
        return r
    def ufun(s, name, a, b):
        f = z3.Function("uf_" + name, a.sort(), b.sort(), a.sort())
        if name in ("fadd", "fmul") and s.opts.get("attempt"): s.axioms.append(f(a, b) == f(b, a))     # IEEE 754: commutative
        return f(a, b)
    def intcast(s, op, v, w0, w):
        if isinstance(v, PtrInt):
            if op != 'trunc': return v
            raise EngineError("trunc of pointer")
        if isinstance(v, Opaque): return v
        if op == 'trunc':
            if isinstance(v, (bool, int)): v = int(v) & ((1 << w) - 1); return bool(v) if w == 1 else v
            if w == 1:
                return simp(z3.Extract(0, 0, v) == 1) if not isinstance(v, z3.BoolRef) else v
            return simp(z3.Extract(w-1, 0, v))
        if isinstance(v, bool): return int(v) if op == 'zext' else ((1 << w) - 1 if v else 0)
        if isinstance(v, int): return v if op == 'zext' else sgn(v, w0) % (1 << w)
        if isinstance(v, z3.BoolRef): return z3.If(v, BV(1 if op == 'zext' else (1 << w) - 1, w), BV(0, w))
        return simp(z3.ZeroExt(w - v.size(), v) if op == 'zext' else z3.SignExt(w - v.size(), v))
    def binop(s, st, op, a, b, w, nsw, ins):
        if w > 1 and op in ('and', 'or', 'xor') and (is_sym(a) or is_sym(b)):
            x, y = flag01(a), flag01(b)
            if x is not None and y is not None:
                r = simp({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](zb(x), zb(y)))
                return int(r) if isinstance(r, bool) else z3.If(r, BV(1, w), BV(0, w))
        if w == 1:
            a, b = bl(a), bl(b)
            if op == 'and': return simp(zb(And(a, b)))
            if op == 'or': return simp(zb(Or(a, b)))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(zb(a), zb(b)))
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt): return s.ptr_diff(a.p, b.p)
            if op == 'add':
                p, o = (a, b) if isinstance(a, PtrInt) else (b, a)
                if isinstance(o, PtrInt): raise EngineError("pointer addition")
                return PtrInt(s.gep(p.p, 0, [(o, 1)]))
            if op == 'sub' and isinstance(a, PtrInt): return PtrInt(s.gep(a.p, 0, [(-b % 2**64 if isinstance(b, int) else -b, 1)]))
            if op == 'sub' and isinstance(b, PtrInt) and a == 0 : raise EngineError("pointer negation")
            raise EngineError("pointer arithmetic " + op)
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque('arith')
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        M = (1 << w) - 1
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            za, zb_ = bv(a, w), bv(b, w)
            nz = simp(zb_ != 0)
            if nz is not True:
                s.oblige(st, "no division by zero", nz, s.where(st)); st.assume(nz)
            if op in ('sdiv', 'srem'):
                ov = simp(z3.Not(z3.And(za == BV(1 << (w-1), w), zb_ == BV(M, w))))
                if ov is not True:
                    s.oblige(st, "no division overflow trap (most negative value by -1)", ov, s.where(st)); st.assume(ov)
        if nsw and s.check_overflow and op in ('add', 'sub', 'mul'):
            za, zb_ = bv(a, w), bv(b, w)
            if op == 'add': c = z3.And(z3.BVAddNoOverflow(za, zb_, True), z3.BVAddNoUnderflow(za, zb_))
            elif op == 'sub': c = z3.And(z3.BVSubNoOverflow(za, zb_), z3.BVSubNoUnderflow(za, zb_, True))
            else: c = z3.And(z3.BVMulNoOverflow(za, zb_, True), z3.BVMulNoUnderflow(za, zb_))
            c = simp(c)
            if c is not True:
                s.oblige(st, f"no signed overflow ({op})", c, s.where(st)); st.assume(c)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sgn(a, w) >> min(b, w-1)) & M
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            if op == 'sdiv':
                x, y = sgn(a, w), sgn(b, w); q = abs(x) // abs(y); return (q if (x < 0) == (y < 0) else -q) & M
            if op == 'srem':
                x, y = sgn(a, w), sgn(b, w); q = abs(x) % abs(y); return (q if x >= 0 else -q) & M
        a, b = bv(a, w), bv(b, w)
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
             'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
             'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]()
        return simp(r)
    def icmp(s, p, a, b, fr, ins):
        if isinstance(a, PtrInt) and isinstance(b, PtrInt): a, b = a.p, b.p
        if isinstance(a, PtrInt): a = a.p; b = Ptr(None, None, b) if not isinstance(b, Ptr) else b
        if isinstance(b, PtrInt): b = b.p; a = Ptr(None, None, a) if not isinstance(a, Ptr) else a
        if isinstance(a, (Ptr, Opaque, FuncPtr)) or isinstance(b, (Ptr, Opaque, FuncPtr)):
            if p == 'eq': return s.ptr_eq(a, b)
            if p == 'ne': return simp(Not(s.ptr_eq(a, b)))
            return s.ptr_rel(p, a, b)
        w = s._opwidth(fr, ins.ops[0]) if not (is_sym(a) and z3.is_bv(a)) else a.size()
        if w == 1 or isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            x, y = zb(bl(a)), zb(bl(b))
            if p == 'eq': return simp(x == y)
            if p == 'ne': return simp(x != y)
            x, y = bv(x, 1), bv(y, 1); w = 1
        else: x, y = a, b
        if p in ('eq', 'ne') and isinstance(y, int) and is_sym(x):
            f = flag01(x)
            if f is not None:
                if y in (0, 1): return simp(zb(f) if (y == 1) == (p == 'eq') else z3.Not(zb(f)))
                return p == 'ne'
        if isinstance(x, int) and isinstance(y, int):
            x, y = int(x), int(y)
            if p[0] == 's': x, y = sgn(x, w), sgn(y, w)
            return {'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p if p in ('eq', 'ne') else p[1:]]
        x, y = bv(x, w), bv(y, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'ult': lambda: z3.ULT(x, y),
             'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y, 'slt': lambda: x < y, 'sle': lambda: x <= y}[p]()
        return simp(r)
    def fcmp(s, p, a, b):
        if p == 'true': return True
        if p == 'false': return False
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if p == 'ord': return simp(z3.Not(un))
        if p == 'uno': return simp(un)
        q = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}.get(p[1:])
        if p == 'one': return simp(z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b))))
        if p == 'une': return simp(z3.Not(z3.fpEQ(a, b)))
        return simp(q(a, b)) if p[0] == 'o' else simp(z3.Or(un, q(a, b)))
    # ---- loops with invariants: loops.py
    def cut_loop(s, st, fr, header, work, outer):
        from .loops import cut_loop
        return cut_loop(s, st, fr, header, work, outer)

BINOPS = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'}
PTRT = Ty(); PTRT.k = 'ptr'; PTRT.w = 64; PTRT.size = 8; PTRT.elems = None
def ity_(w): return ity(w)
def ity(w):
    t = Ty(); t.k = 'i'; t.w = w; t.size = max(1, w//8); t.elems = None; return t
def fty(w):
    t = Ty(); t.k = 'f'; t.w = w; t.size = w//8; t.elems = None; return t
def simp_fp(v): return z3.simplify(v)

class _Done(State):
    """a finished result parked on the worklist"""
    def __init__(s, r): s.r = r
_orig_run = Engine.run_path
def _run_path(s, st, base, loop, work):
    if isinstance(st, _Done): return st.r
    return _orig_run(s, st, base, loop, work)
Engine.run_path = _run_path

def strip_params(d):
    """demangled name without the parameter list (handles templates, operator() and trailing const)"""
    depth = 0
    if d.endswith(")"): pass
    i = len(d) - 1
    # find last ')' and its matching '('
    j = d.rfind(")")
    if j < 0: return d
    k = j; n = 0
    while k >= 0:
        if d[k] == ')': n += 1
        elif d[k] == '(':
            n -= 1
            if n == 0: break
        k -= 1
    if k <= 0: return d
    return d[:k]
