"""Joining the two sides of a branch at its immediate post-dominator (option merge=True): keeps the number of paths linear in
sequences of independent decisions.  States that cannot be expressed as one (different event logs, pointers into different
objects, different object shapes) stay separate, so joining never loses or adds behaviour."""
import z3
from .engine import *
from . import engine as E
INFO = {}

def succs(B):
    t = B.ins[-1]
    if t.op == 'br': return list(t.x[:1] if not t.ops else t.x[:2])
    if t.op == 'switch': return [d for _, d in t.x[0]] + [t.x[1]]
    if t.op == 'invoke': return [t.x['normal']]
    return []
def ipdoms(fn):
    """immediate post-dominators, dead ends (raise, unreachable) ignored"""
    if fn.name in INFO: return INFO[fn.name][0]
    n = len(fn.blocks); S = [succs(b) for b in fn.blocks]
    EXIT = n; full = (1 << (n + 1)) - 1
    pd = [full] * n + [1 << EXIT]
    for i, b in enumerate(fn.blocks):
        if b.ins[-1].op == 'ret': S[i] = [EXIT]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            if not S[i]: continue
            x = full
            for j in S[i]: x &= pd[j]
            x |= 1 << i
            if x != pd[i]: pd[i] = x; ch = True
    res = [None] * n
    for i in range(n):
        if pd[i] == full: continue
        c = [j for j in range(n) if j != i and pd[i] >> j & 1]
        # the closest one is post-dominated by all the others
        for j in c:
            if all(k == j or pd[j] >> k & 1 for k in c): res[i] = j; break
    INFO[fn.name] = (res, S)
    return res
def region(fn, b, J):
    reg = set(); todo = [x for x in INFO[fn.name][1][b] if x != J]
    while todo:
        x = todo.pop()
        if x in reg or x == len(fn.blocks): continue
        reg.add(x)
        todo += [y for y in INFO[fn.name][1][x] if y != J]
    return reg
def plan(fn, b, depth, loop):
    J = ipdoms(fn)[b]
    if J is None or J in fn.loops: return None
    reg = region(fn, b, J)
    if b in reg or len(reg) > 40: return None
    if loop is not None and depth == loop[0]:
        if J == loop[1] or J not in loop[2] or not reg <= set(loop[2]): return None
    # a region must not leave a loop that contains the branch
    for h, body in fn.loops.items():
        if b in body and (J not in body or not reg <= set(body)): return None
    return J, reg

class No(Exception): pass
def mval(eng, g, x, y, w):
    if x is y: return x
    if isinstance(x, (bool, z3.BoolRef)) or isinstance(y, (bool, z3.BoolRef)):
        a, b = zb(bl(x)), zb(bl(y)); return x if a.eq(b) else simp(z3.If(g, a, b))
    if isinstance(x, int) and isinstance(y, int) and x == y: return x
    if isinstance(x, (int, z3.BitVecRef)) and isinstance(y, (int, z3.BitVecRef)):
        w = x.size() if is_sym(x) else y.size() if is_sym(y) else w
        if w is None: raise No(1)
        a, b = bv(x, w), bv(y, w); return x if a.eq(b) else simp(z3.If(g, a, b))
    if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
        if x.sort() != y.sort(): raise No(2)
        return x if x.eq(y) else z3.If(g, x, y)
    if isinstance(x, PtrInt) and isinstance(y, PtrInt): return PtrInt(mval(eng, g, x.p, y.p, w))
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.base is None and y.base is not None and y.base.kind == 'fam' and x.off == 0: x = Ptr(y.base, E.BV(0, 64), y.off)
        if y.base is None and x.base is not None and x.base.kind == 'fam' and y.off == 0: y = Ptr(x.base, E.BV(0, 64), x.off)
        if x.base is not y.base: raise No(3)
        if x.base is None: 
            if x.off == y.off: return x
            raise No(4)
        off = mval(eng, g, x.off, y.off, 64)
        if not isinstance(off, int) and x.base.kind != 'obj': raise No(5)
        idx = x.idx if x.idx is y.idx else (mval(eng, g, x.idx, y.idx, 64) if x.idx is not None and y.idx is not None else None)
        if idx is None and x.idx is not y.idx: raise No(6)
        return Ptr(x.base, idx, off)
    if isinstance(x, FuncPtr) and isinstance(y, FuncPtr) and x.name == y.name: return x
    from .stdlib import StrV
    if isinstance(x, StrV) and isinstance(y, StrV): return x if x.t.eq(y.t) else StrV(z3.If(g, x.t, y.t))
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y): return type(x)(mval(eng, g, a, b, None) for a, b in zip(x, y))
    try:
        if bool(x == y): return x
    except Exception: pass
    raise No(7)
def alts(v): return v if isinstance(v, list) and v and isinstance(v[0], tuple) else [(True, v)]
def cellval(eng, g, x, y, w):
    """memory cells may keep guarded alternatives of pointers that have no common region"""
    xs, ys = alts(x), alts(y)
    if len(xs) == len(ys) == 1:
        try: return mval(eng, g, xs[0][1], ys[0][1], w)
        except No: pass
    if not all(isinstance(v, (Ptr, PtrInt, FuncPtr, Opaque)) for _, v in xs + ys): raise No(10)
    if len(xs) + len(ys) > 6: raise No(15)
    return [(And(g, c), v) for c, v in xs] + [(And(Not(g), c), v) for c, v in ys]
def same_t(x, y): return isinstance(x, z3.ExprRef) and x.eq(y)
def freshlike(eng, v, size):
    if isinstance(v, (bool, z3.BoolRef)): return eng.fresh("undef", z3.BoolSort())
    if isinstance(v, int): return eng.fresh("undef", z3.BitVecSort(8 * size))
    if isinstance(v, z3.ExprRef): return eng.fresh("undef", v.sort())
    raise No(8)
def merge(eng, a, b, n0, c, depth, phis):
    """c: condition taken by a, its negation by b (None: use a fresh selector)"""
    if [id(x) for x in a.ev] != [id(x) for x in b.ev] and a.ev != b.ev: raise No(9)
    pa, pb = a.pc[n0:], b.pc[n0:]
    m = State(); m.pc = list(a.pc[:n0])
    if c is not None:
        g = c; ra, rb = [x for x in pa if not same_t(x, c)], [x for x in pb if not same_t(x, z3.Not(c))]
        m.models = [(x, min(n, n0)) for x, n in (a.models + b.models)[-3:]]
    else:
        ra, rb = pa, pb; i = 0
        while i < len(pa) and i < len(pb) and isinstance(pa[i], z3.ExprRef) and isinstance(pb[i], z3.ExprRef) and pa[i].eq(pb[i]): i += 1
        m.pc += pa[:i]; ra, rb = pa[i:], pb[i:]
        neg = lambda x, y: z3.is_not(x) and x.arg(0).eq(y)
        if ra and rb and isinstance(ra[0], z3.ExprRef) and isinstance(rb[0], z3.ExprRef) and (neg(ra[0], rb[0]) or neg(rb[0], ra[0])):
            g = ra[0]; ra, rb = ra[1:], rb[1:]          # the two sides exclude each other
        else: g = eng.fresh("side", z3.BoolSort())
    if ra: m.pc.append(z3.Implies(g, z3.And(*[zb(x) for x in ra])))
    if rb: m.pc.append(z3.Implies(z3.Not(g), z3.And(*[zb(x) for x in rb])))
    for k in set(a.mem) | set(b.mem):
        x, y = a.mem.get(k), b.mem.get(k)
        if x is y: m.mem[k] = x; continue
        if isinstance(k, int):
            x, y = x or {}, y or {}; d = {}
            al = eng.named.get(('alloca', k))
            for off in set(x) | set(y):
                u, v = x.get(off), y.get(off)
                if u is None or v is None:
                    one = u if u is not None else v
                    # the other side has not touched the cell: an initial value read lazily is the same for both
                    if one[1] is eng.named.get(('init', k, off)): d[off] = one; continue
                    if al:
                        o = Opaque('undef ptr') if isinstance(one[1], (Ptr, PtrInt, FuncPtr, Opaque, list)) else freshlike(eng, one[1], one[0])
                        d[off] = (one[0], cellval(eng, g, u[1] if u else o, v[1] if v else o, 8*one[0])); continue
                    raise No(11)
                if u[0] != v[0]: raise No(12)
                d[off] = (u[0], cellval(eng, g, u[1], v[1], 8*u[0]))
            m.mem[k] = d; m.own.add(k)
        else:
            if x is None: x = eng.named.get(('init', k))
            if y is None: y = eng.named.get(('init', k))
            if x is None or y is None: raise No(13)
            m.mem[k] = mval(eng, g, x, y, None)
    if set(a.ghost) != set(b.ghost): raise No(14)
    for k in a.ghost:
        if k == "nd": m.ghost[k] = max(a.ghost[k], b.ghost[k], key=len); continue      # inputs read so far (labels tell them apart on replay)
        m.ghost[k] = mval(eng, g, a.ghost[k], b.ghost[k], None)
    m.frames = [f.copy() for f in a.frames]; fr = m.frames[-1]; fb = b.frames[-1]
    for f, q in zip(m.frames, b.frames): f.allocas = list({id(r): r for r in (f.allocas or []) + (q.allocas or [])}.values())
    ph = {p.id: p for p in phis}
    for k in list(fr.loc):
        if k not in fb.loc: del fr.loc[k]; continue
        x, y = fr.loc[k], fb.loc[k]
        if x is y: continue
        if k in ph: fr.loc[k] = mval(eng, g, x, y, ph[k].ty.w)
        else:
            try: fr.loc[k] = mval(eng, g, x, y, None)
            except No: del fr.loc[k]
    m.ev = list(a.ev); m.trail = list(a.trail); m.loopctx = a.loopctx
    m.visits = dict(b.visits)
    for k, v in a.visits.items(): m.visits[k] = max(m.visits.get(k, 0), v)
    return m
def join(eng, st, fr, alts, loop, work):
    """alts: feasible (condition, target block) pairs of a branch or switch: run each to the post-dominator and merge.  Returns False when not applicable"""
    p = plan(fr.fn, fr.blk, len(st.frames), loop)
    if p is None: return False
    J, reg = p; depth = len(st.frames); n0 = len(st.pc); phis = fr.fn.blocks[J].phis
    res = []; states = [st.fork() for _ in alts]
    for q, (c, tgt) in zip(states, alts):
        q.pc.append(c); eng.marksym(q, q.frames[-1])
        lp = (depth, J, reg); w = []
        r = eng.enter(q, q.frames[-1], tgt, lp, w)
        if r is None: w.append(q)
        elif r[0] == 'multi': pass
        else: w.append(E._Done(r))
        backs, exits, outs = eng.explore(w, depth - 1, loop=lp)
        for x in outs: work.append(E._Done(('done', x.kind, x.val, x.st)))
        if exits: raise EngineError("branch region left unexpectedly")
        res.append(shrink(eng, backs, n0 + 1, depth, phis))
    acc = res[-1]
    for (c, _), A in reversed(list(zip(alts, res))[:-1]):
        if len(A) == 1 and len(acc) == 1:
            try: acc = [merge(eng, A[0], acc[0], n0, c, depth, phis)]; continue
            except No as x:
                if eng.opts.get("merge_debug"): print("no merge", fr.fn.dem[:60], x.args)
        elif eng.opts.get("merge_debug"): print("no merge: states", len(A), len(acc), fr.fn.dem[:60])
        acc = A + acc
        if c is not alts[0][0]: acc = shrink(eng, acc, n0, depth, phis)
    work += acc
    return True
def shrink(eng, backs, n0, depth, phis):
    out = []
    for b in backs:
        for i, x in enumerate(out):
            try: out[i] = merge(eng, x, b, n0, None, depth, phis); break
            except No: continue
        else: out.append(b)
    return out
