"""Loop rule.  A loop whose trip count the path condition does not decide is cut at its header:

  * everything the body can change (header phis, memory cells, array fields, ghost cells) is havocked;
  * a ghost iteration counter k is added;
  * candidate invariants are generated from templates, filtered by Houdini: a candidate survives if it holds on
    entry (k = 0) and, assuming all survivors at k, one arbitrary iteration re-establishes it at k + 1;
  * the surviving invariants are assumed and one arbitrary iteration is executed for real, recording its obligations;
    paths leaving the loop continue with the invariants as the only knowledge about the loop.

The invariants are therefore checked, never trusted; a template that does not fit is dropped and the
property's own obligation then fails if it needed it."""
import z3
from .engine import *
from . import engine as E

class Peel(Exception): pass
class Loc:
    """something the loop body changes: ('phi', id) / ('cell', region, off, size) / ('arr', key) / ('ghost', key)"""
    pass

class View:
    """what a candidate template may talk about, at one moment"""
    def __init__(s, eng, st, k, fr): s.eng = eng; s.st = st; s.k = k; s.fr = fr

def value_of(st, fr, loc):
    k = loc[0]
    if k == 'phi': return fr.loc.get(loc[1])
    if k == 'cell':
        c = (st.mem.get(loc[1]) or {}).get(loc[2])
        return c[1] if c is not None and c[0] == loc[3] else None
    if k == 'arr': return st.mem.get(loc[1])
    if k == 'ghost': return st.ghost.get(loc[1])

def fresh_like(eng, v, name, ty=None):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef): return eng.fresh(name, z3.BoolSort())
    if isinstance(v, z3.ExprRef): return eng.fresh(name, v.sort())
    if isinstance(v, int):
        return eng.fresh(name, z3.BitVecSort(ty or 64))
    if isinstance(v, Opaque) and "undef" in str(v): return v
    if isinstance(v, PtrInt): return PtrInt(fresh_like(eng, v.p, name))
    if isinstance(v, Ptr):
        if v.base is None: raise Peel(name)
        if v.base.kind == 'obj':
            return Ptr(v.base, None, eng.fresh(name, z3.BitVecSort(64)))
        return Ptr(v.base, eng.fresh(name, z3.BitVecSort(64)), v.off)
    from .stdlib import StrV, STR
    if isinstance(v, StrV): return StrV(eng.fresh(name, STR))
    if isinstance(v, list) or (isinstance(v, Opaque) and "undef" in str(v)): return Opaque("undef ptr")   # any use of it is an error
    raise EngineError(f"cannot generalise loop-modified value {v}")

def same(eng, a, b):
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.base is b.base and same(eng, a.off, b.off) and (a.idx is b.idx or (a.idx is not None and b.idx is not None and same(eng, a.idx, b.idx)))
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return a == b
    from .stdlib import StrV
    if isinstance(a, StrV) and isinstance(b, StrV): return a.t.eq(b.t)
    if isinstance(a, FuncPtr) and isinstance(b, FuncPtr): return a.name == b.name
    if isinstance(a, PtrInt) and isinstance(b, PtrInt): return same(eng, a.p, b.p)
    return False

def diff_mem(eng, pre, post, entry_regions):
    out = []
    for k, v in post.mem.items():
        w = pre.mem.get(k)
        if w is v: continue
        if isinstance(k, int):      # concrete object
            w = w or {}
            for off, c in v.items():
                d = w.get(off)
                if d is not None and d[0] == c[0] and same(eng, d[1], c[1]): continue
                out.append(('cell', k, off, c[0]))
        else:
            if w is None:
                w = eng.named.get(('init', k))
                # first touched inside the loop: changed only if it was stored to
                if not (isinstance(v, z3.ExprRef) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_STORE): continue
            if not same(eng, v, w): out.append(('arr', k))
    for k in set(pre.ghost) | set(post.ghost):
        if not same_ghost(pre.ghost.get(k), post.ghost.get(k)): out.append(('ghost', k))
    if len(post.ev) != len(pre.ev): raise EngineError("events logged inside a cut loop")
    return out
def same_ghost(a, b):
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef): return False
    try: return bool(a == b)
    except Exception: return False

def width_of_phi(fr, pid):
    for B in fr.fn.blocks:
        for p in B.phis:
            if p.id == pid: return p.ty.w
    return 64

def set_loc(eng, st, fr, loc, v):
    if loc[0] == 'phi': fr.loc[loc[1]] = v
    elif loc[0] == 'cell':
        cells = st.mem.get(loc[1]); cells = dict(cells) if cells else {}
        st.mem[loc[1]] = cells; st.own.add(loc[1]); cells[loc[2]] = (loc[3], v)
    elif loc[0] == 'arr': st.mem[loc[1]] = v
    else: st.ghost[loc[1]] = v

def terms(v):
    """SMT views of a value: list of (tag, term)"""
    if isinstance(v, bool): return [("b", z3.BoolVal(v))]
    if isinstance(v, z3.BoolRef): return [("b", v)]
    if isinstance(v, int): return [("i", v)]
    if isinstance(v, z3.BitVecRef): return [("v%d" % v.size(), v)]
    if isinstance(v, z3.FPRef): return [("f", v)]
    if isinstance(v, Ptr) and v.base is not None:
        return [("p%d:%d" % (v.base.id, v.off) if isinstance(v.off, int) else "p%d:s" % v.base.id, v.idx if v.base.kind != 'obj' else v.off)]
    if isinstance(v, PtrInt): return terms(v.p)
    if isinstance(v, z3.ExprRef): return [("x" + str(v.sort()), v)]
    return []

def cut_loop(eng, st, fr, header, work, outer):
    """cut the loop; while a pointer still changes its region (null or another object before the first round), run one round for real first"""
    key = (len(st.frames), fr.fn.name, header, 'peel'); n = st.visits.get(key, 0)
    try:
        if not getattr(eng, 'keep_null', False):
            n0 = len(work)
            try: return cut_loop1(eng, st.fork(), header, work, outer)
            except EngineError:      # a pointer not initialised before the loop may be used in it: treat it as null first
                del work[n0:]; eng.keep_null = True
                try: return cut_loop1(eng, st.fork() if n < 3 else st, header, work, outer)
                finally: eng.keep_null = False
        return cut_loop1(eng, st.fork() if n < 3 else st, header, work, outer)
    except Peel as x:
        if n >= 3: raise EngineError(f"loop changes a pointer whose region is not known ({x})")
    depth = len(st.frames); body = fr.fn.loops[header]
    st.visits[key] = n + 1
    backs, exits, outs = run_body(eng, (st, fr), depth, header, body)
    for o in outs: work.append(E._Done(('done', o.kind, o.val, o.st)))
    for x in exits: leave(eng, x, outer, work)
    for b in backs:
        b.visits[key] = n + 1
        cut_loop(eng, b, b.frames[-1], header, work, outer)
    return ('multi',)
def leave(eng, x, outer, work):
    f2 = x.frames[-1]
    for k in [k for k in x.visits if k[-1] == 'peel' and k[0] >= len(x.frames)]: del x.visits[k]
    r = eng.arrive(x, f2, f2.prev, f2.blk, outer, work)
    if r is None: work.append(x)
    elif r[0] != 'multi': work.append(E._Done(r))
def cut_loop1(eng, st, header, work, outer):
    fr = st.frames[-1]
    fn = fr.fn; depth = len(st.frames); body = fn.loops[header]
    lid = (fn.name, header)
    entry = st
    phis = fn.blocks[header].phis
    was = eng.recording
    # ---- 1. what does the body change?
    locs = [('phi', p.id) for p in phis]
    tys = {('phi', p.id): p.ty for p in phis}
    entry_v = {}
    eng.recording = False
    nested = eng.loopdepth = getattr(eng, 'loopdepth', 0) + 1
    try:
        k = eng.fresh("iter", z3.BitVecSort(64))
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12: raise EngineError("loop frame does not stabilise")
            G, gv = generic(eng, entry, depth, locs, tys, k)
            backs, exits, outs = run_body(eng, G, depth, header, body)
            new = []
            for b in backs:
                for l in locs:
                    v, w = gv.get(l), value_of(b, b.frames[depth-1], l)
                    if isinstance(v, Opaque): continue
                    if isinstance(v, Ptr) and isinstance(w, Ptr) and w.base is not None and v.base is not w.base: raise Peel(str(l))
                    if isinstance(v, Ptr) and isinstance(w, Ptr) and w.base is v.base and v.base is not None and v.base.kind == 'fam' and isinstance(v.off, int) and isinstance(w.off, int) and w.off != v.off: raise Peel(str(l))
                for d in diff_mem(eng, G[0], b, None):
                    if d[0] == 'cell' and value_of(entry, fr, d) is None:
                        # cell not materialised at entry: is the region known at entry?
                        if d[1] not in entry.mem and not known_region(entry, fr, d[1]): continue
                        materialise(eng, entry, b, d)
                    if d not in locs and d not in new: new.append(d)
            if not new: break
            locs += new
            # overlapping cell shapes: keep as they are; conflicting sizes are rejected
            cells = [l for l in locs if l[0] == 'cell']
            for a in cells:
                for b2 in cells:
                    if a is not b2 and a[1] == b2[1] and a[2] < b2[2] + b2[3] and b2[2] < a[2] + a[3]:
                        raise EngineError("loop writes a cell with several widths")
        # ---- 2. candidates
        entry_v = {l: value_of(entry, fr, l) for l in locs}
        cands = candidates(eng, entry, fr, locs, entry_v, backs, exits, G, gv, k, lid)
        # holds on entry?
        ent = lambda l: entry_v[l]
        for f in eng.loop_facts:
            for c in f(E.BV(0, 64)): entry.assume(c)
        live = []
        k0 = E.BV(0, 64)
        for name, f in cands:
            try: c = f(entry, ent, k0)
            except KeyError: continue
            if c is None: continue
            if c is True or eng.valid(entry, c, timeout=eng.opts.get("houdini_ms", 2000)): live.append((name, f))
        # ---- 3. Houdini
        while True:
            G, gv = generic(eng, entry, depth, locs, tys, k)
            gg = lambda l: gv[l]
            assume_all(eng, G[0], live, gg, k)
            backs, exits, outs = run_body(eng, G, depth, header, body)
            drop = set()
            for b in backs:
                bf = b.frames[depth-1]
                bb = lambda l: value_of(b, bf, l)
                k1 = k + 1
                todo = [(n, f) for n, f in live if n not in drop]
                # one query for all first
                conds = []
                for n, f in todo:
                    c = f(b, bb, k1)
                    if c is None: drop.add(n); continue
                    c = simp(c) if is_sym(c) else c
                    if c is True: continue
                    conds.append((n, c))
                if conds:
                    r, m = eng.check(b.pc + [z3.Not(z3.And(*[zb(c) for _, c in conds]))], timeout=eng.opts.get("houdini_ms", 2000)*2)
                    if r != z3.unsat:
                        if m is not None:
                            for n, c in conds:
                                try:
                                    if z3.is_false(m.eval(zb(c), model_completion=True)): drop.add(n)
                                except z3.Z3Exception: pass
                        for n, c in conds:
                            if n in drop: continue
                            if not eng.valid(b, c, timeout=eng.opts.get("houdini_ms", 2000)): drop.add(n)
            if not drop: break
            live = [(n, f) for n, f in live if n not in drop]
        eng.invariants_found[(fn.dem.split("(")[0], fn.blocks[header].name)] = [n for n, _ in live]
    finally:
        eng.recording = was; eng.loopdepth -= 1
    # ---- 4. one arbitrary iteration, recorded
    G, gv = generic(eng, entry, depth, locs, tys, k)
    assume_all(eng, G[0], live, lambda l: gv[l], k)
    backs, exits, outs = run_body(eng, G, depth, header, body)
    if was:
        for b in backs:
            bf = b.frames[depth-1]
            for n, f in live:
                c = f(b, lambda l: value_of(b, bf, l), k + 1)
                eng.count_obl(f"loop invariant kept: {fn.dem.split('(')[0]}/{fn.blocks[header].name}: {n}")
    for o in outs:
        work.append(E._Done(('done', o.kind, o.val, o.st)))
    for x in exits: leave(eng, x, outer, work)
    return ('multi',)

def known_region(st, fr, rid):
    for f in st.frames:
        for v in f.loc.values():
            if isinstance(v, Ptr) and v.base is not None and v.base.id == rid: return True
    return any(isinstance(v, Ptr) and v.base is not None and v.base.id == rid for c in st.mem.values() if isinstance(c, dict) for (_, v) in c.values())

def find_region(st, rid):
    for f in st.frames:
        for v in f.loc.values():
            if isinstance(v, Ptr) and v.base is not None and v.base.id == rid: return v.base
    for c in st.mem.values():
        if isinstance(c, dict):
            for (_, v) in c.values():
                if isinstance(v, Ptr) and v.base is not None and v.base.id == rid: return v.base
    return None
def materialise(eng, entry, b, d):
    """give a cell first written inside the loop its entry value"""
    r = find_region(entry, d[1]) or find_region(b, d[1])
    if r is None: return
    v = (b.mem.get(d[1]) or {}).get(d[2])[1]
    cells = entry.wcells(r)
    if d[2] in cells: return
    if isinstance(v, (Ptr, PtrInt)): ty = E.PTRT
    elif isinstance(v, z3.FPRef): ty = E.fty(8*d[3])
    else: ty = E.ity(8*d[3])
    from .stdlib import StrV, STR
    if isinstance(v, StrV): return
    if r.meta.get('alloca') or r.meta.get('heap'): 
        iv = eng.undef(ty) if ty.k != 'ptr' or not getattr(eng, 'keep_null', False) else NULL
    else:
        x = eng.load_obj(entry, r, d[2], ty)
        iv = x[0][1]
    entry.wcells(r)[d[2]] = (d[3], iv)

def generic(eng, entry, depth, locs, tys, k):
    G = entry.fork(); fr = G.frames[depth-1]
    gv = {}
    for l in locs:
        v = value_of(entry, entry.frames[depth-1], l)
        if v is None:
            if l[0] == 'cell': continue
            if l[0] == 'arr':
                raise EngineError(f"loop-modified array {l} unknown at entry")
            if l[0] == 'ghost': raise EngineError(f"loop-modified ghost {l} unknown at entry")
        w = None
        if l in tys: w = tys[l].w
        elif l[0] == 'cell': w = 8*l[3]
        g = fresh_like(eng, v, "L_%s" % "_".join(str(x) for x in l[:3] if not isinstance(x, tuple)), w)
        set_loc(eng, G, fr, l, g); gv[l] = g
    G.assume(z3.ULT(k, E.BV(2**62, 64)))
    for f in eng.loop_facts:
        for c in f(k): G.assume(c)
    G.visits = {kk: vv for kk, vv in G.visits.items() if not (kk[0] >= depth)}
    return (G, fr), gv

def assume_all(eng, G, live, get, k):
    eng.assuming = True
    try: cs = [f(G, get, k) for n, f in live]
    finally: eng.assuming = False
    for c in cs:
        if c is not None and c is not True: G.assume(c)

def run_body(eng, G, depth, header, body):
    g = G[0].fork()
    return eng.explore([g], depth-1, loop=(depth, header, body))

# ------------------------------------------------------------------ candidate templates
def candidates(eng, entry, fr, locs, ev, backs, exits, G, gv, k, lid):
    out = []
    def add(name, f): out.append((name, f))
    K = lambda kk, w: kk if w == 64 else z3.Extract(w-1, 0, kk)
    def nm(l): return "_".join(str(x) for x in l)
    ints = []
    for l in locs:
        v0 = ev[l]
        if v0 is None: continue
        # unchanged
        def unch(st, get, kk, l=l, v0=v0):
            return eq(eng, get(l), v0)
        add(f"{nm(l)} unchanged", unch)
        ts = terms(gv[l])
        if not ts: continue
        tag, t = ts[0]
        if z3.is_bv(t):
            w = t.size(); ints.append((l, w, tag))
            t0 = terms(v0)[0][1] if terms(v0) else None
            if t0 is None: continue
            t0 = bv(t0, w)
            # linear in k: step taken from the back edges
            steps = set()
            for b in backs:
                bt = terms(value_of(b, b.frames[len(entry.frames)-1], l))
                if bt:
                    d = simp(bv(bt[0][1], w) - t)
                    if isinstance(d, int): steps.add(sgn(d, w))
            for c in steps:
                if c == 0: continue
                def lin(st, get, kk, l=l, t0=t0, c=c, w=w):
                    x = terms(get(l))
                    return None if not x else bv(x[0][1], w) == t0 + K(kk, w) * E.BV(c % 2**w, w)
                add(f"{nm(l)} == entry + {c}*k", lin)
                # no wrap: derived from comparisons below
            if w == 8:
                def isbool(st, get, kk, l=l):
                    x = terms(get(l))
                    return None if not x else z3.ULE(bv(x[0][1], 8), 1)
                add(f"{nm(l)} is 0 or 1", isbool)
            for op in ("ule", "uge", "sle", "sge"):
                def mono(st, get, kk, l=l, t0=t0, op=op, w=w):
                    x = terms(get(l))
                    if not x: return None
                    x = bv(x[0][1], w)
                    return {"ule": z3.ULE, "uge": z3.UGE, "sle": lambda a, b: a <= b, "sge": lambda a, b: a >= b}[op](x, t0)
                add(f"{nm(l)} {op} entry", mono)
    # bounds against terms compared with a changing location in the loop (loop-invariant terms)
    bounds = set(); bl_ = []
    base = G[0].pc
    nb = len(base)
    gterms = {t.get_id() for l in gv for _, t in terms(gv[l]) if isinstance(t, z3.ExprRef)}
    def scan(e, acc, seen):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_app(e):
            kd = e.decl().kind()
            if kd in (z3.Z3_OP_EQ, z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ, z3.Z3_OP_DISTINCT):
                a, b = e.arg(0), e.arg(1)
                if z3.is_bv(a): acc.append((a, b))
            for c in e.children(): scan(c, acc, seen)
    def mentions(e, ids, memo={}):
        st_ = [e]; seen = set()
        while st_:
            x = st_.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.get_id() in ids: return True
            st_.extend(x.children())
        return False
    acc = []; seen = set()
    allst = list(backs) + list(exits)
    for b in allst:
        for c in b.pc[nb:]:
            if isinstance(c, z3.ExprRef): scan(c, acc, seen)
    gids = gterms | {k.get_id()}
    inv_terms = {}
    for a, b in acc:
        for x, y in ((a, b), (b, a)):
            if mentions(x, gids) and not mentions(y, gids): inv_terms.setdefault((y.sort().size(), y.get_id()), y)
    fresh_names = set()
    for (w, _), y in list(inv_terms.items())[:12]:
        if has_new_consts(y, entry, base): continue
        def kb(st, get, kk, y=y, w=w): return z3.ULE(kk, y) if w == 64 else None
        if w == 64:
            add(f"k <=u {str(y)[:40]}", kb)
        for l, lw, tag in ints:
            if lw != w: continue
            for op in ("ule", "uge", "sle", "sge"):
                def bd(st, get, kk, l=l, y=y, op=op, w=w):
                    x = terms(get(l))
                    if not x: return None
                    x = bv(x[0][1], w)
                    return {"ule": z3.ULE, "uge": z3.UGE, "sle": lambda a, b: a <= b, "sge": lambda a, b: a >= b}[op](x, y)
                add(f"{nm(l)} {op} {str(y)[:40]}", bd)
        # k bounded by the distance to the entry value (pointer/iterator loops)
        for l, lw, tag in ints:
            if lw == 64 and w == 64 and terms(ev[l]):
                t0 = bv(terms(ev[l])[0][1], 64)
                def kd(st, get, kk, y=y, t0=t0): return z3.ULE(kk, y - t0)
                add(f"k <=u {str(y)[:30]} - entry({nm(l)})", kd)
                def kd2(st, get, kk, y=y, t0=t0): return z3.ULE(kk, t0 - y)
                add(f"k <=u entry({nm(l)}) - {str(y)[:30]}", kd2)
    # equalities between locations of equal sort
    for i, (l1, w1, t1) in enumerate(ints):
        for (l2, w2, t2) in ints[i+1:]:
            if w1 == w2 and t1 == t2:
                def e2(st, get, kk, l1=l1, l2=l2, w=w1):
                    a, b = terms(get(l1)), terms(get(l2))
                    return None if not a or not b else bv(a[0][1], w) == bv(b[0][1], w)
                add(f"{nm(l1)} == {nm(l2)}", e2)
    if eng.opts.get("lean"): out = [(n, f) for n, f in out if not any(x in n for x in (" ule ", " uge ", " sle ", " sge ", "k <=u "))]
    # property supplied
    ctx = LoopCtx(eng, entry, fr, locs, ev, gv, lid, backs, exits, ints)
    for t in eng.templates:
        for name, f in t(ctx): add(name, f)
    seen = set(); res = []
    for n, f in out:
        if n in seen: continue
        seen.add(n); res.append((n, f))
    return res

class LoopCtx:
    def __init__(s, eng, entry, fr, locs, ev, gv, lid, backs, exits, ints):
        s.eng = eng; s.entry = entry; s.fr = fr; s.locs = locs; s.ev = ev; s.gv = gv; s.lid = lid; s.backs = backs; s.exits = exits; s.ints = ints
        s.fn = fr.fn
    def bools(s):
        """locations holding a truth value (bool phi or one-byte cell)"""
        r = []
        for l in s.locs:
            for tag, t in terms(s.gv.get(l)) if l in s.gv else []:
                if tag == "b": r.append((l, lambda v: zb(bl(v)) if not isinstance(v, (Ptr,)) else None))
                elif tag == "v8" or tag == "v1": r.append((l, lambda v: bv(v, 8) != 0))
        return r
    def of_sort(s, pred):
        r = []
        for l in s.locs:
            for tag, t in terms(s.gv.get(l)) if l in s.gv else []:
                if isinstance(t, z3.ExprRef) and pred(t): r.append((l, tag))
        return r

def has_new_consts(y, entry, base): 
    return False

def eq(eng, a, b):
    if a is None or b is None: return None
    if isinstance(a, PtrInt): a = a.p
    if isinstance(b, PtrInt): b = b.p
    if isinstance(a, list) or isinstance(b, list): return None
    if isinstance(a, (Ptr, Opaque, FuncPtr)) or isinstance(b, (Ptr, Opaque, FuncPtr)):
        if not (isinstance(a, (Ptr, Opaque, FuncPtr)) and isinstance(b, (Ptr, Opaque, FuncPtr))) and not (isinstance(a, int) or isinstance(b, int)): return None
        try: return eng.ptr_eq(a, b)
        except EngineError: return None
    from .stdlib import StrV
    if isinstance(a, StrV): return a.t == b.t if isinstance(b, StrV) else None
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)): return zb(bl(a)) == zb(bl(b))
    if isinstance(a, z3.FPRef) and isinstance(b, z3.FPRef): return a == b
    if isinstance(a, int) and isinstance(b, int): return a == b
    w = a.size() if z3.is_bv(a) else b.size() if z3.is_bv(b) else None
    if w is None: return a == b
    return bv(a, w) == bv(b, w)
