"""Replay of node properties on real node objects (drivers/node.cc) against the transition tables of vf/node.py evaluated on concrete conditions."""
import random, z3
from . import build, node as N
from . import engine as E
TR = z3.BoolVal
class Conc:
    """concrete node: same interface as node.Node as far as node.table uses it"""
    def __init__(s, t, parent, pstate, failure, cond, K):
        s.t = t; s.K = K; s.parent = 1 if parent else None; s.cond = cond; s.failure = E.BV(failure, 8); s.pstate = E.BV(pstate, 8)
    def ch(s, c): return "-" if c.startswith("ancestor") and s.parent is None else s.cond[c]
    def c(s, n): x = s.ch(n); return TR(x != "-"), TR(x in "TF"), TR(x == "T")
    def true(s, n): return TR(s.ch(n) == "T")
    def false(s, n): return TR(s.ch(n) == "F")
    def not_true(s, n): return TR(s.ch(n) not in "-T")
def decide(t, state, parent, pstate, failure, cond, K):
    """expected (ret, next, outcome, failure) or None when the state is illegal for the type"""
    rules = N.table(Conc(t, parent, pstate, failure, cond, K), state)
    if rules is None: return None
    for g, s2, o2, f2 in rules:
        if z3.is_true(z3.simplify(g)):
            return (int(s2 is not None), K[s2 + "_STATE" if s2 else "NO_NODE_STATE"], K[o2 + "_OUTCOME" if o2 else "NO_OUTCOME"], K[f2 or "NO_FAILURE"])
    return (0, K["NO_NODE_STATE"], K["NO_OUTCOME"], K["NO_FAILURE"])
def line(c, K): return f"D {c['type']} {K[c['state']]} {int(c['parent'])} {c.get('pstate', 0)} {c['failure']} " + "".join(c["cond"][x] for x in N.CONDS)
def samples(K, seed=1, n=250):
    rnd = random.Random(seed); out = []
    for t in N.TYPES:
        for s in N.STATES:
            base = {c: "-" for c in N.CONDS}
            for c in N.needs(t): base[c] = "T"
            def mk(cond, parent=True, ps=None, fl=None):
                out.append({"type": t, "state": s, "parent": parent, "pstate": ps if ps is not None else K["EXECUTING_STATE"], "failure": fl or K["NO_FAILURE"], "cond": cond})
            for c in N.CONDS:
                for v in "TFU":
                    if t in ("List", "Library") and c == "actionComplete" and v == "U": continue
                    for b in ({}, {x: "T" for x in ("start", "pre", "end", "post")}): mk({**base, **b, c: v}); mk({**base, **b, c: v}, False)
            fails = [v for k, v in K.items() if k in ("PARENT_FAILED", "PARENT_EXITED", "EXITED", "INVARIANT_CONDITION_FAILED", "NO_FAILURE", "PRE_CONDITION_FAILED", "POST_CONDITION_FAILED")]
            for f in fails: mk(dict(base, actionComplete="T", abortComplete="T"), True, None, f)
            for x in N.STATES: mk(dict(base), True, K[x])
            for _ in range(n):
                cond = {c: rnd.choice("----TTFFU" if rnd.random() < .5 else "-TTFFU") for c in N.CONDS}
                for c in N.needs(t):
                    if cond[c] == "-": cond[c] = rnd.choice("TFU")
                if t in ("List", "Library") and cond["actionComplete"] == "U": cond["actionComplete"] = "F"
                mk(cond, rnd.random() < .9, K[rnd.choice(N.STATES)], rnd.choice(fails))
    return out
def check(cases, K):
    cases = [(c, decide(c["type"], c["state"], c["parent"], c.get("pstate", 0), c["failure"], c["cond"], K)) for c in cases]
    cases = [x for x in cases if x[1] is not None]
    outs = build.drive("node.cc", [line(c, K) for c, _ in cases], "exec")
    bad = []; names = lambda v, suf: next((k for k, x in K.items() if x == v and k.endswith(suf)), v)
    for (c, e), o in zip(cases, outs):
        exp = "D " + " ".join(map(str, e)) + f" {K[c['state']]} {K['NO_OUTCOME']} {c['failure']}"
        if o != exp: bad.append({"node": c, "driver_line": line(c, K), "expected": exp, "got": o, "expected_next": names(e[1], "_STATE")})
    if len(outs) < len(cases) or (outs and outs[-1].startswith(("DIED", "TIMEOUT"))): bad.append({"driver": outs[-1] if outs else "no output", "after_line": len(outs)})
    return bad, len(cases)
