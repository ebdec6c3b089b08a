"""N01: node decisions follow the PLEXIL transition tables."""
from vf.engine import *
from vf import engine as E
from vf.model import *
from vf import node as N
from vf.report import Task
import z3

CONTRACTS = ["NodeImpl::getDestState() for Empty, Assignment, Command, Update, List and LibraryCall nodes, with every getDestStateFrom* it dispatches to: result, next state, outcome and failure type equal the transition table"]
ASSUMPTIONS = ["conditions obey the Expression::getValue interface contract and are active when read (property N02)",
               "a pending outcome and failure type are cleared when a decision is requested (established by NodeImpl::transition, property N03)",
               "List nodes: the all-children-waiting-or-finished condition is always known (decided under property N04)"]
def build(P): return N.build()

def run(t, state, parent):
    def go(eng):
        box = {}
        def setup(e):
            st = State()
            n = box['n'] = N.Node(e, st, t, parent, always=N.needs(t))
            n.set(st, "m_state", n.K[state])
            if t in ("List", "Library"): st.assume(n.c("actionComplete")[1])
            e.iface[("Expression", "isActive() const")] = lambda e, st, a, ins, d: True
            st.ghost["cex"] = cex(n, state)
            return method(e.mod, "PLEXIL::NodeImpl::getDestState()"), [n.p], st
        def after(e, outs):
            n = box['n']; K = n.K; rules = N.table(n, state)
            for o in outs:
                if o.kind != 'ret':
                    e.oblige(o.st, f"no error raised ({o.kind} {o.val})", False); continue
                if rules is None: continue
                ns, no, nf, rv = E.BV(K["NO_NODE_STATE"], 8), E.BV(K["NO_OUTCOME"], 8), E.BV(K["NO_FAILURE"], 8), z3.BoolVal(False)
                for g, s2, o2, f2 in reversed(rules):
                    pick = lambda name, suffix, dflt: E.BV(K[name + suffix] if name else K[dflt], 8)
                    ns = z3.If(g, pick(s2, "_STATE", "NO_NODE_STATE"), ns); no = z3.If(g, pick(o2, "_OUTCOME", "NO_OUTCOME"), no)
                    nf = z3.If(g, pick(f2, "", "NO_FAILURE"), nf); rv = z3.If(g, z3.BoolVal(s2 is not None), rv)
                L = f"{t} {state[:-6]}{'' if parent else ' (root)'}"
                e.oblige_all(o.st, [(f"{L}: next state follows the table", bv(n.get(o.st, "m_nextState"), 8) == ns),
                    (f"{L}: outcome follows the table", bv(n.get(o.st, "m_nextOutcome"), 8) == no),
                    (f"{L}: failure type follows the table", bv(n.get(o.st, "m_nextFailureType"), 8) == nf),
                    (f"{L}: returns whether a transition is due", zb(bl(o.val)) == rv),
                    (f"{L}: current state, outcome and failure unchanged", z3.And(bv(n.get(o.st, "m_state"), 8) == K[state], bv(n.get(o.st, "m_outcome"), 8) == n.outcome, bv(n.get(o.st, "m_failureType"), 8) == n.failure))])
        eng.verify(setup, after)
    return go
def cex(n, state):
    def g(m):
        ev = lambda x: m.eval(x, model_completion=True)
        r = {"type": n.t, "state": state, "parent": n.parent is not None, "failure": ev(n.failure).as_long(), "cond": {}}
        if n.parent is not None: r["pstate"] = ev(n.pstate).as_long()
        for c in N.CONDS:
            p, k, v = n.c(c)
            r["cond"][c] = "-" if not z3.is_true(ev(p)) else "U" if not z3.is_true(ev(k)) else "T" if z3.is_true(ev(v)) else "F"
        return r
    return g
def tasks(P):
    t = []
    for ty in N.TYPES:
        for s in N.STATES:
            for par in (True, False):
                if (ty == "Empty" and s in ("FAILING_STATE", "FINISHING_STATE")) or (ty in ("Assignment", "Update") and s == "FINISHING_STATE"): continue
                t.append(Task(f"{ty} {s}{'' if par else ' root'}", run(ty, s, par)))
    return t
def replay(P, failed, errs):
    from vf import rnode
    K = N.const_enums()
    cex_ = [o["cex"] for _, o in failed if o.get("cex")][:200]
    bad, n = rnode.check(cex_ + rnode.samples(K, P.seed), K)
    return {"confirmed": bad[:20], "note": f"{n} node situations (verifier counterexamples first) replayed on real nodes", "how": "drivers/node.cc fed with driver_line"}
def selfcheck(P):
    from vf import rnode
    K = N.const_enums(); bad, n = rnode.check(rnode.samples(K, P.seed, 120), K)
    return {"confirmed": bad[:20], "evaluations": n, "note": "specification table against real node objects"}
