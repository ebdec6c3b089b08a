"""One call of NodeImpl::transition on an abstract node of every type, for every legal (state, next state) step.
Shared by N02 (activation ledger), N03 (actions and stored decision) and X01 (resources given back)."""
import z3
from .engine import *
from . import engine as E
from .model import *
from . import node as N

FILES = ["exec/Mutex.cc", "expr/Reservable.cc", "expr/UserVariable.cc"]
INCLUDES = ["Mutex.hh"]
LIST = ("List", "Library")
def legal(t, parent=True):
    """legal (state, next) steps of the PLEXIL tables"""
    r = [("INACTIVE", "WAITING"), ("WAITING", "EXECUTING"), ("WAITING", "FINISHED"), ("WAITING", "ITERATION_ENDED"), ("ITERATION_ENDED", "FINISHED"), ("ITERATION_ENDED", "WAITING")]
    if parent: r += [("INACTIVE", "FINISHED"), ("FINISHED", "INACTIVE")]
    if t == "Empty": r += [("EXECUTING", "ITERATION_ENDED")] + ([("EXECUTING", "FINISHED")] if parent else [])
    elif t in ("Assignment", "Update"): r += [("EXECUTING", "FAILING"), ("EXECUTING", "ITERATION_ENDED")]
    else: r += [("EXECUTING", "FAILING"), ("EXECUTING", "FINISHING"), ("FINISHING", "FAILING"), ("FINISHING", "ITERATION_ENDED")]
    if t != "Empty": r += [("FAILING", "ITERATION_ENDED")] + ([("FAILING", "FINISHED")] if parent else [])
    return r
RUN = ("EXECUTING", "FINISHING", "FAILING")      # locals and the executable are active exactly here
def active(t, s):
    """own condition slots active while the node is in state s.  For List and Library call nodes the own ancestor* slots hold
    the conditions the children inherit; they are active while children may run."""
    kids = {"ancestorExit", "ancestorInvariant", "ancestorEnd"} if t in LIST else set()
    if s == "WAITING": return {"exit", "pre", "skip", "start"}
    if s == "EXECUTING":
        if t in ("Empty", "Update"): return {"end", "exit", "invariant", "post"}
        if t == "Assignment": return {"end", "exit", "invariant", "post", "actionComplete"}
        return {"end", "exit", "invariant"} | kids
    if s == "FINISHING": return {"actionComplete", "exit", "invariant", "post"} | kids
    if s == "FAILING": return {"abortComplete"} if t in ("Command", "Assignment") else {"actionComplete"} | kids
    if s == "ITERATION_ENDED": return {"repeat"}
    return set()
def actions(t, s, s2):
    """calls the step makes for the node's action, in order"""
    if s2 == "EXECUTING":
        return {"Command": ["cmd.activate", "cmd.fixValues", "exec.enqueueCommand"], "Assignment": ["asn.activate", "asn.fixValue", "exec.enqueueAssignment"],
                "Update": ["upd.activate", "upd.fixValues", "exec.enqueueUpdate"]}.get(t, [])
    if s2 == "FAILING": return {"Command": ["exec.enqueueAbortCommand"], "Assignment": ["exec.enqueueAssignmentForRetraction"]}.get(t, [])
    if s in RUN and s2 not in RUN: return {"Command": ["cmd.deactivate"], "Assignment": ["asn.deactivate"], "Update": ["upd.deactivate"]}.get(t, [])
    return []
B8 = z3.BitVecSort(8)
class Trans:
    def __init__(s, eng, st, t, parent, s0, s1, extras=True):
        s.eng = eng; s.t = t; s.s0 = s0; s.s1 = s1
        n = s.n = N.Node(eng, st, t, parent, always=N.needs(t)); K = s.K = n.K; m = eng.mod
        s.always = N.needs(t)
        w = s.w = eng.sym("w", B64)                          # witness index: stands for every local, mutex, child
        I = eng.iface
        # --- activation ledger of the condition slots
        act = z3.Const("act0", z3.ArraySort(B64, B32)); s.act0 = act
        for c in N.CONDS:
            on = c in active(t, s0)
            st.assume(z3.Implies(n.present[("node", c)], act[E.BV(N.CONDS.index(c) + 1, 64)] == (1 if on else 0)))
        st.ghost["act"] = act; st.ghost["unbal"] = z3.BoolVal(False)
        def activate(e, x, a, ins, d):
            i = a[0].idx; x.ghost["act"] = z3.Store(x.ghost["act"], i, x.ghost["act"][i] + 1)
        def deactivate(e, x, a, ins, d):
            i = a[0].idx; x.ghost["unbal"] = z3.Or(x.ghost["unbal"], x.ghost["act"][i] == 0)
            x.ghost["act"] = z3.Store(x.ghost["act"], i, x.ghost["act"][i] - 1)
        I[("Expression", "activate()")] = activate; I[("Expression", "deactivate()")] = deactivate
        I[("Expression", "isActive() const")] = lambda e, x, a, ins, d: x.ghost["act"][a[0].idx] != 0
        # --- local variables, mutexes, children: vectors of any length
        def vector(name, off, fam, inline):
            ln = eng.sym(name + "_n", B64); st.assume(z3.ULT(ln, E.BV(2**40, 64)))
            arr = Region(name + "_elems", "arr", es=8, length=ln); arr.schema[0] = lambda e, x, r, idx, ty, fam=fam: Ptr(fam, idx + 1, 0)
            if inline is not None: base, o = inline
            else: base, o = Region(name, "obj", size=24), 0; eng.store(st, Ptr(n.reg, None, off), base.ptr(), PT)
            eng.store(st, Ptr(base, None, o), arr.ptr(), PT); eng.store(st, Ptr(base, None, o + 8), Ptr(arr, ln, 0), PT); eng.store(st, Ptr(base, None, o + 16), Ptr(arr, ln, 0), PT)
            return ln
        lfam = Region("Local", "fam", vt=eng.vtable(NAMER), iface="Local")
        mfam = s.mfam = Region("Mutex", "fam", vt=eng.vtable("N6PLEXIL5MutexE"), iface="Mutex")
        cfam = Region("Child", "fam", vt=eng.vtable("N6PLEXIL8NodeImplE"), iface="Child")
        s.nl = s.nm = s.nc = E.BV(0, 64)
        if extras:
            s.nl = vector("locals", n.off["m_localVariables"], lfam, None)
            s.nm = vector("mutexes", n.off["m_usingMutexes"], mfam, None)
        for g in ("lw", "mrel", "cnote"): st.ghost[g] = E.BV(0, 32)
        st.ghost["lw"] = E.BV(1 if s0 in RUN else 0, 32)
        hit = lambda a: a[0].idx == w + 1
        def bump(g, d):
            def h(e, x, a, ins, dd): x.ghost[g] = x.ghost[g] + z3.If(hit(a), E.BV(d % 2**32, 32), E.BV(0, 32))
            return h
        I[("Local", "activate()")] = bump("lw", 1)
        def ldeact(e, x, a, ins, d):
            x.ghost["unbal"] = z3.Or(x.ghost["unbal"], z3.And(hit(a), x.ghost["lw"] == 0)); bump("lw", -1)(e, x, a, ins, d)
        I[("Local", "deactivate()")] = ldeact
        st.ghost["vrel"] = E.BV(0, 32)
        def release(e, x, a, ins, f):
            if not (isinstance(a[0], Ptr) and a[0].base is not None and a[0].base.kind == "fam"): return NotImplemented
            if a[0].base.iface == "Mutex": x.ghost["mrel"] = x.ghost["mrel"] + z3.If(hit(a), E.BV(1, 32), E.BV(0, 32))
            else: x.ghost["vrel"] = x.ghost["vrel"] + 1
            e.oblige(x, "resources are released on behalf of this node", bool(isinstance(a[1], Ptr) and a[1].base is n.reg), e.where(x))
        eng.on("PLEXIL::Reservable::release", release)
        # --- children of list nodes
        s.cstate = z3.Function("child_state", B64, B8)
        I[("Child", "getState() const")] = lambda e, x, a, ins, d: s.cstate(a[0].idx)
        I[("Child", "notify(PLEXIL::PlexilExec*)")] = bump("cnote", 1)
        if t in LIST:
            o = m.layout["ListNode"]["m_children"]
            if extras: s.nc = vector("children", None, cfam, (n.reg, o))
            else:
                for d in (0, 8, 16): eng.store(st, Ptr(n.reg, None, o + d), NULL, PT)
        # --- executable: command, assignment, update
        st.ghost["ex"] = s0 in RUN
        def exe(name, on):
            def h(e, x, a, ins, f):
                e.oblige(x, f"{name}: the node's own executable", bool(isinstance(a[0], Ptr) and a[0].base is s.exe), e.where(x))
                if on == 1: e.oblige(x, f"{name}: executable inactive before", not x.ghost["ex"], e.where(x)); x.ghost["ex"] = True
                if on == 0: e.oblige(x, f"{name}: executable active before", bool(x.ghost["ex"]), e.where(x)); x.ghost["ex"] = False
                if on == 2:
                    e.oblige(x, f"{name}: executable active", bool(x.ghost["ex"]), e.where(x))
                    e.oblige(x, f"{name}: local variables active", z3.Implies(z3.ULT(w, s.nl), x.ghost["lw"] == 1), e.where(x))
                x.ev.append(name)
            return h
        s.exe = Region("executable", "obj", vt={})
        for c, p, cl, f, fix in (("Command", "cmd", "CommandImpl", "m_command", "fixValues"), ("Assignment", "asn", "Assignment", "m_assignment", "fixValue"), ("Update", "upd", "UpdateImpl", "m_update", "fixValues")):
            eng.on(f"PLEXIL::{cl}::activate", exe(p + ".activate", 1)); eng.on(f"PLEXIL::{cl}::deactivate", exe(p + ".deactivate", 0)); eng.on(f"PLEXIL::{cl}::{fix}", exe(f"{p}.{fix}", 2))
            if t == c: eng.store(st, Ptr(n.reg, None, m.layout[c + "Node"][f]), s.exe.ptr(), PT)
        vfam = Region("Variable", "fam", vt=eng.vtable("N6PLEXIL12UserVariableIbEE"), iface="Variable")
        eng.on("PLEXIL::Assignment::getDest", lambda e, x, a, ins, f: Ptr(vfam, E.BV(1, 64), 0))
        I[("Variable", "getBaseVariable()")] = lambda e, x, a, ins, d: Ptr(vfam, E.BV(2, 64), 0)
        I[("Variable", "getBaseVariable() const")] = I[("Variable", "getBaseVariable()")]
        # --- executive
        s.ex = Region("exec", "obj", vt=eng.vtable("6vfExec"), iface="PlexilExec")
        def call(name, arg):
            def h(e, x, a, ins, d):
                if arg == "exe": e.oblige(x, f"{name}: called with the node's own executable", bool(isinstance(a[1], Ptr) and a[1].base is s.exe), e.where(x))
                if arg == "node": e.oblige(x, f"{name}: called with this node", bool(isinstance(a[1], Ptr) and a[1].base is n.reg), e.where(x))
                x.ev.append("exec." + name)
            return h
        for nm, ty, arg in (("enqueueCommand", "CommandImpl", "exe"), ("enqueueAbortCommand", "CommandImpl", "exe"), ("enqueueAssignment", "Assignment", "exe"),
                            ("enqueueAssignmentForRetraction", "Assignment", "exe"), ("enqueueUpdate", "Update", "exe"), ("addCandidateNode", "Node", "node"), ("markRootNodeFinished", "Node", "node")):
            I[("PlexilExec", nm)] = call(nm, arg)
        I[("PlexilExec", "getArbiter()")] = lambda e, x, a, ins, d: NULL
        # --- the node's own fields
        for f, v in (("m_state", K[s0 + "_STATE"]), ("m_nextState", K[s1 + "_STATE"])): n.set(st, f, v)
        s.no = eng.sym("next_outcome", B8); s.nf = eng.sym("next_failure", B8); s.q = eng.sym("queue_status", B8)
        n.set(st, "m_nextOutcome", s.no); n.set(st, "m_nextFailureType", s.nf); n.set(st, "m_queueStatus", s.q)
        s.Q = N.enum("exec/Node.hh", "QueueStatus")
        st.assume(z3.Or(*[s.q == s.Q[x] for x in ("QUEUE_NONE", "QUEUE_TRANSITION", "QUEUE_TRANSITION_CHECK")]))
        s.time = eng.sym("time", E.F64); st.assume(z3.Not(z3.fpIsNaN(s.time)))
        def publish(e, x, a, ins, f):
            if not (isinstance(a[0], Ptr) and a[0].base is n.reg): return NotImplemented
            x.ev.append("publish"); x.ghost["pub"] = (n.get(x, "m_state"), n.get(x, "m_outcome"), n.get(x, "m_failureType"))
        eng.on("PLEXIL::Notifier::publishChange", publish)
        eng.templates.append(s.templates)
        st.ghost["cex"] = s.cex
    def templates(s, ctx):
        out = []; w = s.w
        conds = {"": z3.BoolVal(True)}
        for x in ("FINISHED_STATE", "INACTIVE_STATE"): conds["&" + x] = s.cstate(w + 1) == s.K[x]
        for g in ("lw", "mrel", "cnote"):
            if ("ghost", g) not in ctx.locs: continue
            g0 = ctx.ev[("ghost", g)]; n = {"lw": s.nl, "mrel": s.nm, "cnote": s.nc}[g]
            for cn, c in conds.items():
                if cn and g != "cnote": continue
                for d in (1, -1):
                    for rn, inr in (("fwd", lambda k: z3.ULT(w, k)), ("rev", lambda k, n=n: z3.And(z3.ULT(w, n), z3.UGE(w, n - k)))):
                        out.append((f"{g} == entry {'+-'[d < 0]} [witness {rn} {cn}]",
                                    lambda st, get, k, g=g, g0=g0, c=c, d=d, inr=inr: get(("ghost", g)) == g0 + z3.If(z3.And(inr(k), c), E.BV(d % 2**32, 32), E.BV(0, 32))))
        if ("ghost", "unbal") in ctx.locs:
            u0 = ctx.ev[("ghost", "unbal")]
            out.append(("unbal unchanged", lambda st, get, k: get(("ghost", "unbal")) == u0))
        return out
    def cex(s, m):
        ev = lambda x: m.eval(x, model_completion=True)
        small = lambda n: min(ev(n).as_long(), 3)
        n = s.n
        ch = "-"
        if s.t in LIST:
            k = small(s.nc); ch = "".join(str(ev(s.cstate(E.BV(i + 1, 64))).as_long() % 8 or 1) for i in range(k)) or "-"
            wv = ev(s.w).as_long()
        return {"type": s.t, "s": s.s0, "s2": s.s1, "parent": n.parent is not None, "present": "".join("X" if z3.is_true(ev(n.present[("node", c)])) else "-" for c in N.CONDS),
                "nlocals": small(s.nl) if s.nl is not None else 0, "hold": 1 if small(s.nm) else 0, "children": ch,
                "no": ev(s.no).as_long(), "nf": ev(s.nf).as_long(), "oc": ev(n.outcome).as_long(), "fl": ev(n.failure).as_long(), "q": ev(s.q).as_long()}
    def fn(s): return method(s.eng.mod, "PLEXIL::NodeImpl::transition(PLEXIL::PlexilExec*, double)"), [s.n.p, s.ex.ptr(), s.time]
    # ---- obligations
    def ledger(s):
        def f(st):
            n = s.n; act = st.ghost["act"]; L = f"{s.t} {s.s0}->{s.s1}"
            r = [(f"{L}: nothing is deactivated that was not active", z3.Not(st.ghost["unbal"]))]
            for c in N.CONDS:
                i = E.BV(N.CONDS.index(c) + 1, 64)
                r.append((f"{L}: {c} condition active {'once' if c in active(s.t, s.s1) else 'no more'}", z3.Implies(n.present[("node", c)], act[i] == (1 if c in active(s.t, s.s1) else 0))))
            if n.parent is not None:
                for c in N.CONDS[:3]:
                    i = E.BV(100 + N.CONDS.index(c) + 1, 64); r.append((f"{L}: the parent's {c} condition is left to the parent", act[i] == s.act0[i]))
            r.append((f"{L}: every local variable {'active once' if s.s1 in RUN else 'inactive'}", z3.Implies(z3.ULT(s.w, s.nl), st.ghost["lw"] == (1 if s.s1 in RUN else 0))))
            if s.t in ("Command", "Assignment", "Update"): r.append((f"{L}: executable {'active' if s.s1 in RUN else 'inactive'}", z3.BoolVal(bool(st.ghost["ex"]) == (s.s1 in RUN))))
            return r
        return f
    def decision(s):
        def f(st):
            n = s.n; K = s.K; L = f"{s.t} {s.s0}->{s.s1}{'' if n.parent is not None else ' (root)'}"
            rst = s.s0 == "FINISHED" or (s.s0, s.s1) == ("ITERATION_ENDED", "WAITING")
            o0 = E.BV(K["NO_OUTCOME"], 8) if rst else n.outcome; f0 = E.BV(K["NO_FAILURE"], 8) if rst else n.failure
            has = s.no != K["NO_OUTCOME"]; hasf = z3.And(has, s.nf != K["NO_FAILURE"])
            g = lambda f: bv(n.get(st, f), 8)
            o1, f1 = z3.If(has, s.no, o0), z3.If(hasf, s.nf, f0)
            r = [(f"{L}: decided state stored", g("m_state") == K[s.s1 + "_STATE"]), (f"{L}: outcome {'reset' if rst else 'kept'} unless decided", g("m_outcome") == o1),
                 (f"{L}: failure type {'reset' if rst else 'kept'} unless decided", g("m_failureType") == f1),
                 (f"{L}: pending state cleared", g("m_nextState") == K["NO_NODE_STATE"]), (f"{L}: pending outcome cleared", g("m_nextOutcome") == K["NO_OUTCOME"]),
                 (f"{L}: pending failure type cleared", g("m_nextFailureType") == K["NO_FAILURE"])]
            ev = [x for x in st.ev if x.startswith(("cmd", "asn", "upd", "exec.enq"))]
            r.append((f"{L}: actions {actions(s.t, s.s0, s.s1)}", z3.BoolVal(ev == actions(s.t, s.s0, s.s1))))
            r.append((f"{L}: listeners told once", z3.BoolVal(st.ev.count("publish") == 1)))
            if "pub" in st.ghost: r.append((f"{L}: listeners told after state, outcome and failure type are stored", z3.And(bv(st.ghost["pub"][0], 8) == K[s.s1 + "_STATE"], bv(st.ghost["pub"][1], 8) == o1, bv(st.ghost["pub"][2], 8) == f1)))
            root = n.parent is None and s.s1 == "FINISHED"
            r.append((f"{L}: finished root reported {'once' if root else 'never'}", z3.BoolVal(st.ev.count("exec.markRootNodeFinished") == int(root))))
            q = bv(n.get(st, "m_queueStatus"), 8); Q = s.Q; add = st.ev.count("exec.addCandidateNode")
            if root: r.append((f"{L}: finished root not queued again", z3.And(q == s.q, z3.BoolVal(add == 0))))
            else: r.append((f"{L}: node will be checked again exactly once", z3.If(s.q == Q["QUEUE_NONE"], z3.And(q == Q["QUEUE_CHECK"], z3.BoolVal(add == 1)), z3.And(q == Q["QUEUE_TRANSITION_CHECK"], z3.BoolVal(add == 0)))))
            if s.t in LIST:
                x = {"WAITING": "FINISHED", "EXECUTING": "INACTIVE", "FINISHED": "INACTIVE"}.get(s.s1)
                exp = z3.BoolVal(False) if x is None else s.cstate(s.w + 1) == K[x + "_STATE"]
                r.append((f"{L}: children in the state that depends on it are told once, others not", z3.Implies(z3.ULT(s.w, s.nc), st.ghost["cnote"] == z3.If(exp, E.BV(1, 32), E.BV(0, 32)))))
            return r
        return f
    def resources(s):
        def f(st):
            L = f"{s.t} {s.s0}->{s.s1}"; r = []
            end = s.s0 in RUN and s.s1 in ("ITERATION_ENDED", "FINISHED")
            if end: r.append((f"{L}: every mutex used is released", z3.Implies(z3.ULT(s.w, s.nm), z3.UGE(st.ghost["mrel"], 1))))
            elif s.s1 in RUN: r.append((f"{L}: no mutex is released", z3.Implies(z3.ULT(s.w, s.nm), st.ghost["mrel"] == 0)))
            if s.t == "Assignment":
                if end: r.append((f"{L}: assigned variable is released", z3.UGE(st.ghost["vrel"], 1)))
                elif s.s1 in RUN: r.append((f"{L}: assigned variable is not released", st.ghost["vrel"] == 0))
            return r
        return f
def tasks(Task, which, pick=lambda s0, s1: True, extras=True):
    out = []
    for t in N.TYPES:
        for par in (True, False):
            for s0, s1 in legal(t, par):
                if not pick(s0, s1): continue
                if not par and s1 != "FINISHED" and which != "decision": continue
                def go(eng, t=t, par=par, s0=s0, s1=s1):
                    box = {}
                    def setup(e):
                        st = State(); e.templates.clear()
                        box["t"] = Trans(e, st, t, par, s0, s1, extras); f, a = box["t"].fn(); return f, a, st
                    def after(e, outs):
                        T = box["t"]
                        for o in outs:
                            if o.kind != "ret": e.oblige(o.st, f"no error raised ({o.kind} {o.val})", False); continue
                            e.oblige_all(o.st, getattr(T, which)()(o.st))
                        if not outs: e.oblige(State(), "transition returns", False)
                    eng.verify(setup, after)
                out.append(Task(f"{t} {s0}->{s1}{'' if par else ' root'}", go, merge=True))
    return out
