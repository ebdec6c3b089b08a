"""Replay of NodeImpl::transition on real nodes (drivers/node.cc, X lines) against the tables of vf/trans.py evaluated on concrete nodes."""
import random, re
from . import build, node as N, trans as T
def line(c, K):
    Q = c["present"]; act = "".join("1" if x in T.active(c["type"], c["s"]) else "0" for x in N.CONDS)
    return f"X {c['type']} {K[c['s'] + '_STATE']} {K[c['s2'] + '_STATE']} {c['no']} {c['nf']} {int(c['parent'])} {Q} {act} {int(c['s'] in T.RUN)} {c['nlocals']} {c['oc']} {c['fl']} {c['hold']} {c['children']}"
def expect(c, K):
    """per property: fields the transition must leave behind"""
    t, s0, s1 = c["type"], c["s"], c["s2"]; run = s1 in T.RUN
    rst = s0 == "FINISHED" or (s0, s1) == ("ITERATION_ENDED", "WAITING")
    oc, fl = (K["NO_OUTCOME"], K["NO_FAILURE"]) if rst else (c["oc"], c["fl"])
    if c["no"] != K["NO_OUTCOME"]:
        oc = c["no"]
        if c["nf"] != K["NO_FAILURE"]: fl = c["nf"]
    led = "".join("-" if x == "-" else "1" if n in T.active(t, s1) else "0" for n, x in zip(N.CONDS, c["present"])) + " L" + ("1" if run else "0")*c["nlocals"] + f" {int(run and t in ('Command', 'Assignment', 'Update'))}"
    dec = f"{K[s1 + '_STATE']} {oc} {fl} {K['NO_NODE_STATE']} {K['NO_OUTCOME']} {K['NO_FAILURE']}"
    root = not c["parent"] and s1 == "FINISHED"
    ev = ["!"] + (["[rootfinished]"] if root else [])
    ev += [{"exec.enqueueCommand": "[command]", "exec.enqueueAbortCommand": "[abort]", "exec.enqueueAssignment": "[assign]", "exec.enqueueAssignmentForRetraction": "[retract]", "exec.enqueueUpdate": "[update]"}[x]
           for x in T.actions(t, s0, s1) if x.startswith("exec")]
    x = {"WAITING": "FINISHED", "EXECUTING": "INACTIVE", "FINISHED": "INACTIVE"}.get(s1)
    if t in T.LIST and x and c["children"] != "-": ev += [f"+c{i}" for i, k in enumerate(c["children"]) if int(k) == K[x + "_STATE"]]
    q = N.enum("exec/Node.hh", "QueueStatus")["QUEUE_TRANSITION" if root else "QUEUE_TRANSITION_CHECK"]
    end = s0 in T.RUN and s1 in ("ITERATION_ENDED", "FINISHED")
    held = None if not c["hold"] else 0 if end else (3 if t == "Assignment" else 1) if run else None
    return {"ledger": led, "decision": (dec, sorted(ev), q), "resources": held}
def parse(o):
    m = re.match(r"X ((?:\d+ ){5}\d+) ([-\d]{13}) L(\d*) (\d) (\d) (\d+) (\S+) E(.*)$", o)
    if not m: return None
    dec, cnt, loc, ex, held, q, tm, ev = m.groups()
    return {"ledger": f"{cnt} L{loc} {ex}", "decision": (dec, sorted(re.findall(r"!|\[\w+\]|\+\w+", ev)), int(q)), "resources": int(held)}
def samples(K, seed=1, n=60):
    rnd = random.Random(seed); out = []
    oc = [K[x] for x in K if x.endswith("_OUTCOME")]; fl = [K[x] for x in ("NO_FAILURE", "PARENT_FAILED", "EXITED", "POST_CONDITION_FAILED")]
    for t in N.TYPES:
        for par in (True, False):
            for s0, s1 in T.legal(t, par):
                for i in range(n):
                    out.append({"type": t, "s": s0, "s2": s1, "parent": par, "present": "".join("X" if c in N.needs(t) or rnd.random() < .5 else "-" for c in N.CONDS), "nlocals": rnd.randrange(0, 4),
                                "hold": rnd.randrange(2), "children": "".join(str(rnd.randrange(1, 8)) for _ in range(rnd.randrange(4))) or "-" if t in T.LIST else "-",
                                "no": rnd.choice(oc), "nf": rnd.choice(fl), "oc": rnd.choice(oc), "fl": rnd.choice(fl)})
    return out
def check(cases, K, which):
    outs = build.drive("node.cc", [line(c, K) for c in cases], "exec"); bad = []
    for c, o in zip(cases, outs):
        e = expect(c, K)[which]; g = parse(o)
        if which == "resources" and e is None: continue
        if g is None or g[which] != e: bad.append({"node": c, "driver_line": line(c, K), "expected": e, "got": o if g is None else g[which]})
    if len(outs) < len(cases): bad.append({"driver": outs[-1] if outs else "no output", "after_line": len(outs)})
    return bad, len(cases)
def replay(P, failed, which):
    K = N.const_enums(); cx = [o["cex"] for _, o in failed if o.get("cex")][:200]
    bad, n = check(cx + samples(K, P.seed), K, which)
    return {"confirmed": bad[:20], "note": f"{n} transitions (verifier counterexamples first) replayed on real nodes", "how": "drivers/node.cc fed with driver_line"}
def selfcheck(P, which):
    K = N.const_enums(); bad, n = check(samples(K, P.seed, 20), K, which)
    return {"confirmed": bad[:20], "evaluations": n, "note": "specification against real node objects"}
