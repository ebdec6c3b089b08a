"""Runs the tasks of a property in parallel, writes the evidence file, reports violations."""
import json, os, sys, time, traceback, multiprocessing as mp, importlib
from . import build, engine
import z3

HERE = build.HERE

class Task:
    def __init__(s, name, fn, **opts): s.name = name; s.fn = fn; s.opts = opts

class Prop:
    """context handed to a property module"""
    def __init__(s, pid, tier, seed):
        s.id = pid; s.tier = tier; s.seed = seed; s.mod = None; s.samples = []
        s.known = [k for k in load_known() if k["property"] == pid]
    @property
    def thorough(s): return s.tier == "thorough"

def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

_ctx = {}
def _run_task(i):
    P, tasks = _ctx["P"], _ctx["tasks"]
    t = tasks[i]; t0 = time.time()
    res = {"task": t.name, "obl": [], "err": None}
    e = None
    try:
        for attempt in (0, 1):
            opts = dict(t.opts); opts.setdefault("deadline", _ctx["deadline"])
            opts["attempt"] = attempt
            if attempt: opts.update(timeout_ms=3*opts.get("timeout_ms", 20000), houdini_ms=6*opts.get("houdini_ms", 2000), feas_timeout_ms=20000, cvc5_ms=60000)
            e = engine.Engine(P.mod, opts)
            try: t.fn(e)
            except engine.EngineError:
                if attempt or not (e.unknowns or t.opts.get("alt")): raise
                continue
            if all(o.ok for o in e.obl) or not (e.unknowns or t.opts.get("alt")): break
    except engine.EngineError as x: res["err"] = f"{x}"
    except engine.Restart: res["err"] = "loop cut requested outside verify()"
    except RecursionError as x: res["err"] = "verifier recursion limit"
    except Exception as x: res["err"] = "internal: " + "".join(traceback.format_exception(x))[-1500:]
    if e is not None:
        for o in e.obl:
            d = {"name": o.name, "ok": o.ok, "status": o.status, "t": round(o.time, 3), "be": o.backend}
            if not o.ok:
                d["detail"] = str(o.detail)[:400]
                if o.model is not None:
                    d["model"] = {str(v): str(o.model[v])[:200] for v in list(o.model)[:80]}
                    if o.st is not None and o.st.ghost.get("cex"):
                        try: d["cex"] = (lambda f: f(o.model, o.st) if getattr(f, "wants_state", 0) else f(o.model))(o.st.ghost["cex"])
                        except Exception as x: d["cexerr"] = str(x)
            res["obl"].append(d)
        res.update(contracts=sorted(e.used_contracts), inlined=sorted(e.inlined), assume=sorted(e.assumptions), q=e.queries,
                   st=e.solver_time, paths=e.paths, steps=e.steps, inv={f"{a}/{b}": v for (a, b), v in e.invariants_found.items()},
                   covers=e.named.get("covers", {}))
    res["wall"] = time.time() - t0
    return res

def run_property(pid, tier=None, seed=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick"); seed = int(seed or os.environ.get("VERIF_SEED", "1"))
    sys.setrecursionlimit(20000)
    P = Prop(pid, tier, seed)
    m = importlib.import_module("props." + pid)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    builderr = None; results = []
    deadline = t0 + (700 if tier == "quick" else 3300)
    try:
        P.mod = m.build(P)
        tasks = m.tasks(P)
    except (build.BuildError, engine.EngineError, KeyError) as x:
        builderr = f"{type(x).__name__}: {x}"; tasks = []
    if tasks:
        _ctx.update(P=P, tasks=tasks, deadline=deadline)
        n = min(8, len(tasks))
        ctx = mp.get_context("fork")
        with ctx.Pool(n, maxtasksperchild=4) as pool:
            pend = [pool.apply_async(_run_task, (i,)) for i in range(len(tasks))]
            for i, r in enumerate(pend):
                try: results.append(r.get(timeout=max(5, deadline + 40 - time.time())))
                except mp.TimeoutError: results.append({"task": tasks[i].name, "obl": [], "err": "time budget exhausted", "wall": 0})
                except Exception as x: results.append({"task": tasks[i].name, "obl": [], "err": f"worker died: {x}", "wall": 0})
            pool.terminate()
    obl = [(r["task"], o) for r in results for o in r["obl"]]
    failed = [(t, o) for t, o in obl if not o["ok"]]
    errs = [(r["task"], r["err"]) for r in results if r["err"]]
    if builderr: errs.append(("build", builderr))
    empty = [r["task"] for r in results if not r["err"] and not r["obl"]]
    for t in empty: errs.append((t, "vacuous: no obligation was generated"))
    nc = [(r["task"], c) for r in results for c, v in r.get("covers", {}).items() if not v]
    for t, c in nc: errs.append((t, f"vacuous: cover point {c} not reachable"))
    violations = []; known_lines = []
    replay_info = None
    if failed or errs:
        # replay against the real code: model inputs first, then the property's directed inputs
        try: replay_info = m.replay(P, failed, errs) if hasattr(m, "replay") else None
        except Exception as x: replay_info = {"confirmed": [], "note": "replay failed: " + "".join(traceback.format_exception(x))[-1500:]}
    selfcheck = None
    if not failed and not errs and hasattr(m, "selfcheck"):
        # run the specification against the real code on sample inputs: guards the spec and the engine, decides nothing
        try: selfcheck = m.selfcheck(P)
        except Exception as x: selfcheck = {"note": f"self check failed to run: {x}", "confirmed": []}
        if selfcheck.get("confirmed"):
            replay_info = selfcheck
    conf = (replay_info or {}).get("confirmed", [])
    def is_known(text):
        return next((k for k in P.known if k.get("match") and k["match"] in text), None)
    newconf = []
    for c in conf:
        k = is_known(json.dumps(c))
        if k: 
            if k not in known_lines: known_lines.append(k)
        else: newconf.append(c)
    for k in P.known:
        if k.get("always") and k not in known_lines: known_lines.append(k)
    # obligations covered by a known finding
    nf = []
    for t, o in failed:
        k = next((k for k in P.known if k.get("obligation") and k["obligation"] in f"{t}: {o['name']}"), None)
        if k:
            if k not in known_lines: known_lines.append(k)
        else: nf.append((t, o))
    rc = 0
    rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, pid + ".json")
    for k in known_lines: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if nf or errs or newconf:
        rc = 1
        with open(rpath, "w") as f:
            json.dump({"property": pid, "failed_obligations": [{"task": t, **o} for t, o in nf[:40]], "undecided": errs[:40],
                       "confirmed_failing_inputs": newconf[:20], "replay_note": (replay_info or {}).get("note"),
                       "how_to_replay": (replay_info or {}).get("how")}, f, indent=1)
        for t, o in nf[:6]: print(f"failed obligation: [{t}] {o['name']} ({o['status']}) at {o.get('detail')}")
        for t, x in errs[:6]: print(f"undecided: [{t}] {x if len(x) < 400 else '...' + x[-400:]}")
        for c in newconf[:3]: print("failing input on the real code:", json.dumps(c)[:600])
        print(f"VIOLATION property={pid} replay={rpath}" + ("" if newconf else " no-failing-input-found"))
    contracts = sorted({c for r in results for c in r.get("contracts", [])})
    inl = sorted({c for r in results for c in r.get("inlined", [])})
    nobl = len(obl); ok = nobl - len(failed)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(m, "LEVEL", "proof"),
          "coverage": {
            "obligations": nobl, "discharged": ok,
            "checker_cmd": f"./check {pid}",
            "trusted_base": ["clang 18 -O0 front end + opt sroa,simplifycfg (LLVM IR is what is verified)", "vf/ verification condition generator (this repository)", "z3 %s" % z3.get_version_string(), "cvc5 1.1.2 (second opinion on unknown)",
                             *getattr(m, "TRUSTED", [])],
            "functions_under_contract": getattr(m, "CONTRACTS", []),
            "functions_executed_from_source": [c for c in inl if not c.startswith("std::")], "std_functions_executed": len([c for c in inl if c.startswith("std::")]),
            "assumed_contracts_used": contracts,
            "paths": sum(r.get("paths", 0) for r in results), "instructions": sum(r.get("steps", 0) for r in results),
            "solver_queries": sum(r.get("q", 0) for r in results), "solver_time_s": round(sum(r.get("st", 0) for r in results), 2),
            "by_backend": {b: sum(1 for _, o in obl if o["ok"] and o["be"] == b and "simplifier" not in o["status"]) for b in sorted({"z3", "cvc5"} | {o["be"] for _, o in obl})},
            "by_simplifier": sum(1 for _, o in obl if o["ok"] and "simplifier" in o["status"]),
            "loop_invariants_found": {k: v[:12] for r in results for k, v in r.get("inv", {}).items()},
            "tasks": len(results), "undecided": [f"{t}: {x}" for t, x in errs],
            "bounded_parts": getattr(m, "BOUNDED", []),
            "explanation": getattr(m, "EXPLAIN", ""),
          },
          "assumptions": list(getattr(m, "ASSUMPTIONS", [])) + sorted({a for r in results for a in r.get("assume", [])}),
          "wall_s": round(time.time() - t0, 2), "violations": (len(nf) + len(errs) + len(newconf))}
    if selfcheck: ev["coverage"]["spec_self_check_on_real_code"] = {k: v for k, v in selfcheck.items() if k in ("evaluations", "note", "samples")}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{pid}: {ok}/{nobl} obligations discharged, {len(errs)} undecided, {len(inl)} functions executed, {ev['wall_s']} s")
    if os.environ.get("VF_TIMES"):
        for r in sorted(results, key=lambda r: -r["wall"])[:int(os.environ["VF_TIMES"])]: print(f"   {r['wall']:.1f}s {r['task']} obl={len(r['obl'])} steps={r.get('steps')} q={r.get('q')} st={r.get('st',0):.1f}")
    return rc
