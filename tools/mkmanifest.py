#!/usr/bin/env python3-vt
"""Source of /verif/MANIFEST.json (run: tools/mkmanifest.py)."""
import json, os, sys, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = {
 "P01": "plan loading goes through pugixml and a large factory hierarchy over unbounded XML trees; no contract on the parser functions within reach of the verifier expresses 'the node built is the one written', so it is not decided here",
 "L01": "a liveness statement about threads and timers; function contracts (safety, one call at a time) cannot express it",
 "H01": "relational statement over whole plan executions (two runs of a whole plan); the per-step parts are decided by N01-N04, X01, X02, the composition over a whole plan has no contract of its own",
 "J01": "the plan compilers are Java and generated ANTLR code; the installed deductive verifiers take C, Rust or LLVM, and no Java verifier is installed",
}
checks = []; na = []
for p in props:
    i = p["id"]
    if os.path.exists(f"{H}/props/{i}.py"):
        m = importlib.import_module("props." + i)
        note = getattr(m, "NOTE", None) or ("All obligations over the LLVM IR of the current sources discharged for all inputs. Assumes: " + "; ".join(m.ASSUMPTIONS) + "." + ("".join(" Bounded, not counted as proved: " + b + "." for b in getattr(m, "BOUNDED", []))) + " Trusts clang, the condition generator in vf/, z3/cvc5.")
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}", "evidence_file": f"evidence/{i}.json",
            "technique": "contract-based deductive verification: contracts on the real functions, verification conditions generated from their LLVM IR and discharged by SMT (z3, cvc5)",
            "level": getattr(m, "LEVEL", "proof"), "level_note": note})
    else: na.append({"property": i, "reason": NA.get(i, "no check built yet for this property")})
json.dump({"version": 1, "setup_cmd": "tools/setup", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: private state is reached with -fno-access-control in the verifier's own compilation. See DESIGN.md."}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
