#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the harness annotations and tools/na.json (reasons)."""
import json, os, sys
sys.path.insert(0, "/verif")
import check
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
es = check.load()
na = json.load(open("/verif/tools/na.json"))
checks, not_app = [], []
for p in props:
    mine = [e for e in es if e.prop == p["id"]]
    if not mine:
        not_app.append({"property": p["id"], "reason": na.get(p["id"], "no harness yet")})
        continue
    note = "Bounded: every value within the stated bounds is decided by the solver, nothing outside them. Quick tier: " + "; ".join(
        e.fn[3:] + ": " + e.bounds["quick"] for e in mine if e.tier != "thorough")
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "technique": "symbolic execution of the compiled LLVM bitcode of the real sources, assertions decided by a SAT solver over bit-blasted terms (picosat, kissat), counterexamples replayed natively",
                   "level": "model_checking", "level_note": note[:3500]})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": not_app}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(not_app), "not applicable:", [x["property"] for x in not_app])
