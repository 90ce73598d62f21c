#!/usr/bin/env python3
"""Fills the per-property part of DESIGN.md from properties.jsonl, the harness annotations and design_notes.py."""
import json, sys
sys.path[:0] = ["/verif", "/verif/tools"]
import check
from design_notes import N
es = check.load()
out = []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)
    how, outside = N[p["id"]]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("Decided by: " + how + ".")
    mine = [e for e in es if e.prop == p["id"]]
    out.append("Bounds (quick / thorough):\n")
    for e in mine:
        b = e.bounds
        out.append("- `%s`: %s%s" % (e.fn[3:], b["quick"], "" if b["thorough"] == b["quick"] else " / " + b["thorough"]))
    if outside: out.append("\nAssumed or outside: " + outside + ".")
    out.append("\nBeyond the tests: " + p.get("why_tests_cant", "") + "\n")
s = open("/verif/DESIGN.md").read()
a, b = "<!-- properties -->\n", "<!-- end -->\n"
i, j = s.index(a) + len(a), s.index(b)
open("/verif/DESIGN.md", "w").write(s[:i] + "\n".join(out) + s[j:])
import glob
rows = []
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("- `%s` (%s): %s" % (f.split("/")[-2], m["property"], m["needs"]))
s = open("/verif/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- endseeds -->\n"
i, j = s.index(a) + len(a), s.index(b)
open("/verif/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
