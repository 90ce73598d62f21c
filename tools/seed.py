#!/usr/bin/env python3
# seed.py ID : builds seeded/ID/patch.diff from seeded/ID/edit.py-style spec given on stdin (JSON), then confirms it.
# spec: {"property":…, "needs":…, "what_it_breaks":…, "edits":[[file, old, new],…], "demo": "C++ text", "srcs":[…], "flags":"…"}
import json, os, subprocess, sys, shutil
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def confirm(i, build=True, check=True):
    d = V + "/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    T = "/tmp/seedrepo"
    sh("rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo; git -C %s checkout -q -- ." % T)
    r0 = sh("bash %s/demo.sh" % d, cwd=T)
    a = sh("git -C %s apply %s/patch.diff" % (T, d))
    r1 = sh("bash %s/demo.sh" % d, cwd=T)
    out = "%s: demo clean=%d patched=%d apply=%d" % (i, r0.returncode, r1.returncode, a.returncode)
    if r0.returncode: out += "\n" + (r0.stdout + r0.stderr)[-2000:]
    if r1.returncode > 1: out += "\n  patched says: " + (r1.stdout + r1.stderr)[-300:]
    sh("rm -rf /tmp/seedrepo")
    if build or check:
        sh("git -C %s apply %s/patch.diff" % (R, d))
        try:
            if build:
                b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seed_o.json")
                out += " build=%d tests=%s" % (b.returncode, t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?")
                if b.returncode: out += b.stdout[-1500:]
            if check:
                c = sh("python3 %s/check.py %s quick" % (V, m["property"]))
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                out += " check rc=%d violations=%d" % (c.returncode, len(v))
                if c.returncode != 1: out += "\n" + (c.stdout + c.stderr)[-800:]
        finally:
            sh("git -C %s checkout -q -- ." % R)
    print(out, flush=True)
def make(i, s):
    d = V + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            p = R + "/" + f; t = open(p).read()
            if t.count(old) != 1: sys.exit("%s: %d matches in %s for %r" % (i, t.count(old), f, old))
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
    finally:
        sh("git -C %s checkout -q -- ." % R)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# Run in the root of the repository: exits 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
%s
g++ -std=%s -O1 -march=haswell -maes -mrdseed -include cstdint -include functional -include stdexcept -include vector -I. -I"$D" %s "$D/demo.cpp" %s -o "$T/demo" -pthread || exit 3
cd "$T" && timeout 120 ./demo
''' % (s.get("pre", ""), s.get("std", "c++17"), s.get("flags", ""), " ".join(s.get("srcs", []))))
    if "folly" in s:
        for f in s["folly"]:
            os.makedirs(os.path.dirname(d + "/" + f), exist_ok=True)
            shutil.copy(V + "/stubs/" + f, d + "/" + f)
    if s.get("engine"):
        open(d + "/vf.h", "w").write("#pragma once\n")
        shutil.copy(V + "/harness/ideal_engine.h", d + "/ideal_engine.h")
if __name__ == "__main__":
    if sys.argv[1] == "make":
        specs = {}
        exec(open(sys.argv[2]).read(), {"seed": lambda i, **k: specs.__setitem__(i, k)})
        for i, s in specs.items():
            make(i, s)
            confirm(i)
    else:
        for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")): confirm(i, build=sys.argv[1] == "full")
