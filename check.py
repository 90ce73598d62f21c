#!/usr/bin/env python3
"""check.py <property|all> [quick|thorough] [--entry NAME] [--keep]

Decides one property: compiles /repo's current sources and the property's harnesses to LLVM bitcode, executes them
symbolically with engine/vsym, replays every counterexample, writes evidence/<property>.json.
Exit 0: held on everything explored.  1: violated.  2: no answer (build failure, engine error, limit hit)."""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
B = os.path.join(V, "build")
CLANG = "clang++-18"
COMMON = ["-march=haswell", "-mno-avx512f", "-maes", "-mrdseed", "-U_FORTIFY_SOURCE", "-DVF_HARNESS", "-w",
          "-include", "cstdint", "-include", "functional", "-include", "stdexcept", "-include", "vector"]
BCF = ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only", "-emit-llvm", "-c",
       "-mllvm", "-inline-threshold=40",
       "-mllvm", "-two-entry-phi-node-folding-threshold=64", "-mllvm", "-speculate-one-expensive-inst=true",
       "-mllvm", "-max-speculation-depth=40", "-mllvm", "-phi-node-folding-threshold=32"]
JOBS = int(os.environ.get("VF_JOBS", "8"))


def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except BaseException:
        try:
            os.killpg(p.pid, signal.SIGKILL)  # with everything it started
        except ProcessLookupError:
            pass
        p.wait()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def newer(out, ins):
    if not os.path.exists(out):
        return False
    t = os.path.getmtime(out)
    return all(os.path.getmtime(i) <= t for i in ins)


def setup():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        eng = [f for f in glob.glob(V + "/engine/*") if os.path.isfile(f)]
        exe = B + "/engine/vsym"
        if not newer(exe, eng):
            os.makedirs(B + "/engine", exist_ok=True)
            r = sh(["make", "-C", V + "/engine", "-j8", "B=" + B + "/engine"])
            if r.returncode:
                sys.exit("engine build failed\n" + r.stdout + r.stderr) if False else die("engine build failed\n" + r.stdout + r.stderr)
        rts = sorted(glob.glob(V + "/rt/rt*.cpp"))
        for s in rts:
            o = B + "/" + os.path.basename(s)[:-4] + ".bc"
            if not newer(o, [s, __file__]):
                r = sh([CLANG, "-std=c++20", "-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only",
                        "-march=haswell", "-mno-avx512f", "-maes", "-U_FORTIFY_SOURCE", "-fno-builtin", "-I" + V + "/rt", "-emit-llvm", "-c", "-w", s, "-o", o + ".tmp"])
                if r.returncode:
                    die("runtime build failed\n" + r.stderr)
                os.rename(o + ".tmp", o)
    return exe, [B + "/" + os.path.basename(s)[:-4] + ".bc" for s in rts]


def die(msg):
    print("check: " + msg, file=sys.stderr)
    sys.exit(2)


class Entry:
    pass


def load():
    es = []
    for f in sorted(glob.glob(V + "/harness/*.cpp")):
        txt = open(f).read()
        srcs, flags, std, stubs = [], [], "17", []
        for m in re.finditer(r"^// @(src|flags|std|stubs) (.*)$", txt, re.M):
            k, v = m.group(1), m.group(2).split()
            if k == "src":
                srcs += v
            elif k == "flags":
                flags += v
            elif k == "std":
                std = v[0]
            elif k == "stubs":
                stubs += v
        for m in re.finditer(r"^// @entry (\S+) ([^:\n]*): (.*)$", txt, re.M):
            e = Entry()
            e.fn, e.file, e.srcs, e.flags, e.std, e.stubs = m.group(1), f, srcs, flags, std, stubs
            kv = dict(x.split("=", 1) for x in m.group(2).split())
            e.prop = kv["prop"]
            e.tier = kv.get("tier", "both")
            e.time = {"quick": float(kv.get("time", 120)), "thorough": float(kv.get("ttime", 700))}
            e.procs = int(kv.get("procs", 3))
            e.qtime = float(kv.get("qtime", 30))
            e.reach = [r for r in kv.get("reach", "").split(",") if r]
            e.known = kv.get("known")
            e.defs = ["-D" + d for d in kv.get("defs", "").split(",") if d]
            b = m.group(3).split("||")
            e.bounds = {"quick": b[0].strip(), "thorough": b[-1].strip()}
            es.append(e)
    return es


def compile_bc(src, out, std, flags, tier, stubs):
    inc = ["-I" + V + "/stubs/" + s for s in stubs] + ["-I" + V + "/stubs", "-I" + REPO, "-I" + V + "/rt"]
    cmd = [CLANG, "-std=c++" + std, "-include", V + "/rt/vf_string.h"] + BCF + COMMON + flags + ["-DVF_THOROUGH=%d" % (tier == "thorough")] + inc + [src, "-o", out]
    r = sh(cmd)
    return r.returncode, r.stderr, cmd


def native(e, work, tier):
    key = hashlib.md5(repr((e.file, e.srcs, e.flags, e.defs, e.std)).encode()).hexdigest()[:12]
    exe = work + "/native_" + key
    inc = ["-I" + V + "/stubs/" + s for s in e.stubs] + ["-I" + V + "/stubs", "-I" + REPO, "-I" + V + "/rt"]
    base = [CLANG, "-std=c++" + e.std, "-O1", "-g1", "-fsanitize=address"] + COMMON + e.flags + \
        ["-DVF_THOROUGH=%d" % (tier == "thorough"), "-DVF_NATIVE", "-include", V + "/rt/native_hooks.h"] + inc
    srcs = [(e.file, e.defs), (V + "/rt/native.cpp", [])] + [((REPO + "/" + s if not s.startswith("@") else V + "/" + s[1:]), []) for s in e.srcs]
    objs = []
    for i, (s, d) in enumerate(srcs):
        o = "%s_%d.o" % (exe, i)
        objs.append(o)
        r = sh(base + d + ["-c", s, "-o", o], timeout=600)
        if r.returncode:
            return None, r.stderr[-3000:]
    r = sh([CLANG, "-fsanitize=address", "-rdynamic", "-o", exe] + objs + ["-lpthread", "-ldl"], timeout=600)
    if r.returncode:
        return None, r.stderr[-3000:]
    return exe, ""


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=44:detect_odr_violation=0")


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    prop = args[0]
    tier = args[1] if len(args) > 1 else "quick"
    only = None
    if "--entry" in sys.argv:
        only = sys.argv[sys.argv.index("--entry") + 1]
        args = [a for a in args if a != only]
        tier = args[1] if len(args) > 1 else "quick"
    t0 = time.time()
    exe, rts = setup()
    es = [e for e in load() if (prop == "all" or e.prop == prop) and e.tier in ("both", tier) and (not only or re.fullmatch(only, e.fn))]
    if not es:
        die("no entries for " + prop)
    work = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir="/tmp")
    rc = 2
    try:
        rc = run(prop, tier, es, exe, rts, work, t0, only)
    finally:
        if "--keep" in sys.argv:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, es, exe, rts, work, t0, only):
    pool = concurrent.futures.ThreadPoolExecutor(JOBS)
    jobs = {}

    def bc(src, e, defs):
        path = src if src.startswith("/") else V + "/" + src[1:] if src.startswith("@") else REPO + "/" + src
        fl = e.flags + defs
        key = hashlib.md5(repr((path, e.std, fl, e.stubs)).encode()).hexdigest()[:16]
        if key not in jobs:
            out = work + "/" + key + ".bc"
            jobs[key] = (pool.submit(compile_bc, path, out, e.std, fl, tier, e.stubs), out, path)
        return key

    for e in es:
        e.keys = [bc(e.file, e, e.defs)] + [bc(s, e, []) for s in e.srcs]
    bad = 0
    ok = {}
    for k, (f, out, path) in jobs.items():
        r, err, cmd = f.result()
        ok[k] = r == 0
        if r:
            bad += 1
            print("check: cannot compile %s\n%s" % (path, err[:3000]), file=sys.stderr)
    tc = time.time() - t0
    res = []
    npool = concurrent.futures.ThreadPoolExecutor(3)
    natives = {}
    if "--no-native" not in sys.argv:
        for e in es:
            k = (e.file, tuple(e.defs))
            if k not in natives and all(ok[x] for x in e.keys):
                natives[k] = npool.submit(native, e, work, tier)

    def one(e):
        if not all(ok[k] for k in e.keys):
            return e, None, "compile"
        d = work + "/" + e.fn
        os.makedirs(d, exist_ok=True)
        cmd = [exe, "--out", d, "--entry", e.fn, "--time", str(e.time[tier]), "--procs", str(e.procs), "--query-time", str(e.qtime)] + [jobs[k][1] for k in e.keys]
        for r in rts:
            cmd += ["--lib", r]
        try:
            r = sh(cmd, timeout=e.time[tier] + 90)
        except subprocess.TimeoutExpired:
            return e, None, "engine did not stop"
        try:
            j = json.load(open(d + "/result.json"))
        except Exception as x:
            return e, None, "engine gave no result: " + (r.stderr[-1500:] if r else str(x))
        return e, j, r.stderr

    with concurrent.futures.ThreadPoolExecutor(max(1, JOBS // 2)) as ex:
        res = list(ex.map(one, es))
    known = []
    kf = V + "/known_findings.jsonl"
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith("{"):
                known.append(json.loads(l))
    viol, noans, lines, ev = [], [], [], []
    rdir = V + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    def nat(e):
        f = natives.get((e.file, tuple(e.defs)))
        if not f:
            return None
        try:
            x, nerr = f.result()
        except subprocess.TimeoutExpired:
            x, nerr = None, "timeout"
        if not x and (e.file, tuple(e.defs)) not in warned:
            warned.add((e.file, tuple(e.defs)))
            print("check: native build of %s failed\n%s" % (e.file, nerr), file=sys.stderr)
        return x
    warned = set()
    for e, j, err in res:
        if j is None:
            noans.append("%s: %s" % (e.fn, err))
            continue
        miss = [r for r in e.reach if r not in j["reach"]]
        files = sorted(glob.glob(work + "/" + e.fn + "/viol_*.txt"))
        nv = []
        for vf in files:
            msg = open(vf).readline().strip()[4:]
            kn = [k for k in known if k["property"] == e.prop and k["entry"] == e.fn and re.search(k["msg"], msg)]
            if kn:
                s = "KNOWN-FINDING: property=%s %s" % (e.prop, kn[0]["what"])
                if s not in lines:
                    lines.append(s)
                continue
            dst = "%s/%s_%s_%s.txt" % (rdir, e.prop, e.fn, os.path.basename(vf)[5:-4])
            shutil.copy(vf, dst)
            # replay
            how = None
            nx = nat(e)
            if nx:
                try:
                    r = sh([nx, vf, e.fn], timeout=90, env=NENV)
                    if r.returncode not in (0, 40, 41, 43):
                        how = "native build (exit %d): %s" % (r.returncode, r.stderr.strip()[-800:])
                except subprocess.TimeoutExpired:
                    how = "native build: did not terminate"
            if how is None:
                d2 = work + "/" + e.fn + "_replay"
                os.makedirs(d2, exist_ok=True)
                cmd = [exe, "--out", d2, "--entry", e.fn, "--time", "120", "--procs", "1", "--replay", vf] + [jobs[k][1] for k in e.keys]
                for r in rts:
                    cmd += ["--lib", r]
                try:
                    sh(cmd, timeout=200)
                    j2 = json.load(open(d2 + "/result.json"))
                    if j2["violations"]:
                        how = "concrete execution of the compiled bitcode"
                except Exception:
                    pass
            with open(dst, "a") as f:
                f.write("\nREPLAYED %s\nREPRODUCE python3 %s/check.py %s %s --entry %s\n" % (how, V, e.prop, tier, e.fn))
            if how is None:
                noans.append("%s: counterexample did not replay: %s (%s)" % (e.fn, msg, dst))
            else:
                nv.append((msg, dst, how))
        viol += [(e, m, d, h) for m, d, h in nv]
        if not nv and not files:
            if j["errors"] or j["timeout"] or j["assertions_unknown"] or j["unknown"]:
                noans.append("%s: errors=%s timeout=%s undecided=%s/%s %s" % (e.fn, j["errors"], j["timeout"], j["assertions_unknown"], j["unknown"], err[-1500:]))
            elif miss:
                noans.append("%s: vacuous, not reached: %s" % (e.fn, miss))
        wok, wbad = 0, []
        wfs = sorted(glob.glob(work + "/" + e.fn + "/path_*.txt"))
        if wfs and nat(e):
            for wf in wfs:
                try:
                    r = sh([nat(e), wf, e.fn], timeout=60, env=NENV)
                    if r.returncode == 0:
                        wok += 1
                    else:
                        wbad.append("%s: exit %d %s" % (e.fn, r.returncode, r.stderr[-300:]))
                except subprocess.TimeoutExpired:
                    wbad.append(e.fn + ": native run did not end")
        for w in wbad:
            print("check: witness mismatch " + w, file=sys.stderr)
        fns = sorted({n[1].replace(REPO + "/", "").replace("../", "") for n in j["functions"] if "fbpcf" in n[1]})
        names = [n for n in j["functions"] if "fbpcf" in n[1]]
        ev.append({"entry": e.fn, "harness": os.path.relpath(e.file, V), "bounds": e.bounds[tier], "paths": j["paths"], "assertions": j["assertions"],
                   "assertions_by_rewriting": j["assertions_by_rewriting"], "assertions_by_solver": j["assertions_by_solver"], "queries": j["queries"],
                   "solver_seconds": j["solver_s"], "symbolic_bits": j["sym_bits"], "instructions": j["instructions"], "schedule_points": j["sched_points"],
                   "external_sat": j["external"], "max_graph_nodes": j["max_nodes"], "wall_seconds": j["wall_s"], "reached": j["reach"],
                   "forks": j["forks"], "witnesses_native_ok": wok, "witness_mismatches": wbad, "functions_encoded": len(names), "violations": len(nv), "names": names})
        if "-v" in sys.argv or only:
            print("%s paths=%d assertions=%d (rw %d, solver %d) queries=%d solver=%.1fs bits=%d wall=%.1fs sched=%d viol=%d err=%d" % (
                e.fn, j["paths"], j["assertions"], j["assertions_by_rewriting"], j["assertions_by_solver"], j["queries"], j["solver_s"], j["sym_bits"], j["wall_s"], j["sched_points"], j["violations"], j["errors"]))
    for l in lines:
        print(l)
    for e, m, d, h in viol:
        print("VIOLATION property=%s replay=%s" % (e.prop, d))
        print("  %s: %s [%s]" % (e.fn, m, (h or "").split("\n")[0][:200]))
    for n in noans:
        print("check: NO ANSWER " + n, file=sys.stderr)
    if not only and prop != "all":
        evidence(prop, tier, ev, viol, noans, lines, tc, time.time() - t0)
    print("%s %s: %d entries, %d paths, %d assertions, %d queries, solver %.1fs, compile %.1fs, total %.1fs%s" % (
        prop, tier, len(ev), sum(x["paths"] for x in ev), sum(x["assertions"] for x in ev), sum(x["queries"] for x in ev), sum(x["solver_seconds"] for x in ev), tc, time.time() - t0,
        " VIOLATED" if viol else " NO ANSWER" if noans else " ok"))
    return 1 if viol else 2 if noans else 0


def evidence(prop, tier, ev, viol, noans, lines, tc, tt):
    from evidence_fmt import write
    write(V, REPO, prop, tier, ev, viol, noans, lines, tc, tt)


if __name__ == "__main__":
    main()
