import json, os


def write(V, REPO, prop, tier, ev, viol, noans, lines, tc, tt):
    meta = {}
    for l in open(V + "/properties.jsonl"):
        p = json.loads(l)
        meta[p["id"]] = p
    fn = {}
    for e in ev:
        for n, s in e.pop("names"):
            fn[n] = s
    tot = lambda k: sum(x[k] for x in ev)
    files = sorted({s.split(":")[0].replace(REPO + "/", "") for s in fn.values()})
    samples = [{"entry": e["entry"], "bounds": e["bounds"], "paths": e["paths"], "assertions": e["assertions"]} for e in ev[:12]]
    cov = {
        "states": tot("paths"),
        "transitions": tot("forks") + tot("paths"),
        "traces_validated_against_impl": tot("witnesses_native_ok"),
        "samples": samples,
        "explanation": "Bounded symbolic execution of the LLVM bitcode compiled from /repo's current sources. states = symbolic paths completed (each stands for all inputs and schedules "
                       "satisfying its path condition), transitions = branch decisions that split a path plus path ends. Each assertion is discharged for all values within the bounds, either because its "
                       "negation rewrites to false in the hash-consed XOR/AND graph or by a solver query (picosat, kissat). traces_validated_against_impl = witnesses of explored paths re-executed in the natively compiled code with the same outcome.",
        "functions_encoded": len(fn), "source_files_encoded": files,
        "functions": sorted(fn)[:400],
        "assertions": tot("assertions"), "assertions_discharged_by_rewriting": tot("assertions_by_rewriting"),
        "assertions_discharged_by_solver": tot("assertions_by_solver"), "solver_queries": tot("queries"), "solver_seconds": round(tot("solver_seconds"), 2),
        "symbolic_bits": tot("symbolic_bits"), "ir_instructions_executed": tot("instructions"),
        "witness_mismatches": [m for e in ev for m in e["witness_mismatches"]],
        "compile_seconds": round(tc, 2), "entries": ev, "undecided": noans, "known_findings_seen": lines,
    }
    out = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
           "assumptions": ["bounds per entry as listed in coverage.entries", "stand-ins for libraries outside /repo (see DESIGN.md, stubs/ and rt/)",
                           "clang 18 at -O2 compiles the sources faithfully; vsym interprets the resulting bitcode faithfully"],
           "wall_s": round(tt, 2), "violations": len(viol)}
    os.makedirs(V + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (V, prop), "w") as f:
        json.dump(out, f, indent=1)
