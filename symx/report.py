"""Verdict, evidence file, known findings."""
import json
import os
import re
import sys
import time

from . import runner

VERIF = runner.VERIF
EVID = os.path.join(VERIF, "evidence")


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == prop]


def check(prop, tier, jobs, budget, only, debug, nostop):
    t0 = time.time()
    agg = runner.run_property(prop, tier, jobs, budget, only, debug, stop=not nostop)
    st = agg["stats"]
    meta = agg["meta"]
    if debug:
        print(json.dumps({k: (round(v, 2) if isinstance(v, float) else v) for k, v in sorted(st.items())}))
        for k, v in agg["percfg"].items():
            print("  cfg", k, "paths", v.get("paths", 0), "forks", v.get("forks", 0), "asserts", v.get("assertions", 0),
                  "unsup", v.get("paths_unsupported", 0), "inconcl", v.get("inconclusive_vcs", 0),
                  "conc", v.get("concretised", 0), "unrep", v.get("unreproduced_candidates", 0))
        print("left", agg["left"], "wall", round(agg["wall"], 1), "validated", agg["validated"])
        for k in ("errors", "mismatch", "unreproduced"):
            for e in agg[k][:3]:
                print(k, e if isinstance(e, str) else json.dumps(e, indent=1)[:2500])
        for e in agg["unsupported"][:3]:
            print("unsupported:", e)
        print(len(agg["funcs"]), "functions")
    rc = 0
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    viol = agg["violations"]
    known = known_findings(prop)
    new = []
    for v in viol:
        if not any(matches(k, v) for k in known):
            new.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    paths = []
    for i, v in enumerate(new[:3]):
        path = os.path.join(EVID, "replay", "%s-%d.json" % (prop, i))
        json.dump({"property": prop, **v}, open(path, "w"), indent=1, default=str)
        paths.append(path)
        rc = 1
    if new:
        v = new[0]
        print("%s violated: %s" % (prop, v["label"]))
        print("  config %s" % json.dumps(v["cfg"]))
        for f in v["replay"]["failures"][:4]:
            print("  real code: %s  [%s]" % tuple(f))
        print("VIOLATION property=%s replay=%s" % (prop, paths[0]))
    exhaustive = agg["left"] == 0 and not agg["errors"] and not st.get("paths_unsupported") and \
        not st.get("inconclusive_vcs") and not st.get("concretised") and not st.get("unreproduced_candidates") and \
        rc == 0
    cov = {
        "states": st.get("paths", 0),
        "transitions": st.get("branch_points", 0) + st.get("case_splits", 0),
        "traces_validated_against_impl": agg["validated"],
        "samples": agg["samples"][:3],
        "exhaustive_within_bounds": exhaustive,
        "bounds": meta.bounds(tier),
        "stubs": meta.stubs(),
        "configurations": agg["cfgs"],
        "paths_completed": st.get("paths", 0),
        "paths_infeasible": st.get("paths_infeasible", 0),
        "paths_not_explored_deadline": agg["left"],
        "paths_outside_the_encoding": st.get("paths_unsupported", 0),
        "concrete_runs_of_paths_outside": st.get("outside_runs_passed", 0), "values_concretised": st.get("concretised", 0),
        "obligations_solver": st.get("assertions", 0),
        "obligations_structural": st.get("assertions_concrete", 0),
        "obligations_inconclusive": st.get("inconclusive_vcs", 0),
        "candidates_not_reproduced": st.get("unreproduced_candidates", 0),
        "validation_mismatches": st.get("validation_mismatch", 0),
        "solver_queries": st.get("queries", 0),
        "solver_seconds": round(st.get("solver_s", 0.0), 2),
        "functions_executed_symbolically": sorted(agg["funcs"]),
        "per_configuration": {k: {x: v.get(x, 0) for x in ("paths", "assertions", "queries", "inconclusive_vcs")}
                              for k, v in agg["percfg"].items()},
        "problems": (agg["errors"][:3] + agg["unsupported"][:3]),
    }
    ev = {"property": prop, "tier": tier, "seed": runner.SEED, "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "assumptions": ["exact real arithmetic instead of IEEE floats", "randomness, plotting back ends and fitted "
                          "third-party models are nondeterministic/recording stubs"] + meta.stubs()}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d paths, %d solver queries (%.1f s), %d+%d obligations, %d replays validated, exhaustive=%s, %.1f s"
          % (prop, "VIOLATED" if rc else "holds", st.get("paths", 0), st.get("queries", 0), st.get("solver_s", 0.0),
             st.get("assertions", 0), st.get("assertions_concrete", 0), agg["validated"], exhaustive,
             time.time() - t0))
    if not st.get("paths") and rc == 0:
        ran = st.get("outside_runs_passed", 0)
        print("no path completed inside the encoding; the real code held on %d concrete runs of those paths" % ran if ran else
              "no path completed: inconclusive")
        rc = 0 if ran else 2
    sys.stdout.flush()
    return rc


def matches(k, v):
    return bool(re.search(k["label"], v["label"])) and all(v["cfg"].get(a) == b for a, b in k.get("cfg", {}).items())


def replay(path):
    d = json.load(open(path))
    runner.preload()
    from . import patches, rng
    patches.install_concrete()
    rng.patch_pandas_random()
    r = runner.run_concrete(d["property"], d["cfg"], d["case"])
    print(json.dumps(r, indent=1))
    return 0 if r["status"] == "pass" else 1
