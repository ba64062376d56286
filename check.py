#!/usr/bin/env python3
"""python3 check.py <PROPERTY>   decides one property from /repo's current source. See DESIGN.md."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib")); sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(20000)
import ctx
from ir import AnalysisError


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        ctx.irx(); ctx.module("default"); print("analysis tools built"); sys.exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    mod = importlib.import_module(prop.lower())
    res = ctx.Result(prop, tier)
    known = set()
    kf = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=" + prop + " "):
                known.add(l.split("key=", 1)[1].split(" :: ")[0].strip())
    confs = getattr(mod, "CONFIGS_" + tier.upper(), ["default"] if tier == "quick" else ["default", "atomcfg", "small"])
    for c in confs:
        res.configs.append(c)
        try: mod.run(res, c)
        except AnalysisError as e:
            # what was already found to be wrong is reported; otherwise there is no answer
            if not any(k not in known for k in res.viol): raise
            res.notes.append("incomplete: %s" % e)
    if not res.obl: raise AnalysisError("no obligation was generated")
    new = {k: v for k, v in res.viol.items() if k not in known}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rp = os.path.join("evidence", prop + "-violations.txt")
    full = os.path.join(HERE, rp)
    if os.path.exists(full): os.unlink(full)
    for k, (where, msg, path) in res.viol.items():
        if k in known: print("KNOWN-FINDING: property=%s %s at %s: %s" % (prop, k, where, msg))
    if new:
        with open(full, "w") as f:
            for k, (where, msg, path) in new.items():
                f.write("[%s] %s: %s\n" % (k, where, msg))
                for p in path: f.write("    %s\n" % p)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other",
          "coverage": {"explanation": mod.EXPLANATION, "rule": getattr(mod, "RULE", mod.EXPLANATION), "configurations": res.configs,
                       "obligations": len(res.obl), "discharged": sum(1 for o in res.obl if not o.startswith("FAILED")),
                       "functions_analysed": len(res.fns), "functions": sorted(res.fns)[:200], "instances": res.counts,
                       "samples": (res.samples or [o for o in res.obl])[:25], "notes": res.notes},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d functions, %s, %.1f s" % (prop, len(res.obl), len(res.fns),
          ", ".join("%s=%d" % x for x in sorted(res.counts.items())), time.time() - t0))
    for n in res.notes: print("note:", n)
    if new:
        for k, (where, msg, path) in new.items(): print("  [%s] %s: %s" % (k, where, msg))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    sys.exit(0)


try:
    main()
except AnalysisError as e:
    print("ANALYSIS-ERROR: %s" % e); sys.exit(2)
except SystemExit:
    raise
except BaseException:
    traceback.print_exc(); print("ANALYSIS-ERROR: internal"); sys.exit(2)
