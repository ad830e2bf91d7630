"""Run one property's check: python3 engine/run.py C01 [quick|thorough]"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import absint, facts, prog  # noqa
from lib import Result

TRUSTED = [
    "rustc nightly's MIR construction and name resolution for the crate as built with the repository's features",
    "the models of std, hash-table and async-runtime operations in engine/builtins_.py and engine/moka_models.py",
    "the abstract interpreter in engine/absint.py",
]


def known():
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding:"):
                f = ln[len("finding:"):].strip()
                head, _, what = f.partition(" :: ")
                kv = dict(x.split("=", 1) for x in head.split(" ", 1) if "=" in x)
                out[(kv["property"], kv["key"])] = what
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import registry
    spec = registry.CHECKS[pid]
    P = prog.Program()
    res = Result(pid)
    try:
        spec["run"](P, res, tier)
    except absint.EngineError as e:
        res.bad("engine:%s" % e, "the analysis could not be completed (%s); failing closed" % e)
    kn = known()
    new = [f for f in res.findings if (pid, f.key) not in kn]
    old = [f for f in res.findings if (pid, f.key) in kn]
    wall = time.time() - t0
    cov = {
        "explanation": spec["rule"],
        "obligations": res.obligations,
        "discharged": res.discharged,
        "functions_analysed": len(res.fns),
        "units": {"functions_in_crate": len(P.fns)},
        "counts": res.stats,
        "samples": [str(s) for s in res.samples] or ["%s at %s" % x for x in list(res.keys.items())[:12]],
        "kinds_of_obligations": sorted(res.keys),
        "functions": sorted(res.fns)[:400],
        "checker_cmd": "./check.sh %s %s" % (pid, tier),
        "trusted_base": TRUSTED,
        "notes": res.notes,
        "findings": [{"key": f.key, "where": f.where, "message": f.msg} for f in res.findings],
    }
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov,
              assumptions=spec.get("assumes", []), wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, f.msg))
    print("%s: %d obligations, %d discharged, %d functions analysed, %.1fs" %
          (pid, res.obligations, res.discharged, len(res.fns), wall))
    if new:
        rd = os.path.join(ROOT, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".txt")
        with open(rp, "w") as f:
            f.write("property %s\nrule: %s\n\n" % (pid, spec["rule"]))
            for x in new:
                f.write("key: %s\nwhere: %s\n%s\n" % (x.key, x.where, x.msg))
                for t in x.trail:
                    f.write("    %s\n" % (t,))
                f.write("\n")
        for x in new[:12]:
            print("  [%s] %s %s" % (x.key, x.where, x.msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
