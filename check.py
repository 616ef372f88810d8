#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [quick|thorough]: decide one property against /repo's current working tree."""
import os, sys, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mirvc import runner, models
from mirvc.runner import *
from props.registry import PROPS, load

ASSUME = [
    "rustc (nightly 1.101) MIR of /repo's sources, monomorphised, is the code that runs; the native stage and the test suite use the pinned nightly-2023-02-17",
    "std / subtle library functions listed in mirvc/models.py behave as modelled (assumed contracts); all other dependency code reached is executed from its own MIR",
    "memory model: no aliasing beyond Rust references; unsafe code in /repo reached by the proofs is executed with the same rules",
]

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = PROPS[pid]
    os.makedirs(TARGET, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    results = []
    trusted = ["rustc nightly front end and MIR construction", "mirdump + mirvc engine (/verif/mirdump, /verif/mirvc)", "z3 %s" % runner.z3.get_version_string(), "assumed contracts of std/subtle functions in /verif/mirvc/models.py"]
    for feat, mod, fn in P.obs:
        try:
            prog = dump(feat) if feat else None
            if feat and prog is None:
                results.append(dict(name=f"{feat}: extraction", status="undecided", what="roots crate does not build against this tree", cex=None, paths=0, goals=0, fns=[], contracts=[], bounded=None, note="", solver_queries=0, solver_s=0, wall_s=0))
                continue
            obs = load(mod, fn)(prog)
        except Exception as e:
            results.append(dict(name=f"{mod}.{fn}", status="undecided", what=f"{type(e).__name__}: {e}", cex=None, paths=0, goals=0, fns=[], contracts=[], bounded=None, note="", solver_queries=0, solver_s=0, wall_s=0))
            continue
        results += run_obs(obs)
    # native, bounded stage on the real code; counter-models of failed obligations join its input pool
    pool = []
    for r in results:
        if r["cex"] and r["cex"].get("inputs"):
            pool += [v for v in r["cex"]["inputs"].values() if isinstance(v, str) and v.startswith("0x")]
    native, cases, desc = [], 0, []
    for area, q, th in P.native:
        args = list(th if tier == "thorough" else q) + ["--seed", seed]
        if pool: args += ["--pool", ",".join(pool[:200])]
        res = run_harness(area, args, timeout=(3000 if tier == "thorough" else 300))
        if res is None:
            desc.append(f"{area}: harness does not build against this tree")
            continue
        for x in res:
            if "fail" in x: native.append(x)
            elif "cases" in x: cases += x["cases"]; desc.append(f"{area}: {x['what']}")
            elif "crash" in x: native.append({"fail": f"{area} harness aborted", "input": json.dumps(x)})
    rc = finish(pid, tier, seed, t0, results, native, P.level, ASSUME + ([P.notes] if P.notes else []), trusted,
                f"python3-vt /verif/check.py {pid} {tier}", {"cases": cases, "what": "; ".join(desc), "label": "bounded (stated case count), never counted as proved"})
    sys.exit(rc)
main()
