"""Obligation runner: builds the MIR dump and the native harness from /repo's working tree, discharges
the obligations of one property and writes the evidence file."""
import json, os, sys, time, subprocess, signal, hashlib, multiprocessing, traceback, shutil
from .engine import *
from . import solve
import z3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "target"))
EVID = os.path.join(VERIF, "evidence")
NIGHTLY = "/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu"

class Failed(Exception):
    """an obligation that is definitely not discharged (counter-model or non-zero normal form)"""
    def __init__(self, what, cex=None, output=None):
        super().__init__(what)
        self.what = what; self.cex = cex; self.output = output
class Undecided(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def base_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTDOC", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"; e["CARGO_TERM_COLOR"] = "never"
    return e

def sh(cmd, cwd, env, timeout=850):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return r.returncode, r.stdout

def sysroot():
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=base_env(), stdout=subprocess.PIPE, text=True)
    return r.stdout.strip()

def build_mirdump():
    e = base_env(); e["CARGO_TARGET_DIR"] = f"{TARGET}/mirdump"
    rc, out = sh(["cargo", "+nightly", "build", "--offline", "-q"], f"{VERIF}/mirdump", e)
    if rc:
        raise RuntimeError("mirdump build failed:\n" + out[-3000:])
    return f"{TARGET}/mirdump/debug/mirdump"

def dump(feature):
    """monomorphised MIR of everything reachable from roots::<feature>; from /repo's current tree"""
    drv = build_mirdump()
    out = f"{TARGET}/dump-{feature}.jsonl"
    if os.environ.get("VERIF_REUSE_DUMP") and os.path.exists(out):   # development only
        return Program(out)
    if os.path.exists(out):
        os.unlink(out)
    e = base_env()
    e["CARGO_TARGET_DIR"] = f"{TARGET}/roots"
    e["RUSTC_WORKSPACE_WRAPPER"] = drv
    e["MIRDUMP_CRATE"] = "roots"; e["MIRDUMP_OUT"] = out
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints=allow -Coverflow-checks=on -Cdebug-assertions=off"
    # the workspace member must be recompiled so that the driver runs
    os.utime(f"{VERIF}/roots/src/lib.rs")
    rc, o = sh(["cargo", "+nightly", "check", "--offline", "-q", "--features", feature], f"{VERIF}/roots", e)
    if rc or not os.path.exists(out):
        log(o[-4000:])
        return None
    return Program(out)

def build_harness(area):
    e = base_env()
    pinned = "/root/.rustup/toolchains/nightly-2023-02-17-x86_64-unknown-linux-gnu/bin"
    e["RUSTUP_TOOLCHAIN"] = "1.70.0"
    e["RUSTC"] = pinned + "/rustc"; e["RUSTDOC"] = pinned + "/rustdoc"
    e["CARGO_TARGET_DIR"] = f"{TARGET}/harness"
    e["RUSTFLAGS"] = "--cap-lints=allow"
    rc, o = sh(["cargo", "build", "--release", "--offline", "-q", "--features", area, "--bin", f"h_{area}"], f"{VERIF}/harness", e)
    if rc:
        log(o[-4000:])
        return None
    return f"{TARGET}/harness/release/h_{area}"

def run_harness(area, args, timeout=300, stdin=None):
    """-> list of json objects printed by the harness, or None when it could not be built"""
    b = build_harness(area)
    if b is None:
        return None
    e = base_env(); e["RUST_BACKTRACE"] = "0"
    try:
        r = subprocess.run([b] + [str(a) for a in args], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, input=stdin)
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout.decode() if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        return [json.loads(l) for l in out.splitlines() if l.startswith("{") and l.endswith("}")] + [{"timeout": True}]
    res = [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]
    if r.returncode not in (0,):
        res.append({"crash": r.returncode, "stderr": r.stderr[-2000:]})
    return res

class Ob:
    def __init__(self, name, fn, timeout=240, bounded=None):
        self.name = name; self.fn = fn; self.timeout = timeout; self.bounded = bounded

class Rec:
    """per-obligation record filled in by the proof functions"""
    def __init__(self):
        self.paths = 0; self.goals = 0; self.fns = set(); self.contracts = set(); self.models = set(); self.note = ""
    def see(self, ctx):
        self.paths += 1
        self.fns |= ctx.inlined; self.contracts |= ctx.used

_OBS = None
def _alarm(*a):
    raise TimeoutError()
def _work(i):
    ob = _OBS[i]
    t = time.time()
    solve.STATS["queries"] = 0; solve.STATS["time"] = 0.0
    rec = Rec()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(ob.timeout)
    cex = None
    try:
        ob.fn(rec)
        st, what = "proved", ""
        if rec.goals == 0:
            st, what = "undecided", "no goal was generated (vacuous)"
    except Failed as e:
        st, what, cex = "failed", e.what, e.cex
    except (Undecided, Unsupported) as e:
        st, what = "undecided", f"{type(e).__name__}: {e}"
    except Panic as e:
        st, what = "undecided", f"panic outside exploration: {e.msg}"
    except TimeoutError:
        st, what = "undecided", f"timeout {ob.timeout}s"
    except RecursionError:
        st, what = "undecided", "recursion"
    except Exception as e:
        st, what = "undecided", "engine error: " + "".join(traceback.format_exception(e))[-1500:]
    signal.alarm(0)
    return {"name": ob.name, "status": st, "what": what, "cex": cex, "paths": rec.paths, "goals": rec.goals,
            "fns": sorted(rec.fns), "contracts": sorted(rec.contracts), "bounded": ob.bounded, "note": rec.note,
            "solver_queries": solve.STATS["queries"], "solver_s": round(solve.STATS["time"], 3), "wall_s": round(time.time() - t, 2)}

def run_obs(obs, procs=8):
    global _OBS
    _OBS = obs
    if not obs:
        return []
    with multiprocessing.get_context("fork").Pool(min(procs, len(obs)), maxtasksperchild=8) as pool:
        return pool.map(_work, range(len(obs)), chunksize=1)

def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid and k.get("status") == "known"]

def finish(pid, tier, seed, t0, results, native, level, assumptions, trusted, checker_cmd, native_desc):
    """results: obligation results; native: list of {"fail":..,"input":..} concrete failures on the real code"""
    os.makedirs(EVID, exist_ok=True)
    kf = known_findings(pid)
    def is_known(key):
        for k in kf:
            if k["key"] == key:
                return k
        return None
    viol = []
    known_hit = {}
    for r in results:
        if r["status"] == "failed":
            k = is_known(r["name"])
            if k: known_hit[k["key"]] = k
            else: viol.append(("ob", r))
    for n in native:
        k = is_known(n.get("key", n["fail"]))
        if k: known_hit[k["key"]] = k
        else: viol.append(("native", n))
    proved = [r for r in results if r["status"] == "proved" and not r["bounded"]]
    bounded = [r for r in results if r["status"] == "proved" and r["bounded"]]
    und = [r for r in results if r["status"] == "undecided"]
    fns = sorted(set(f for r in results for f in r["fns"]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": len([r for r in results if not r["bounded"]]), "discharged": len(proved),
            "checker_cmd": checker_cmd, "trusted_base": trusted,
            "proof_goals": sum(r["goals"] for r in results), "paths_explored": sum(r["paths"] for r in results),
            "bounded_obligations": [{"name": r["name"], "bound": r["bounded"], "status": r["status"]} for r in results if r["bounded"]],
            "undecided_obligations": [{"name": r["name"], "why": r["what"][:300]} for r in und],
            "functions_under_contract": fns, "functions_under_contract_count": len(fns),
            "callee_contracts_used": sorted(set(c for r in results for c in r["contracts"])),
            "backend": f"mirvc (polynomial normal forms) + z3 {z3.get_version_string()}",
            "solver_queries": sum(r["solver_queries"] for r in results), "solver_s": round(sum(r["solver_s"] for r in results), 2),
            "native_bounded_stage": native_desc,
            "obligation_list": [{"name": r["name"], "status": r["status"], "goals": r["goals"], "paths": r["paths"], "wall_s": r["wall_s"]} for r in results],
        },
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(viol),
    }
    if known_hit:
        ev["coverage"]["known_findings"] = sorted(known_hit)
    json.dump(ev, open(f"{EVID}/{pid}.json", "w"), indent=1)
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for r in und:
        log(f"undecided (bounded stage stands in): {r['name']}: {r['what'][:400]}")
    if not viol:
        print(f"OK property={pid} obligations={len(results)} proved={len(proved)} bounded={len(bounded)} undecided={len(und)} native_cases={native_desc.get('cases')} wall={ev['wall_s']}s")
        return 0
    rp = f"{EVID}/replay_{pid}.json"
    concrete = [v for k, v in viol if k == "native"] + [r["cex"] for k, r in viol if k == "ob" and r["cex"] and r["cex"].get("confirmed")]
    json.dump({"property": pid, "failed_obligations": [v for k, v in viol if k == "ob"], "failing_inputs": concrete}, open(rp, "w"), indent=1, default=str)
    for k, v in viol:
        log("  FAILED:", v["name"] + ": " + v["what"][:600] if k == "ob" else json.dumps(v)[:600])
    print(f"VIOLATION property={pid} replay={rp}" + ("" if concrete else " no-failing-input-found"))
    return 1
