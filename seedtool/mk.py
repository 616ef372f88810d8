"""mk.py: (re)generate seeded/<id>/ from seedtool/seeds.py  (development tool, used by no check)"""
import os, sys, subprocess, json, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__)); OUT = os.path.join(HERE, "..", "seeded")
from seeds import SEEDS
DEMO = '''#!/bin/bash
# exit 0: behaviour as promised; non-zero: the property is broken
set -u
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
cp "$D/Cargo.toml" "$D/Cargo.lock" "$W/"
mkdir -p "$W/src" && cp "$D/main.rs" "$W/src/main.rs"
T=/root/.rustup/toolchains/nightly-2023-02-17-x86_64-unknown-linux-gnu/bin
cd "$W" && env -u RUSTFLAGS CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.70.0 RUSTC=$T/rustc RUSTDOC=$T/rustdoc CARGO_TARGET_DIR="$W/target" cargo run --offline -q
'''
CRATES = {"halo2curves": "/repo/halo2curves", "halo2_proofs": "/repo/halo2_proofs", "poseidon": "/repo/poseidon", "ckb_bf_vm": "/repo/ckb_bf_vm", "ckb_bf_base": "/repo/ckb_bf_base", "halo2_gadgets": "/repo/halo2_gadgets"}
EXT = {"ff": '"0.12"', "group": '"0.12"', "subtle": '"2.4"', "rand_core": '{ version = "0.6", default-features = false }', "num-bigint": '"0.4"', "pasta_curves": '{ version = "0.4.0", default-features = false, features = ["bits", "alloc"] }'}
def toml(deps):
    s = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[profile.dev]\nopt-level = 1\ndebug = 0\n[dependencies]\n'
    for d in deps:
        s += f'{d} = {{ path = "{CRATES[d]}" }}\n' if d in CRATES else f"{d} = {EXT[d]}\n"
    return s
for sid, sd in SEEDS.items():
    if len(sys.argv) > 1 and sid not in sys.argv[1:]: continue
    d = os.path.join(OUT, sid); os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tmp + "/w", "HEAD"])
    try:
        for f, old, new, *cnt in sd["edits"]:
            p = f"{tmp}/w/{f}"; s = open(p).read()
            k = cnt[0] if cnt else 0
            if isinstance(k, int) and s.count(old) != 1 and not cnt: raise SystemExit(f"{sid}: {s.count(old)} matches in {f}: {old}")
            parts = s.split(old); s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            open(p, "w").write(s)
        diff = subprocess.check_output(["git", "-C", tmp + "/w", "diff"], text=True)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", tmp + "/w"]); shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/Cargo.toml", "w").write(toml(sd["deps"]))
    shutil.copy(HERE + "/../harness/Cargo.lock", d + "/Cargo.lock")
    open(d + "/main.rs", "w").write(sd["demo"])
    json.dump({"property": sd["property"], "needs": sd["needs"], "what_it_breaks": sd["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", sid)
