#!/usr/bin/env python3
"""Confirms a planted bug that is present as an uncommitted change in the scratch
copy /tmp/sc/repo: compiles, passes the stable tests, its demo fails with the
change and passes without. Keeps it as seeded/<id>/.
usage: plant.py <id> <property> <needs> <what_it_breaks>   (seeded/<id>/demo.rs exists)
       plant.py --recheck <id>"""
import json, os, subprocess, sys
SC = "/tmp/sc/repo"
V = "/verif/seeded"
DEMO = r'''#!/bin/bash
# cwd: the repository. Builds demo.rs (beside this file) against it; exit 0 = correct behaviour.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$repo/target/demo-work
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
http-types = { path = "$repo", features = ["hyperium_http", "unstable"] }
async-std = "1"
futures-lite = "1"
http = "0.2"
serde_json = "1"
T
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
export CARGO_TARGET_DIR=$repo/target/demo-build
cargo build --offline --quiet --manifest-path "$d/Cargo.toml" || exit 3
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
def demo(i):
    return sh(f"bash {V}/{i}/demo.sh", cwd=SC)
def main():
    re = sys.argv[1] == "--recheck"
    i = sys.argv[2] if re else sys.argv[1]
    d = f"{V}/{i}"
    os.makedirs(d, exist_ok=True)
    if re:
        sh("git checkout -- .", cwd=SC)
        r = sh(f"git apply {d}/patch.diff", cwd=SC)
        assert r.returncode == 0, r.stderr
    else:
        p = subprocess.run("git diff", shell=True, cwd=SC, capture_output=True).stdout
        assert p.strip(), "no change"
        open(f"{d}/patch.diff", "wb").write(p)
        json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.sh", "w").write(DEMO)
    try:
        b = sh("bash /tmp/sc/build.sh")
        assert b.returncode == 0, b.stderr[-3000:]
        sh("bash /tmp/sc/test.sh /tmp/sc/out.json")
        o = json.load(open("/tmp/sc/out.json"))
        st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        bad = [t for t in st if t not in set(o["passed"])]
        print("stable tests failing:", bad)
        r = demo(i)
        print("demo patched rc", r.returncode, (r.stdout + r.stderr)[-600:])
    finally:
        sh("git checkout -- .", cwd=SC)
    c = demo(i)
    print("demo clean rc", c.returncode, (c.stdout + c.stderr)[-1500:] if c.returncode else "")
    ok = not bad and r.returncode not in (0, 3) and c.returncode == 0
    print("KEEP" if ok else "REJECT", i)
main()
