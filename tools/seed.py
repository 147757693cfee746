"""Development tool: turns bug descriptions (tools/bugs.py) into /verif/seeded/<id>/ and confirms each one.
Usage: seed.py [id...]      (applies to /repo, runs the stable tests and the demo, undoes the change)"""
import json, os, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
ed448-goldilocks = { path = "$repo", default-features = false, features = [@FEATURES@] }
subtle = "2.2.2"
@DEPS@[workspace]
T
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUST_BACKTRACE=0 RUSTFLAGS=-Awarnings
cd "$t" || exit 1
timeout 250 cargo run -q --offline 2>&1
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def undo():
    sh("git", "-C", "/repo", "checkout", "--", ".")


def tests():
    sh("bash", "/opt/vp/test.sh", "/tmp/seedtest.json")
    d = json.load(open("/tmp/seedtest.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(d.get("passed", []))
    return [t for t in base if t not in passed]


def main():
    want = sys.argv[1:]
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip(), "repo not clean"
    for b in BUGS:
        if want and b["id"] not in want:
            continue
        d = os.path.join(V, "seeded", b["id"])
        if not want and os.path.exists(d):
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(DEMO.replace("@DEPS@", b.get("deps", "")).replace("@FEATURES@", b.get("features", '"fiat_u64_backend"')))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        clean = sh("bash", d + "/demo.sh", cwd="/repo")
        try:
            for f, old, new in b["edits"]:
                p = "/repo/" + f
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git", "-C", "/repo", "diff").stdout)
            bld = sh("bash", "/opt/vp/build.sh")
            bad = tests() if bld.returncode == 0 else ["build: " + bld.stderr[-800:]]
            broken = sh("bash", d + "/demo.sh", cwd="/repo")
        finally:
            undo()
        ok = clean.returncode == 0 and broken.returncode != 0 and not bad and "error[" not in broken.stdout
        print(b["id"], b["property"], "OK" if ok else "BAD", "clean=%d bug=%d tests=%s" % (clean.returncode, broken.returncode, bad))
        if not ok:
            print(clean.stdout[-600:], broken.stdout[-600:])
            shutil.move(d, "/tmp/badseed-" + b["id"]) if not os.path.exists("/tmp/badseed-" + b["id"]) else shutil.rmtree(d)
        else:
            print("   ", [l for l in broken.stdout.splitlines() if "panicked" in l or "assertion" in l] )


main()
