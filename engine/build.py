"""Builds /repo (through the harness crate) to LLVM IR and a native library."""
import glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
FLAGS = ("--emit=llvm-ir,link -C link-dead-code -C codegen-units=1 -C symbol-mangling-version=v0 "
         "-C overflow-checks=on -C debug-assertions=on -C debuginfo=2 -C opt-level=0 "
         "-Zshare-generics=no -Zub-checks=no")
TRIPLE = "x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def build(backend):
    """backend: 'fiat' or 'u32b'. Returns (list of .ll files, native library, seconds)."""
    t0 = time.time()
    tgt = os.path.join(ROOT, backend)
    dbg = os.path.join(tgt, TRIPLE, "debug")
    # always recompile the crate under test and the harness; keep compiled dependencies
    for n in ("ed448-goldilocks", "vharness"):
        for d in glob.glob(os.path.join(dbg, ".fingerprint", n + "-*")):
            shutil.rmtree(d)
    for n in ("ed448_goldilocks", "vharness"):
        for f in glob.glob(os.path.join(dbg, "deps", "*" + n + "*")):
            os.remove(f)
    env = dict(os.environ)
    env.update(CARGO_TARGET_DIR=tgt, RUSTC_BOOTSTRAP="1", RUSTFLAGS=FLAGS, CARGO_NET_OFFLINE="true",
               CARGO_INCREMENTAL="0")
    env.pop("RUSTUP_TOOLCHAIN", None)
    env["RUSTUP_TOOLCHAIN"] = "stable"
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--target", TRIPLE, "--features", backend],
                       cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-4000:])
    lls = []
    for n in ("ed448_goldilocks", "fiat_crypto", "subtle", "vharness", "rand_core", "zeroize"):
        for p in glob.glob(os.path.join(dbg, "deps", n + "*.ll")):
            lls.append(p)
    return lls, os.path.join(dbg, "libvharness.so"), time.time() - t0


if __name__ == "__main__":
    for b in sys.argv[1:] or ["fiat", "u32b"]:
        print(b, build(b)[2])
