"""Development tool: runs checks on edited copies of /repo, several at a time.
usage: lab.py [-jN] [-all] [rNN|bNN prefixes...] [Cxx...]
Items: behaviour-preserving edits of tools/refac.py (r..) and planted bugs of seeded/ (b..).
-all: run every check of the manifest on each item, not only those listed with it."""
import json, os, shutil, subprocess, sys, time
from multiprocessing.pool import ThreadPool
from queue import Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import refac
TMP = "/tmp/lab.%d" % os.getpid()


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def worker(i):
    w = "%s/%d" % (TMP, i)
    os.makedirs(w + "/v")
    sh("git", "clone", "-q", "/repo", w + "/r")
    for d in ("engine", "props", "harness"):
        shutil.copytree(V + "/" + d, w + "/v/" + d)
    shutil.copy(V + "/known-findings.txt", w + "/v")
    p = w + "/v/harness/Cargo.toml"
    s = open(p).read().replace('"/repo"', '"%s/r"' % w)
    open(p, "w").write(s)
    return w


def main():
    a = sys.argv[1:]
    j = next((int(x[2:]) for x in a if x.startswith("-j")), 3)
    only = [x for x in a if x[0] == "C"]
    want = [x for x in a if x[0] in "rbt"]
    have = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    items = [(id, props, edits, None) for id, props, edits in refac.R]
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(V + "/seeded/%s/meta.json" % d))
        items.append((d, [m["property"]], None, V + "/seeded/%s/patch.diff" % d))
    if os.environ.get("LABX"):  # more edits, in the format of refac.R
        x = {}
        exec(open(os.environ["LABX"]).read(), x)
        items += [(id, props, edits, None) for id, props, edits in x["T"]]
    items = [x for x in items if (any(x[0].startswith(w) for w in want) if want else x[0][0] == "r")]
    q = Queue()
    for i in range(j):
        q.put(worker(i))
    os.makedirs("/tmp/labout", exist_ok=True)

    def one(it):
        id, props, edits, patch = it
        w = q.get()
        try:
            sh("git", "-C", w + "/r", "checkout", "--", ".")
            if patch:
                r = sh("git", "-C", w + "/r", "apply", patch)
                if r.returncode:
                    print(id, "does not apply", flush=True)
                    return
            for f, old, new in edits or []:
                p = w + "/r/" + f
                s = open(p).read()
                if s.count(old) != 1:
                    print(id, "edit does not apply", f, s.count(old), flush=True)
                    return
                open(p, "w").write(s.replace(old, new))
            r = sh("cargo", "test", "--offline", "--lib", cwd=w + "/r", env=dict(os.environ, CARGO_TARGET_DIR=w + "/t"))
            if r.returncode:
                print(id, "TESTS FAIL", [l for l in (r.stdout + r.stderr).splitlines() if "FAILED" in l or "error" in l][:4], flush=True)
            for p in (have if "-all" in a else props):
                if p not in have and not only or only and p not in only:
                    continue
                t = time.time()
                r = sh("timeout", "900", "python3-vt", w + "/v/engine/runner.py", p)
                o = r.stdout + r.stderr
                print(id, p, "rc=%d" % r.returncode, "%ds" % (time.time() - t), "" if r.returncode == 0 and "educed" not in o else [l[:300] for l in o.splitlines() if "VIOLATION" in l or "ndecided" in l or "educed" in l][:4], flush=True)
                open("/tmp/labout/%s.%s" % (id, p), "w").write(o)
        finally:
            q.put(w)
    try:
        with ThreadPool(j) as tp:
            tp.map(one, items, chunksize=1)
    finally:
        shutil.rmtree(TMP)


main()
