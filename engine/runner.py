"""Runs the check of one property: build, obligations in parallel, evidence, verdict."""
import importlib, json, multiprocessing as mp, multiprocessing.pool, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "props"))
import build, llir, obl

CTX = None
OBS = None


def work(i):
    try:
        try:
            return i, OBS[i].run(CTX)
        finally:
            with CTX.left.get_lock():
                CTX.left.value -= 1
    except Exception as e:
        return i, {"name": OBS[i].name, "backend": OBS[i].backend, "status": "undecided", "bounds": "", "functions": [],
                   "steps": 0, "claims": 0, "paths": 0, "validated": 0, "solver": {}, "wall": 0.0,
                   "notes": ["%s: %s" % (type(e).__name__, e), traceback.format_exc()[-1500:]]}


def known(prop):
    """Known findings: lines 'finding: property=<id> obligation=<name> key=<text>'."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:") and ("property=%s " % prop) in l:
                out.append(l.strip())
    return out


def main(argv):
    global CTX, OBS
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    reg = importlib.import_module("registry")
    CTX = obl.Ctx(prop, tier, seed)
    OBS, info = reg.obligations(prop, tier)
    if os.environ.get("VERIF_ONLY"):
        OBS = [o for o in OBS if os.environ["VERIF_ONLY"] in o.name]
    backends = sorted({o.backend for o in OBS})
    bt = {}
    jobs = []
    try:
        with mp.pool.ThreadPool(2) as tp:
            for b, (lls, lib, dt) in zip(backends, tp.map(build.build, backends)):
                CTX.progs[b] = llir.Program(lls)
                CTX.libs[b] = lib
                bt[b] = round(dt, 2)
    except build.BuildError as e:
        print("build failed:\n%s" % e)
        return 2
    res = [None] * len(OBS)
    order = sorted(range(len(OBS)), key=lambda i: -getattr(OBS[i], "weight", 1))
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    n = int(os.environ.get("VERIF_JOBS", "8"))
    CTX.deadline = deadline
    CTX.left = mp.get_context("fork").Value("i", len(OBS))
    if n == 1:
        for i in order:
            res[i] = work(i)[1]
    else:
        with mp.get_context("fork").Pool(n, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(work, order, chunksize=1)
            done = 0
            while done < len(order):
                try:
                    i, r = it.next(timeout=max(1, deadline - time.time()))
                except mp.TimeoutError:
                    break
                res[i] = r
                done += 1
                if r["status"] == "violation" and os.environ.get("VERIF_ALL") is None:
                    break
            pool.terminate()
    return report(prop, tier, seed, t0, bt, res, info)


def report(prop, tier, seed, t0, bt, res, info):
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    viol, und, reduced = [], [], []
    skipped = 0
    assumed = []
    for o, r in zip(OBS, res):
        if r is None:
            if not getattr(o, "dep", False):
                skipped += 1
            continue
        if getattr(o, "dep", False) and r["status"] == "undecided":
            assumed.append(r)
            continue
        if r["status"] == "violation":
            viol.append(r)
        elif r["status"] == "undecided":
            und.append(r)
        elif r["status"] == "holds-reduced":
            reduced.append(r)
    done = [r for r in res if r is not None]
    tot = lambda k: sum(r.get("solver", {}).get(k, 0) for r in done)
    cov = {
        "explanation": "Symbolic execution of the LLVM IR compiled from /repo on this run; every claim below was decided by an SMT solver over all values within the stated bounds.",
        "obligations": len(done),
        "discharged": sum(r["status"] in ("holds", "holds-reduced") for r in done),
        "claims": sum(r["claims"] for r in done),
        "paths": sum(r["paths"] for r in done),
        "ir_instructions_executed_symbolically": sum(r["steps"] for r in done),
        "solver_queries": tot("queries"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"),
        "solver_seconds": round(tot("time"), 3),
        "native_traces_validated": sum(r["validated"] for r in done),
        "functions_encoded": sorted({f for r in done for f in r["functions"]}),
        "reduced_bounds": [{"obligation": r["name"], "backend": r["backend"], "operands_fixed": r.get("reduced"), "notes": r["notes"][:5]} for r in reduced],
        "assumed_without_decision": [{"obligation": r["name"], "backend": r["backend"], "notes": r["notes"][:3]} for r in assumed],
        "contracts_used": sorted({c for r in done for c in r.get("contracts", [])}),
        "build_seconds": bt,
        "samples": [{"obligation": r["name"], "backend": r["backend"], "status": r["status"], "bounds": r["bounds"],
                     "claims": r["claims"], "paths": r["paths"], "steps": r["steps"], "queries": r["solver"].get("queries", 0),
                     "solver_s": round(r["solver"].get("time", 0), 3), "wall_s": round(r["wall"], 2),
                     "validated": r["validated"], "notes": r["notes"][:6]} for r in done],
    }
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": info.get("level", "other"), "coverage": cov,
               "assumptions": info.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)},
              open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    for r in done:
        print("%-46s %-5s %-13s claims=%d paths=%d queries=%d solver=%.1fs wall=%.1fs validated=%d" % (
            r["name"], r["backend"], r["status"], r["claims"], r["paths"], r["solver"].get("queries", 0), r["solver"].get("time", 0), r["wall"], r["validated"]))
        if r["status"] != "holds":
            for x in r["notes"][:8]:
                print("    note:", x[:1500])
    kf = known(prop)
    rc = 0
    fresh = []
    for r in viol:
        hit = None
        for l in kf:
            if "obligation=%s " % r["name"] in l + " " and l.split("key=", 1)[-1] in json.dumps(r["cex"]):
                hit = l
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit.split("property=%s " % prop, 1)[1]))
        else:
            fresh.append(r)
    for k, r in enumerate(fresh):
        d = os.path.join(ev, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (prop, k))
        json.dump({"property": prop, "obligation": r["name"], "backend": r["backend"], **r["cex"]}, open(path, "w"), indent=1)
        print("    %s [%s]: %s" % (r["name"], r["backend"], r["cex"]["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    if not rc and (und or skipped):
        print("UNDECIDED: %d obligations undecided, %d not finished" % (len(und), skipped))
        rc = 2
    print("%s: %d obligations, %.1fs" % (prop, len(done), time.time() - t0))
    return rc


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
