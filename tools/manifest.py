"""Development tool: writes MANIFEST.json from the properties and the claims in props/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/props"]
import registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = "symbolic execution of the compiled LLVM IR + SMT (z3)"
checks, na = [], []
for p in props:
    i = p["id"]
    if hasattr(registry, i):
        checks.append({"property": i, "quick_cmd": "python3-vt engine/runner.py %s quick" % i,
                       "thorough_cmd": "python3-vt engine/runner.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "other",
                       "level_note": registry.NOTES.get(i, registry.NOTE)})
    else:
        na.append({"property": i, "reason": registry.NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt engine/build.py", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo unchanged through /verif/harness", "source_commits": []}},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
