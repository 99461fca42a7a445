#!/usr/bin/env python3
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks"], stdout=subprocess.PIPE, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "cfg sr_verif", "enable": "RUSTFLAGS='--cfg sr_verif' (set by check.py when it builds /verif/harness)",
              "source_commits": hooks},
    "checks": [], "not_applicable": [],
    "notes": "All checks: python3 check.py <id>; the tier comes from VERIF_TIER (default quick), the seed from VERIF_SEED.",
}
for p in props:
    i = p["id"]
    if i in checks.TABLE:
        fn, level, rule, assume = checks.TABLE[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": checks.TECH.get(i, "TLA+ specification, TLC trace validation of recorded executions"),
            "level": level, "level_note": checks.NOTE.get(i, checks.DEFAULT_NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
