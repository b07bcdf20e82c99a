#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of finished checks."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
exec(open(os.path.join(root, "tools", "checks.py")).read())
checks = []
for i in ids:
    if i in CHECKS:
        t, lvl, note = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "bash run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": lvl, "level_note": note})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in CHECKS],
     "notes": "No hooks in /repo: every monitor sits at the API, process, file-system, database-driver, cache or transport boundary of the real code or of the code it generates."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
