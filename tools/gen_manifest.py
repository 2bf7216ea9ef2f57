#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {}
NOTE = {}
exec(open(os.path.join(root, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH:
        checks.append(dict(property=i, quick_cmd=f"bash ./check.sh {i} quick", thorough_cmd=f"bash ./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=TECH[i], level="model_checking", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash ./setup.sh", checks=checks, not_applicable=na,
    notes="No hooks are committed in /repo: where a check needs control over map iteration or statement interleaving it instruments a throw-away copy of the sources at check time.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
