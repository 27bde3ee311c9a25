#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and tools/levels.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from levels import LEVEL, NOTE, TECH, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in NOT_APPLICABLE:
        continue
    lv = LEVEL.get(i, "exploration")
    checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, TECH[lv]), "level": lv,
                   "level_note": NOTE.get(i, NOTE[lv])})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
     "notes": "Contracts live in /verif/contracts and pyvc; obligations are regenerated from /repo's source on every run. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", sum(c["level"] == "proof" for c in checks), "proof")
