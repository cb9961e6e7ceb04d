#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
checks = []
for p in props:
    if not os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
        continue
    tech, note = NOTES[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"],
                   "thorough_cmd": "./check %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks,
     "notes": "Quint specification in spec/; drivers in harness/; no hooks in /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
