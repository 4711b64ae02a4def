#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (checks that exist) and properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, "tools", "levels.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, "checks", i + ".py")) and i in LEVELS:
        level, technique, note = LEVELS[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": technique, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Deductive verification: contracts over the graphs and functions the repository's current source produces; see DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
