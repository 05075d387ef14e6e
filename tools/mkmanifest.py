#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; properties without an entry are listed as not claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NOTE = {}
exec(open(V + "/tools/levels.py").read())
checks, na = [], []
for i in ids:
    if i in LEVELS:
        tech, level, note = LEVELS[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: every check uses public entry points. Known findings: known-findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
