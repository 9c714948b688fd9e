#!/usr/bin/env python3
"""writes MANIFEST.json from vf/plan.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vf import plan
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        c = plan.PLAN[i]
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s --thorough" % i, "technique": c["technique"], "level": c["level"],
                       "level_note": c.get("note", plan.NOTE)})
    else:
        na.append({"property": i, "reason": plan.NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 vf/build.py", "checks": checks, "not_applicable": na,
     "notes": "The checks build the code under test from /repo's working tree; no hooks in /repo are used."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
