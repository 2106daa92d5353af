#!/usr/bin/env python3
"""Writes ../MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLANS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": plan.TECHNIQUE.get(i, plan.TECHNIQUE["*"]), "level": "model_checking",
                       "level_note": plan.NOTE.get(i, plan.NOTE["*"]), "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": plan.NOT_APPLICABLE[i]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the driver in harness/ only uses the exported interface. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
