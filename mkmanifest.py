#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "sim"))
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i,
                       "quick_cmd": "python3 run.py check %s quick" % i,
                       "thorough_cmd": "python3 run.py check %s thorough" % i,
                       "technique": "deterministic simulation with fault injection: " + c["technique"],
                       "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
m = {"version": 1, "setup_cmd": "python3 run.py build", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks were needed in /repo; every seam is outside it (see DESIGN.md)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
