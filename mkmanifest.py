#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below."""
import json, os, re
root = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(root, "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIMS:
        tech, note = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
                       "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": NOT.get(p, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: the analyser in checker/ loads /repo's current source with go/packages, builds SSA and applies the rules of each property to it. known_findings.txt lists recorded deviations and repaired defects."}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
