#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the reasons for the properties that are not claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "lib/claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIMS:
        t, level, note = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "python3 checks/run.py " + p, "thorough_cmd": "python3 checks/run.py " + p,
                       "technique": t, "level": level, "level_note": note})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE[p]})
json.dump({"version": 1, "setup_cmd": SETUP, "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
