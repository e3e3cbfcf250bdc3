#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, lib/plans.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import plans
NA = {}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in plans.PLANS:
        t, n = plans.NOTES.get(p, plans.NOTE)
        checks.append({"property": p, "quick_cmd": "./check.py " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": p, "reason": NA.get(p, "its part of the specification is not written yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the drivers are overlay packages that use the public interface."},
          open(V + "/MANIFEST.json", "w"), indent=1)
