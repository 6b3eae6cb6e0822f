#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
TECH = {}
def t(i, tech, note): TECH[i] = tech; NOTE[i] = note
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "chk_%s.py" % i.lower())) and i in TECH:
        checks.append({"property": i,
                       "quick_cmd": "python3 harness/check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 harness/check.py %s" % i,
                       "technique": TECH[i], "level": "model_checking", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks,
     "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
