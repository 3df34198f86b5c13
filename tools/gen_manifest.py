#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist in checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t, note = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --thorough" % i,
                       "technique": "TLA+ specification checked with TLC; " + t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "All checks are driven by check.py; specifications in spec/, harness (public API of go3mf only) in harness/. No hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
