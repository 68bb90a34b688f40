#!/usr/bin/env python3
"""Write MANIFEST.json from the table below and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]

NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i in NOTE:
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All specifications are TLA+ modules in spec/, evaluated by TLC; drivers in checks/ build /repo's working tree out of tree (below .cache), run the real programs and hand recorded behaviour to TLC or replay TLC's behaviour. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
