#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks are those with checks/pNN.py."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
exec(open(os.path.join(root, "tools", "manifest_data.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": NOTES}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
