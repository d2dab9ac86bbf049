#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook or None}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

exec(open(os.path.join(os.path.dirname(__file__), "props_data.py")).read())
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
