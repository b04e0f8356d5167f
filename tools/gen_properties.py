#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as Python for readability).  Run: python3 tools/gen_properties.py
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe, "hook_needed": hook}})
exec(open(os.path.join(os.path.dirname(__file__), "properties_src.py")).read())
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
for p in P: assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
