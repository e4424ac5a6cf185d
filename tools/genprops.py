#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one record per call); run: python3 tools/genprops.py"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
              "observe_at": observe, "hook_needed": None})

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
