"""Writes known_findings.json: python3 tools/known.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = []
def fixed(prop, commit, what): L.append({"property": prop, "tag": "", "status": "fixed", "commit": commit, "what": what, "line": f"fixed: property={prop} {commit} {what}"})
def open_(prop, tag, what): L.append({"property": prop, "tag": tag, "status": "open", "what": what})
exec(open(os.path.join(V, "tools", "known_list.py")).read())
json.dump(L, open(os.path.join(V, "known_findings.json"), "w"), indent=1); open(os.path.join(V, "known_findings.json"), "a").write("\n")
