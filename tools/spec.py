"""Writes checks.json and MANIFEST.json from the table below: python3 tools/spec.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "bounded symbolic execution of the real Go code (go/ssa) with an SMT solver (z3), counterexamples replayed on the compiled code"
NOTE = ("Every path of the stated input space through the real code of /repo (loaded as go/ssa on this run) is decided by the solver within the bounds in the evidence; "
        "trusted: the engine's model of Go and of the intercepted library calls, which sampled paths and all counterexamples are compared with the compiled code for; nothing is claimed outside the bounds.")
CHECKS = {}
NA = {}

def run(h, quick, thorough=None, w=1, must=(), max_blocks=0):
    r = {"h": h, "quick": quick, "thorough": thorough if thorough is not None else quick, "w": w}
    if must: r["must_reach"] = list(must)
    if max_blocks: r["max_blocks"] = max_blocks
    return r

def check(pid, runs, bounds, outside, quick=25, thorough=600, assumptions=(), note=""):
    CHECKS[pid] = {"quick_seconds": quick, "thorough_seconds": thorough, "bounds": bounds, "outside": outside,
                   "assumptions": list(assumptions), "runs": runs}
    CHECKS[pid]["_note"] = note

def na(pid, reason): NA[pid] = reason

exec(open(os.path.join(V, "tools", "spec_checks.py")).read())

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
man = {"version": 1, "setup_cmd": "./check.sh -build", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        n = CHECKS[p].pop("_note")
        man["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                              "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "model_checking",
                              "level_note": NOTE + (" " + n if n else "")})
    elif p in NA:
        man["not_applicable"].append({"property": p, "reason": NA[p]})
    else:
        man["not_applicable"].append({"property": p, "reason": "no check has been built for it yet"})
assert all(p in props for p in list(CHECKS) + list(NA))
json.dump(CHECKS, open(os.path.join(V, "checks.json"), "w"), indent=1)
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for f in ("checks.json", "MANIFEST.json"): open(os.path.join(V, f), "a").write("\n")
print(len(CHECKS), "checks", [p for p in props if p not in CHECKS])
