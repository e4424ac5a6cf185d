"""Writes DESIGN.md from design_head.md, design_methods.py, checks.json, known_findings.json and seeded/: python3 tools/design.py"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
exec(open(os.path.join(T, "design_methods.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = json.load(open(os.path.join(V, "checks.json")))
known = json.load(open(os.path.join(V, "known_findings.json")))
seeds = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); m["id"] = os.path.basename(os.path.dirname(f)); seeds.setdefault(m["property"], []).append(m)
missed = json.load(open(os.path.join(T, "missed.json"))) if os.path.exists(os.path.join(T, "missed.json")) else {}
out = [open(os.path.join(T, "design_head.md")).read().rstrip(), "", "## The properties", "",
  "Every property is decided by symbolic execution; none is listed as not applicable. Within the stated input space the verdict is the solver's; "
  "when the time budget of a run ends first, the evidence file says how much of the space was left undecided.", ""]
for p in props:
    i = p["id"]; c = checks[i]
    out += [f"### {i} {p['title']}", "", M[i], ""]
    out += [f"* Code: {', '.join(r['h'] for r in c['runs'])} in harness/; bounds: {c['bounds']}."]
    out += [f"* Outside: {c['outside']}."]
    out += [f"* Cost: {c['quick_seconds']} s of exploration (8 cores) in the quick tier, {c['thorough_seconds']} s in the thorough one."]
    fx = [k for k in known if k["property"] == i and k["status"] == "fixed"]; op = [k for k in known if k["property"] == i and k["status"] != "fixed"]
    if fx: out += ["* Defects found and repaired: " + "; ".join(f"{k['what']} ({k['commit']})" for k in fx) + "."]
    for k in op: out += [f"* Known finding `{k['tag']}`: {k['what']}."]
    for m in seeds.get(i, []): out += [f"* Planted bug `{m['id']}` ({'missed' if m['id'] in missed else 'caught'}): {m['what_it_breaks']}"]
    out += [""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n" + "\n" + open(os.path.join(T, "design_tail.md")).read())
