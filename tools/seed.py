"""Development helper: plants a bug in a scratch copy of /repo, confirms it, and keeps it under seeded/.

A spec file defines ID, PROP, NEEDS, BREAKS, PKG, EDITS=[(file, old, new)...], DEMO (Go test file with TestZZDemo).
Usage: python3 tools/seed.py SPEC.py..."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
DEMO_SH = '''#!/bin/bash
# Runs the demonstration against the repository in the current directory.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -r "$T"' EXIT
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$R" "$D" > "$T/o.json"
go test -count=1 -overlay "$T/o.json" -run '^TestZZDemo' ./%s
'''
def sh(cmd, cwd): return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def stable_failures(w):
    """Runs the repository's tests in the scratch copy."""
    top = os.path.dirname(w)
    for f in ("env.sh", "test.sh", "build.sh"):
        t = open("/opt/vp/" + f).read().replace("/opt/vp/work", top + "/work").replace("/repo", w).replace("/opt/vp/env.sh", top + "/env.sh")
        open(top + "/" + f, "w").write(t)
    r = sh("bash %s/build.sh && bash %s/test.sh %s/o.json" % (top, top, top), top)
    try: t = json.load(open(top + "/o.json"))
    except OSError: return [r.stdout[-300:] + r.stderr[-300:]], 0
    return sorted(set(base) - set(t["passed"])), len(t["passed"])
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/r"], check=True)
        subprocess.run(["git", "-C", w + "/r", "checkout", "-q", "--", "."], check=True)
        r = w + "/r"
        d = os.path.join(V, "seeded", g["ID"]); os.makedirs(d, exist_ok=True)
        open(d + "/demo_test.go", "w").write(g["DEMO"])
        open(d + "/demo.sh", "w").write(DEMO_SH % (g["PKG"], g["PKG"])); os.chmod(d + "/demo.sh", 0o755)
        a = sh(d + "/demo.sh", r)
        for f, old, new in g["EDITS"]:
            s = open(f"{r}/{f}").read()
            assert s.count(old) == 1, (spec, f, s.count(old), old)
            open(f"{r}/{f}", "w").write(s.replace(old, new))
        bld = sh("gofmt -l %s; go build ./... && go vet ./%s" % (" ".join({e[0] for e in g["EDITS"]}), g["PKG"]), r)
        fails, n = stable_failures(r)
        b = sh(d + "/demo.sh", r)
        ok = a.returncode == 0 and b.returncode != 0 and bld.returncode == 0 and not fails
        print(g["ID"], "OK" if ok else "BAD", "demo before", a.returncode, "after", b.returncode, "build", bld.returncode, "failing tests", fails[:5], "of", n)
        if not ok:
            print((a.stdout + a.stderr)[-1500:] if a.returncode else "", (b.stdout + b.stderr)[-600:], (bld.stdout + bld.stderr)[-600:])
            shutil.rmtree(d); continue
        diff = sh("git diff", r).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(w)
