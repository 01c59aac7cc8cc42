#!/usr/bin/env python3
"""tools/seed.py new < spec   (spec is python: id, property, needs, breaks, edits=[(file, old, new)], demo=go main body file text)
   tools/seed.py test ID...    re-verify: build, tests, demo, check
Development helper; no check uses it."""
import sys, os, subprocess, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = '''#!/bin/bash
# exit 0 when the property holds on this input, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" GO111MODULE=on GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$d" > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./zzdemo || exit 3
timeout 120 "$t/demo"
'''
def run(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    run("git -C %s checkout -- ." % R)
def test(i, skip_tests=False):
    d = "%s/seeded/%s" % (V, i)
    m = json.load(open(d + "/meta.json"))
    if run("git -C /repo status --porcelain").stdout.strip():
        sys.exit("repo not clean")
    r = run("bash %s/demo.sh" % d, cwd=R)
    if r.returncode != 0:
        print(i, "DEMO FAILS ON CLEAN TREE", r.stdout[-2000:]); return False
    r = run("git -C /repo apply %s/patch.diff" % d)
    if r.returncode != 0:
        print(i, "DOES NOT APPLY", r.stdout); return False
    try:
        r = run("bash /opt/vp/build.sh")
        if r.returncode != 0:
            print(i, "BUILD FAILS", r.stdout[-1500:]); return False
        r = run("bash %s/demo.sh" % d, cwd=R)
        if r.returncode in (0, 3):
            print(i, "DEMO DOES NOT FAIL", r.returncode, r.stdout[-1500:]); return False
        print(i, "demo:", r.stdout.strip()[-200:])
        if not skip_tests:
            out = "/tmp/seed-test.json"
            run("bash /opt/vp/test.sh " + out)
            base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open(out))
            st = base.get("stable") or base.get("passed") or base
            ok = set(res.get("passed") or [])
            bad = [x for x in st if x not in ok]
            if bad:
                print(i, "TESTS FAIL", bad[:10]); return False
        r = run("python3 check.py " + m["property"], cwd=V)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, "CAUGHT" if r.returncode == 1 else "MISSED", r.stdout.strip()[-1200:] if not v else v)
        rp = V + "/replay/" + m["property"] + ".json"
        if v and os.path.exists(rp):
            j = json.load(open(rp))
            print("   ", str(j)[:500])
    finally:
        clean()
    return True
if sys.argv[1] == "new":
    g = {}
    exec(sys.stdin.read(), g)
    i = g["id"]; d = "%s/seeded/%s" % (V, i)
    os.makedirs(d, exist_ok=True)
    if run("git -C /repo status --porcelain").stdout.strip():
        sys.exit("repo not clean")
    try:
        for f, o, n in g["edits"]:
            s = open(R + "/" + f).read()
            if s.count(o) != 1:
                sys.exit("edit matches %d times: %r" % (s.count(o), o))
            open(R + "/" + f, "w").write(s.replace(o, n))
        df = run("git -C /repo diff").stdout
    finally:
        clean()
    open(d + "/patch.diff", "w").write(df)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.go", "w").write(g["demo"].lstrip("\n"))
    json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    test(i)
else:
    for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
        test(i, False)
