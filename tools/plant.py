#!/usr/bin/env python3
"""plant.py FILE: build seeded bugs from a definition file (dev tool).
FILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], test=Go test file, needs, breaks, race=False)]."""
import sys, os, subprocess, shutil, json, runpy, re
env = dict(os.environ, PATH="/opt/veriftools/go1.26.10/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", HOME="/root")
W = "/tmp/plant.work"
base = json.load(open("/opt/vp/BASELINE.json"))
DEMO = '''#!/bin/bash
# run in the repository
D=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\":{\\"$PWD/zz_demo_test.go\\":\\"$D/demo_test.go.txt\\"}}" >"$T/o.json"
timeout 280 go test %s-overlay "$T/o.json" -vet=off -count=1 -timeout 240s -run '^TestDemo$' .
'''
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, **kw)
def tests(cwd):
    res = {}
    for d in (cwd, cwd + "/tests"):
        o = run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "./..."], d)
        for l in o.stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get("Test") and e["Action"] in ("pass", "fail"):
                res[(e["Package"], e["Test"])] = e["Action"]
    return res
shutil.rmtree(W, ignore_errors=True)
shutil.copytree("/repo", W, symlinks=True)
clean = tests(W)
print("clean tests", len(clean), sum(v == "pass" for v in clean.values()))
defs = runpy.run_path(sys.argv[1])["BUGS"]
only = set(sys.argv[2:])
for b in defs:
    if only and b["id"] not in only: continue
    out = "/verif/seeded/" + b["id"]
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W)
    ok = True
    for f, old, new in b["edits"]:
        p = W + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT MATCHES", s.count(old), f); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    r = run(["gofmt", "-l", "."], W)
    diff = run(["git", "diff", "HEAD"], W).stdout
    r = run(["go", "build", "./..."], W)
    if r.returncode: print(b["id"], "BUILD", r.stderr[:300]); continue
    t = tests(W)
    bad = [k for k, v in clean.items() if v == "pass" and t.get(k) != "pass"]
    if bad: print(b["id"], "TESTS FAIL", len(bad), bad[:4]); continue
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo_test.go.txt", "w").write(b["test"].lstrip())
    open(out + "/demo.sh", "w").write(DEMO % ("-race " if b.get("race") else ""))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    r1 = run(["bash", out + "/demo.sh"], W)
    r0 = run(["bash", out + "/demo.sh"], "/repo")
    st = "ok" if r1.returncode != 0 and r0.returncode == 0 else "BAD DEMO"
    print(b["id"], st, "patched rc", r1.returncode, "clean rc", r0.returncode, (r1.stdout + r1.stderr)[-300:].replace("\n", " | ") if st != "ok" or os.environ.get("V") else "")
    if st != "ok":
        print((r0.stdout + r0.stderr)[-800:])
        shutil.rmtree(out)
shutil.rmtree(W, ignore_errors=True)
