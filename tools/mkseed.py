#!/usr/bin/env python3
"""mkseed.py FILE.py: builds /verif/seeded/<id>/ from definitions (SEEDS list) using a scratch copy of /repo,
and confirms: applies, builds, stable tests pass, demo passes clean and fails with the change."""
import sys, os, json, subprocess, shutil, tempfile
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=vendor", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off")
DEMO = r'''#!/bin/bash
# run in the repository: exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off HOME=${HOME:-/root}
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
echo "{\"Replace\": {\"$PWD/@PKG@/zz_demo_test.go\": \"$d/demo_test.go.txt\"}}" > "$w/overlay.json"
go test -vet=off -overlay "$w/overlay.json" @FLAGS@ -count=1 -timeout 120s -run 'TestDemo$' ./@PKG@
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    w = tempfile.mkdtemp(prefix="seed")
    r = w + "/repo"
    run(["git", "clone", "-q", "/repo", r], "/")
    try:
        d = "/verif/seeded/" + s["id"]
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        bad = None
        for f, a, b in s["edits"]:
            t = open(f"{r}/{f}").read()
            n = t.count(a)
            if n != 1: bad = f"{f}: {n} matches of {a!r}"; break
            open(f"{r}/{f}", "w").write(t.replace(a, b))
        if bad: print(s["id"], "EDIT", bad); continue
        diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, text=True).stdout
        # original lines?
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO.replace("@PKG@", s["pkg"]).replace("@FLAGS@", s.get("flags", "")))
        open(d + "/demo_test.go.txt", "w").write(s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b = run(["go", "build", "./..."], r)
        if b.returncode: print(s["id"], "BUILD", b.stdout[-800:]); continue
        p = run(["go", "test", "-vet=off", "-count=1", "./..."], r)
        tests = "ok" if p.returncode == 0 else "TESTS FAIL " + p.stdout[-600:]
        p = run(["bash", d + "/demo.sh"], r)
        withbug = p
        run(["git", "checkout", "--", "."], r)
        q = run(["bash", d + "/demo.sh"], r)
        ok = tests == "ok" and withbug.returncode != 0 and q.returncode == 0
        print(s["id"], "OK" if ok else "NOT OK", "tests:", tests, "demo with:", withbug.returncode, "without:", q.returncode)
        tail = [l for l in withbug.stdout.splitlines() if "demo_test" in l or "RACE" in l or "panic" in l][:2]
        print("   ", tail)
        if q.returncode: print(q.stdout[-1500:])
    finally:
        shutil.rmtree(w)
