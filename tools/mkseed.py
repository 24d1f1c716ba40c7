#!/usr/bin/env python3
"""mkseed.py SPEC.py...: each spec defines id, prop, needs, breaks, edits [(file, old, new)], pkg (dir of /repo) and test (Go test source).
Makes seeded/<id>/, confirming in a scratch copy that the change builds, passes the stable tests and that the demo tells both trees apart."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=mod -buildvcs=false", PATH="/opt/veriftools/go1.26.10/bin:" + os.environ["PATH"])
DEMO = r'''#!/bin/bash
# Runs demo.go as a test of package %(pkg)s of the tree in the current directory.
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:$PATH GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
timeout 250 go test -count=1 -vet=off -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(s):
    d = f"{ROOT}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    repo = tmp + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        sh(["git", "checkout", "-q", "--", "."], repo)
        open(d + "/demo.go", "w").write(s["test"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO % s)
        os.chmod(d + "/demo.sh", 0o755)
        r = sh(["bash", d + "/demo.sh"], repo)
        if r.returncode != 0: return "demo fails on unchanged tree:\n" + r.stdout
        for f, old, new in s["edits"]:
            p = f"{repo}/{f}"
            t = open(p).read()
            if t.count(old) != 1: return f"{f}: {t.count(old)} occurrences of {old!r}"
            open(p, "w").write(t.replace(old, new))
        sh(["gofmt", "-l", "."], repo)
        r = sh(["go", "build", "./..."], repo)
        if r.returncode != 0: return "build: " + r.stdout
        r = sh(["bash", d + "/demo.sh"], repo)
        if r.returncode == 0: return "demo passes with the change"
        if "build failed" in r.stdout or "setup failed" in r.stdout: return "demo does not build: " + r.stdout
        r = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd=repo, env=ENV, stdout=open(tmp + "/log", "w"), stderr=subprocess.DEVNULL)
        subprocess.check_call(["python3", "/opt/vp/results.py", tmp + "/o.json", "gojson:" + tmp + "/log"])
        miss = stable - set(json.load(open(tmp + "/o.json"))["passed"])
        if miss: return f"breaks existing tests {sorted(miss)[:5]}"
        open(d + "/patch.diff", "w").write(sh(["git", "diff"], repo).stdout)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # does it change lines that are part of the original repository
        base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
        orig = {}
        note = []
        for f, old, new in s["edits"]:
            o = subprocess.run(["git", "-C", "/repo", "show", f"{base}:{f}"], stdout=subprocess.PIPE, text=True).stdout
            ol = {x.strip() for x in o.splitlines()}
            gone = [x.strip() for x in old.splitlines() if x.strip() and x.strip() not in {y.strip() for y in new.splitlines()}]
            note += [f"{x!r} not original" for x in gone if x not in ol]
        return "ok " + "; ".join(note)
    finally:
        shutil.rmtree(tmp)
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    for s in g["seeds"]:
        r = make(s)
        print(s["id"], s["prop"], r)
        if not r.startswith("ok"): shutil.rmtree(f"{ROOT}/seeded/{s['id']}", ignore_errors=True)
