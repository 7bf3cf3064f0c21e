#!/usr/bin/env python3
"""Turns a planted-bug specification (a .py file defining SEEDS) into /verif/seeded/<id>/.

Each entry: id, property, pkg, needs, breaks, edits=[(file, old, new)...], demo (body of a Go test file).
The bug is applied in a scratch copy of /repo; it is kept only when it builds, passes the stable tests,
and its demonstration passes without and fails with the change.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
DEMO = '''#!/bin/bash
# Runs the demonstration as an in-package test of %(pkg)s, through a build overlay.
d="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOMODCACHE=/root/go/pkg/mod
o="$(mktemp -d)" || exit 2
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$o/ov.json"
timeout 200 go test -overlay "$o/ov.json" -vet=off -count=1 -timeout 150s -run '^TestZZDemo$' ./%(pkg)s
rc=$?
rm -rf "$o"
exit $rc
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def main():
    base = json.load(open("/opt/vp/BASELINE.json"))
    only = set(sys.argv[2:])
    for s in runpy.run_path(sys.argv[1])["SEEDS"]:
        if only and s["id"] not in only: continue
        out = os.path.join(V, "seeded", s["id"])
        t = tempfile.mkdtemp(prefix="seed.")
        try:
            w = os.path.join(t, "repo")
            subprocess.check_call(["git", "clone", "-q", "/repo", w])
            d = os.path.join(t, "demo"); os.mkdir(d)
            open(os.path.join(d, "demo_test.go"), "w").write(s["demo"].lstrip())
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % s); os.chmod(os.path.join(d, "demo.sh"), 0o755)
            r0 = run([os.path.join(d, "demo.sh")], w)
            if r0.returncode != 0:
                print(s["id"], "REJECTED: demo fails on the unchanged tree\n", r0.stdout[-1500:], r0.stderr[-800:]); continue
            bad = False
            for f, old, new in s["edits"]:
                p = os.path.join(w, f); x = open(p).read()
                if x.count(old) != 1:
                    print(s["id"], "REJECTED: edit matches", x.count(old), "times in", f); bad = True; break
                open(p, "w").write(x.replace(old, new))
            if bad: continue
            diff = run(["git", "diff"], w).stdout
            # tests (the module has no special settings: go test ./... in the scratch copy, compared by name)
            rt = run(["go", "test", "-json", "./..."], w, timeout=600)
            passed, failed = set(), set()
            for l in rt.stdout.splitlines():
                try: e = json.loads(l)
                except ValueError: continue
                if e.get("Test") and e["Action"] in ("pass", "fail"):
                    (passed if e["Action"] == "pass" else failed).add(e["Package"] + "::" + e["Test"])
            if failed or rt.returncode != 0:
                print(s["id"], "REJECTED: tests fail:", sorted(failed)[:5], rt.stderr[-500:], [l for l in rt.stdout.splitlines() if "build" in l][:3]); continue
            r1 = run([os.path.join(d, "demo.sh")], w)
            if r1.returncode == 0:
                print(s["id"], "REJECTED: demo passes with the change"); continue
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            for f in ("demo.sh", "demo_test.go"): shutil.copy(os.path.join(d, f), out)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            print(s["id"], "kept;", "tests passed:", len(passed), "| demo:", [l for l in r1.stdout.splitlines() if l.strip()][:3])
        finally:
            shutil.rmtree(t)
main()
