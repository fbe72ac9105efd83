#!/usr/bin/env python3
"""plant.py SPEC.py: create /verif/seeded/<id>/ from a spec and confirm it in a scratch copy of /repo.
A spec file defines BUGS: a list of dicts id, property, needs, breaks, pkg, edits=[(file, old, new)], test (Go test body file text)."""
import json, os, shutil, subprocess, sys, tempfile
SEED = "/verif/seeded"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
DEMO = '''#!/bin/bash
# cwd: the repository, after a build. Runs demo_test.txt as an in-package test of %(pkg)s through an overlay.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp="$(mktemp -d)"
printf '{"Replace": {"%%s/%(pkg)s/zz_seeded_demo_test.go": "%%s/demo_test.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestSeededDemo$' ./%(pkg)s
rc=$?
rm -f "$tmp/overlay.json"; rmdir "$tmp"
exit $rc
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
base = json.load(open("/opt/vp/BASELINE.json"))
def run(cmd, cwd, t=600): return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    tmp = tempfile.mkdtemp(prefix="plant")
    repo = tmp + "/repo"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        orig = subprocess.run(["git", "-C", repo, "diff", "ed2ea1f", "HEAD"], capture_output=True, text=True).stdout
        for f, old, new in b["edits"]:
            s = open(f"{repo}/{f}").read()
            if s.count(old) != 1: raise SystemExit(f"{b['id']}: {f}: {s.count(old)} matches of {old!r}")
            open(f"{repo}/{f}", "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
        d = f"{SEED}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo_test.txt", "w").write(b["test"])
        open(d + "/demo.sh", "w").write(DEMO % {"pkg": b["pkg"]})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok = True
        r = run(["go", "build", "./..."], repo)
        if r.returncode: ok = False; print(b["id"], "BUILD FAILS", r.stderr[-800:])
        r = run([d + "/demo.sh"], repo)
        if r.returncode == 0: ok = False; print(b["id"], "demo passes with the bug")
        elif "FAIL" not in r.stdout or "build failed" in r.stdout: ok = False; print(b["id"], "demo broken:", r.stdout[-800:], r.stderr[-800:])
        r = run(["go", "test", "-vet=off", "-count=1", "./..."], repo)
        bad = [l for l in r.stdout.splitlines() if l.startswith("--- FAIL") or l.startswith("FAIL")]
        if bad: ok = False; print(b["id"], "TESTS FAIL:", bad[:6])
        r = run([d + "/demo.sh"], "/repo")
        if r.returncode: ok = False; print(b["id"], "demo fails on the unchanged tree:", r.stdout[-800:], r.stderr[-800:])
        an = "/verif/run.sh"
        e = dict(ENV, VERIF_REPO=repo)
        r = subprocess.run([an, b["property"]], cwd="/verif", env=e, capture_output=True, text=True, timeout=900)
        print(b["id"], "ok" if ok else "REJECTED", "check", b["property"], "exit", r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l][:1])
        if not ok: shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp)
