#!/usr/bin/env python3
"""Development aid: apply small edits to scratch copies of /repo and see which checks speak.
   mut.py SPEC.py [substring]   SPEC defines MUT=[(props, file, old, new)] (must be caught by one of props)
   and REF=[(props, file, old, new)] (all props must stay quiet). file/old/new may be lists of equal length."""
import sys, os, subprocess, tempfile, shutil, concurrent.futures as cf
spec = {}
exec(open(sys.argv[1]).read(), spec)
sub = sys.argv[2] if len(sys.argv) > 2 else ""
AN = os.environ.get("AN", "/tmp/v/an")
W = int(os.environ.get("W", "4"))
jobs = [("MUT",) + m for m in spec.get("MUT", [])] + [("REF",) + m for m in spec.get("REF", [])]
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
def run(job):
    i, (kind, props, file, old, new) = job
    files, olds, news = ([file], [old], [new]) if isinstance(file, str) else (file, old, new)
    label = f"{kind} {props} {files[0]}: {olds[0].strip()[:60]!r} -> {news[0].strip()[:60]!r}"
    if sub and sub not in label:
        return None
    d = tempfile.mkdtemp(prefix="mut")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        for f, o, n in zip(files, olds, news):
            p = f"{d}/repo/{f}"
            s = open(p).read()
            if s.count(o) < 1:
                return f"??   NOT FOUND {label}"
            s = s.replace(o, n, 1)
            open(p, "w").write(s)
        b = subprocess.run(["go", "build", "./..."], cwd=d + "/repo", capture_output=True, text=True, env=dict(os.environ))
        if b.returncode:
            return f"??   BUILD {label}\n{b.stderr[:400]}"
        os.makedirs(d + "/v/evidence")
        shutil.copy("/verif/known_findings.txt", d + "/v/")
        r = subprocess.run([AN, "-prop", props, "-verif", d + "/v", "-repo", d + "/repo"], capture_output=True, text=True, env=dict(os.environ))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        first = next((l for l in r.stdout.splitlines() if l.startswith("[")), "")
        good = bool(v) == (kind == "MUT")
        return f"{'ok  ' if good else 'BAD '} {label}\n        {first[:230] if (v or not good) else ''}" + ("" if r.stdout else r.stderr[:300])
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(W) as ex:
    for out in ex.map(run, enumerate(jobs)):
        if out:
            print(out, flush=True)
