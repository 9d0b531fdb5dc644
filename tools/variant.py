#!/usr/bin/env python3
"""variant.py SPEC.py [ID...] -- PROP...: runs quick checks against variants of
the tree that keep the behaviour (SPEC.py: VARIANTS, a list of dicts: id, edits
[(file, old, new)], files {path: text}); prints what is not exit 0."""
import os, shutil, subprocess, sys
args = sys.argv[2:]; props = []
if "--" in args: k = args.index("--"); args, props = args[:k], args[k+1:]
props = props or ["C%02d" % i for i in range(1, 14)]
ns = {}; exec(open(sys.argv[1]).read(), ns)
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local",
           GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
for v in ns["VARIANTS"]:
    if args and v["id"] not in args: continue
    w = "/tmp/variant.work"; shutil.rmtree(w, ignore_errors=True); shutil.copytree("/repo", w + "/repo", symlinks=True)
    bad = None
    for f, old, new in v.get("edits", []):
        s = open(w + "/repo/" + f).read()
        if s.count(old) != 1: bad = "%d matches in %s: %r" % (s.count(old), f, old); break
        open(w + "/repo/" + f, "w").write(s.replace(old, new))
    for f, t in v.get("files", {}).items():
        os.makedirs(os.path.dirname(w + "/repo/" + f), exist_ok=True); open(w + "/repo/" + f, "w").write(t)
    if not bad:
        p = subprocess.run(["go", "test", "-count=1", "-vet=off", "./..."], cwd=w + "/repo", env=ENV, capture_output=True, text=True)
        if p.returncode: bad = p.stdout + p.stderr
    if bad: print(v["id"], "INVALID", bad); continue
    for q in v.get("props", props) if not props[12:] else props:
        p = subprocess.run(["/verif/check.sh", q, "quick"], env=dict(os.environ, SIM_REPO=w + "/repo", SIM_OUT=w), capture_output=True, text=True)
        print(v["id"], q, "exit", p.returncode, "" if p.returncode == 0 else "\n" + p.stdout[-2500:] + p.stderr[-1500:], flush=True)
    shutil.rmtree(w, ignore_errors=True)
