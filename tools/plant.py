#!/usr/bin/env python3
"""plant.py SPEC.py: makes /verif/seeded/<id> from edits, after confirming in a
scratch copy of /repo that the change builds, passes the tests and that the demo
passes without and fails with it. SPEC.py defines BUGS: a list of dicts
(id, property, needs, what, edits [(file, old, new)], pkg, test, race)."""
import json, os, shutil, subprocess, sys
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local",
           GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
DEMO = '''#!/bin/bash
# Run in the repository: exit 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$here" >"$tmp/overlay.json"
TMPDIR=$tmp go test -vet=off -count=1 -timeout 120s %(race)s-overlay "$tmp/overlay.json" -run '^TestDemo' ./%(pkg)s
'''
def sh(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr
def one(b):
    w = "/tmp/plant.work"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w + "/repo", symlinks=True)
    d = w + "/" + b["id"]; os.makedirs(d)
    pkg = b.get("pkg", ".")
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, race="-race " if b.get("race") else ""))
    open(d + "/demo_test.go.txt", "w").write(b["test"])
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), open(d + "/meta.json", "w"), indent=1)
    rc, out = sh(["bash", d + "/demo.sh"], w + "/repo")
    if rc != 0: return "demo fails on the unchanged tree:\n" + out
    for f, old, new in b["edits"]:
        p = w + "/repo/" + f; s = open(p).read()
        if s.count(old) < 1: return "no match in %s: %r" % (f, old)
        if s.count(old) > 1: return "ambiguous in %s: %r" % (f, old)
        open(p, "w").write(s.replace(old, new))
    for f in {e[0] for e in b["edits"]}:
        rc, out = sh(["gofmt", "-l", f], w + "/repo")
        if out.strip(): sh(["gofmt", "-w", f], w + "/repo")
    rc, out = sh(["go", "build", "./..."], w + "/repo")
    if rc: return "does not build:\n" + out
    rc, out = sh(["go", "vet", "./", "./renderer", "./renderer/gg", "./renderer/draw2d", "./renderer/rasterx"], w + "/repo")
    if rc: print("  vet:", out)
    rc, out = sh(["go", "test", "-count=1", "-vet=off", "./..."], w + "/repo")
    if rc: return "tests fail:\n" + out
    rc, out = sh(["bash", d + "/demo.sh"], w + "/repo")
    if rc == 0: return "demo passes with the change"
    print("  demo:", [l for l in out.splitlines() if l.strip()][:4])
    rc, diff = sh(["git", "diff"], w + "/repo")
    open(d + "/patch.diff", "w").write(diff)
    t = "/verif/seeded/" + b["id"]
    shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    return None
ns = {}; exec(open(sys.argv[1]).read(), ns)
bad = 0
for b in ns["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
    print(b["id"]); e = one(b)
    if e: bad += 1; print("  REJECTED", e)
shutil.rmtree("/tmp/plant.work", ignore_errors=True)
sys.exit(bad)
