"""Helper to plant a bug: writes /verif/seeded/<id>/ and confirms it in a scratch clone of /repo.

    from seed import seed
    seed(id, prop, pkg, edits=[(file, old, new), ...], test=..., needs=..., breaks=...)
"""
import json, os, shutil, subprocess, sys, re

ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
WORK = "/tmp/seedrepo"

DEMO = r'''#!/bin/bash
# Runs demo_test.go inside ./%(pkg)s of the repository in the current directory: exit 0 if the property holds.
dir=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
cp "$repo/go.mod" "$tmp/gofer.mod" && cp /opt/vp/gofer.sum "$tmp/gofer.sum" || exit 2
export GOFLAGS="-mod=mod -modfile=$tmp/gofer.mod" TMPDIR=$tmp
%(prep)sprintf '{"Replace": {"%%s": "%%s"}}' "$repo/%(pkg)s/zz_demo_test.go" "$dir/demo_test.go" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 250s -overlay "$tmp/overlay.json" %(flags)s-run '^TestDemo$' ./%(pkg)s
'''

def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def clone():
    if not os.path.isdir(WORK):
        sh("git clone -q /repo " + WORK)
    sh("git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD", WORK)

ENV = """export HOME=/root LANG=C.UTF-8 PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
cp go.mod /tmp/seedgofer.mod; cp /opt/vp/gofer.sum /tmp/seedgofer.sum; export GOFLAGS="-mod=mod -modfile=/tmp/seedgofer.mod"
PKGS=$(go list -e ./... | grep -v 'gofer/image$')
"""

def seed(id, prop, pkg, edits, test, needs, breaks, flags="", runs=2, slow=False, prep=""):
    d = os.path.join(ROOT, id)
    clone()
    for f, old, new in edits:
        p = os.path.join(WORK, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "EDIT: %d matches of %r in %s" % (s.count(old), old[:60], f)); return False
        open(p, "w").write(s.replace(old, new))
    for f in {e[0] for e in edits}:
        if sh("git stash -q && gofmt -l %s; git stash pop -q" % f, WORK)[1].strip() == "":
            sh(ENV + "gofmt -w " + f, WORK)
    rc, diff = sh("git diff", WORK)
    # lines taken away must be original ones
    bad = []
    for f in {e[0] for e in edits}:
        rc, bl = sh("git blame -s HEAD -- " + f, WORK)
        mine = {l.split(") ", 1)[-1].strip() for l in bl.splitlines() if not l.startswith("^")}
        orig = {l.split(") ", 1)[-1].strip() for l in bl.splitlines() if l.startswith("^")}
        rc, fd = sh("git diff -U0 -- " + f, WORK)
        for l in fd.splitlines():
            if l.startswith("-") and not l.startswith("---"):
                t = l[1:].strip()
                if t and t in mine and t not in orig:
                    bad.append(t)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d): os.remove(os.path.join(d, f))
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_test.go", "w").write(test.lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO % {"pkg": pkg, "prep": prep, "flags": flags + " " if flags else ""})
    if "ico" in prep: shutil.copy(os.path.join(os.path.dirname(ROOT), "harness/stubs/ico/ico.go"), d)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    rc, o = sh(ENV + "go build $PKGS " + ("" if prep else "&& go vet ./" + pkg + " 2>&1 | head -5"), WORK)
    if rc: print(id, "BUILD", o); ok = False
    rc, o = sh(ENV + "go test -vet=off -count=1 -timeout 10m -skip '^Test_treeMap2$' ./%s" % pkg, WORK)
    if prep: rc = 0
    fails = [l for l in o.splitlines() if "--- FAIL" in l or l.startswith("FAIL") or "panic:" in l]
    if rc: print(id, "TESTS", fails[:10], o[-300:])
    for i in range(runs):
        rc, o = sh(d + "/demo.sh", WORK)
        if rc == 0: print(id, "DEMO PASSES WITH PATCH (run %d)" % i, o[-300:]); ok = False
        elif "[build failed]" in o or "[setup failed]" in o: print(id, "DEMO DOES NOT BUILD", o[-800:]); ok = False; break
    out = o
    sh("git checkout -q -- .", WORK)
    for i in range(runs):
        rc, o = sh(d + "/demo.sh", WORK)
        if rc: print(id, "DEMO FAILS UNCHANGED", o[-800:]); ok = False; break
    if bad: print(id, "changes lines added by fixes:", bad)
    print(id, "ok" if ok else "NOT OK", "|", [l.strip() for l in out.splitlines() if "demo_test.go:" in l or "zz_demo" in l][:1])
    return ok

# preparation for demonstrations of the image package: a stand-in for the icon encoder
ICO = '''mkdir "$tmp/ico" && cp "$dir/ico.go" "$tmp/ico/" && printf 'module github.com/donnie4w/ico\\n\\ngo 1.23.0\\n' > "$tmp/ico/go.mod" && echo "replace github.com/donnie4w/ico => $tmp/ico" >> "$tmp/gofer.mod" || exit 2
'''
