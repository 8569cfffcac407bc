#!/usr/bin/env python3
"""plant.py [ID...]: (re)makes /verif/seeded/<id>/ from plants.py and confirms
each: the change applies to /repo's HEAD, builds, passes the tests, and its
demo succeeds without and fails with it.  Works in scratch copies only."""
import os, shutil, subprocess, sys, json, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from plants import PLANTS
seeded = os.path.join(here, "..", "seeded")
PRE = '''#!/bin/bash
# Run in /repo after the build. Exit 0: the behaviour is right.
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOENV=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
go build -buildvcs=false -o "$t/yisp" . || exit 3
mkdir "$t/home" "$t/w" && cd "$t/w" || exit 3
export HOME="$t/home"
yisp() { timeout 60 "$t/yisp" "$@"; }
# same WHAT EXPECTED ACTUAL
same() { [ "$2" = "$3" ] || { printf '%s:\\nexpected\\n%s\\ngot\\n%s\\n' "$1" "$2" "$3"; exit 1; }; }
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def base():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    r = sh(f"git -C /repo worktree list >/dev/null; cp -a /repo/. {d}/")
    assert r.returncode == 0, r.stderr
    return d
ENV = ". /opt/vp/env.sh; "
def main():
    want = sys.argv[1:]
    ok = True
    clean = base()
    try:
        for p in PLANTS:
            if want and p["id"] not in want: continue
            d = base()
            try:
                out = os.path.join(seeded, p["id"])
                shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
                for f, old, new in p["edits"]:
                    path = os.path.join(d, f); s = open(path).read()
                    if s.count(old) != 1: print(p["id"], "edit does not apply", f, s.count(old)); ok = False
                    open(path, "w").write(s.replace(old, new))
                diff = sh("git diff", cwd=d).stdout
                open(os.path.join(out, "patch.diff"), "w").write(diff)
                open(os.path.join(out, "demo.sh"), "w").write(PRE + p["demo"].lstrip("\n"))
                os.chmod(os.path.join(out, "demo.sh"), 0o755)
                for n, t in p.get("files", {}).items(): open(os.path.join(out, n), "w").write(t)
                json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
                b = sh(ENV + "go build -buildvcs=false ./... && go test -vet=off -count=1 ./...", cwd=d)
                fmt = sh(ENV + "gofmt -l .", cwd=d).stdout.strip()
                g = sh("bash " + os.path.join(out, "demo.sh"), cwd=clean)
                f = sh("bash " + os.path.join(out, "demo.sh"), cwd=d)
                good = b.returncode == 0 and g.returncode == 0 and f.returncode != 0
                print(p["id"], "ok" if good else "BAD", fmt)
                if not good:
                    ok = False
                    print(" tests", b.returncode, b.stdout[-800:], b.stderr[-500:], "\n clean demo", g.returncode, g.stdout[-500:], g.stderr[-500:], "\n patched demo", f.returncode, f.stdout[-300:])
                elif "-v" in os.environ.get("PLANT", ""): print(f.stdout)
            finally: shutil.rmtree(d)
    finally: shutil.rmtree(clean)
    sys.exit(0 if ok else 1)
main()
