#!/usr/bin/env python3
"""Makes and confirms a planted bug: plant.py SPEC.py [ID...]

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)], needs, breaks, pkg (dir), test (Go test
source, in-package).  Each is confirmed in a scratch worktree: it applies, touches lines of the original repository,
builds, passes the stable tests, and its demonstration passes without it and fails with it."""
import json, os, subprocess, sys, tempfile, shutil

ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
OUT = "/verif/seeded"
DEMO = """#!/bin/sh
# Runs demo_test.go inside the package (through an overlay, nothing is written in the repository).
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
printf '{"Replace": {"%s/{PKG}zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
cd "./{PKG}" && go test {RACE}-overlay "$tmp/overlay.json" -count=1 -timeout 240s -run '^TestDemo$' .
"""


def sh(cmd, cwd, check=True):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True)
    if check and p.returncode:
        raise SystemExit("%s: %s\n%s%s" % (cwd, cmd, p.stdout[-3000:], p.stderr[-3000:]))
    return p


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    for b in spec["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        wt = tempfile.mkdtemp(prefix="plant", dir="/tmp")
        os.rmdir(wt)
        sh("git worktree add --detach %s HEAD" % wt, "/repo")
        try:
            print(b["id"], confirm(b, wt))
        except SystemExit as e:
            print(b["id"], "FAILED", e)
        finally:
            sh("git worktree remove --force %s" % wt, "/repo")


def confirm(b, wt):
    d = os.path.join(OUT, b["id"])
    os.makedirs(d, exist_ok=True)
    pkg = b.get("pkg", "")
    demo = DEMO.replace("{PKG}", pkg + "/" if pkg else "").replace("{RACE}", "-race " if b.get("race") else "")
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo_test.go"), "w").write(b["test"].lstrip())
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = sh("sh %s/demo.sh" % d, wt, False)
    if r.returncode:
        raise SystemExit("demo fails without the bug:\n" + r.stdout[-2500:] + r.stderr[-2500:])
    for f, old, new in b["edits"]:
        p = os.path.join(wt, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit("%d occurrences of %r in %s" % (s.count(old), old, f))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", wt).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    # lines removed must be lines of the original repository
    base = sh("git rev-list --max-parents=0 HEAD", wt).stdout.split()[-1]
    for f in {e[0] for e in b["edits"]}:
        orig = set(sh("git show %s:%s" % (base, f), wt).stdout.split("\n"))
        for l in sh("git diff -U0 -- %s" % f, wt).stdout.split("\n"):
            if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
                print("   note: not an original line:", l)
    sh("gofmt -l . >/dev/null; go build ./... && go vet ./... >/dev/null 2>&1; true", wt)
    sh("go build ./...", wt)
    out = wt + ".json"
    t = sh("go test -json -count=1 ./... > %s 2>/dev/null" % out, wt, False)
    ok = set()
    for l in open(out):
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add((e["Package"], e["Test"]))
    os.remove(out)
    base = json.load(open("/opt/vp/BASELINE.json"))
    missing = [s for s in base["stable"] if s not in {p + "/" + t for p, t in ok}]
    if missing:
        raise SystemExit("stable tests fail: %s" % missing[:5])
    r = sh("sh %s/demo.sh" % d, wt, False)
    if r.returncode == 0:
        raise SystemExit("demo passes with the bug")
    return "ok (%d tests pass)" % len(ok)


main()
