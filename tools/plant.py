#!/usr/bin/env python3
"""plant.py DEFS.py [ID ...]: makes seeded/<ID>/ from a definition and confirms it
in a scratch copy of /repo: applies, builds, the stable tests pass, the demo tells
the trees apart, the removed lines are original; then runs the property's check.

DEFS.py holds seed(id, property, needs, breaks, edits=[(file, old, new)], demo=GO BODY or main.go)."""
import sys, os, json, subprocess, shutil, tempfile, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
ENV = dict(os.environ, HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOFLAGS="-mod=readonly", CGO_ENABLED="1")
DEMO = '''#!/bin/bash
# Runs main.go (beside this file) inside the module in the current directory.
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOFLAGS=-mod=readonly CGO_ENABLED=1
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 99
printf '{"Replace":{"%%s/zzdemo/main.go":"%%s/main.go"}}' "$PWD" "$here" > "$w/overlay.json"
go build %s-overlay "$w/overlay.json" -o "$w/demo" ./zzdemo || exit 98
timeout 200 "$w/demo"
status=$?
rm -rf "$w"
exit $status
'''
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, race=False, imports=()):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race, imports=imports))

def run(cmd, cwd, timeout=900):
    if isinstance(cmd, str) and "go test" in cmd:
        cmd = ["unshare", "-n", "bash", "-c", "ip link set lo up; " + cmd]
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str), executable="/bin/bash" if isinstance(cmd, str) else None)
    return p.returncode, p.stdout.decode("utf-8", "replace")

def base_commit():
    return run("git rev-list --max-parents=0 HEAD", "/repo")[1].strip()

def original(diff, base):
    bad = []
    # every changed hunk must remove or sit on original lines
    for f in re.findall(r"^--- a/(.*)$", diff, re.M):
        rc, o = run(["git", "blame", "-l", "-s", "--root", f], "/repo")
        blame = [l.split(" ", 1)[0].lstrip("^") for l in o.split("\n")]
        part = diff.split("--- a/" + f, 1)[1].split("\ndiff --git", 1)[0]
        n = 0
        for l in part.split("\n")[2:]:
            m = re.match(r"@@ -(\d+)", l)
            if m:
                n = int(m.group(1)) - 1
            elif l.startswith("-"):
                if not base.startswith(blame[n][:20]):
                    bad.append("%s:%d" % (f, n + 1))
                n += 1
            elif not l.startswith("+"):
                n += 1
    return bad

def go(s, check=True):
    d = os.path.join(SEEDED, s["id"])
    scratch = "/tmp/plant-" + s["id"]
    shutil.rmtree(scratch, ignore_errors=True)
    run(["cp", "-a", "/repo", scratch], "/")
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(scratch, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "edit matches %d times in %s: %r" % (t.count(old), f, old[:60])
            open(p, "w").write(t.replace(old, new))
        rc, diff = run(["git", "diff"], scratch)
        bad = original(diff, base_commit())
        note = (" [not original: %s]" % " ".join(bad)) if bad else ""
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % ("-race " if s["race"] else ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "main.go"), "w").write(s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, o = run(["bash", os.path.join(d, "demo.sh")], "/repo", 300)
        if rc:
            return "demo fails on the unchanged tree (%d)\n%s" % (rc, o[-1500:])
        rc, o = run("go build $(go list -e ./... | grep -v '/examples$')", scratch)
        if rc:
            return "does not build\n" + o[-1500:]
        rc, o = run(["bash", os.path.join(d, "demo.sh")], scratch, 300)
        if rc in (0, 98):
            return "demo does not tell (%d)\n%s" % (rc, o[-800:])
        said = o.strip().split("\n")[-1][:150]
        rc, o = run("go test -race -vet=off -count=1 $(go list -e ./... | grep -v '/examples$') 2>&1 | grep -v '^ok\\|no test files'; for f in examples/*.go; do go build -o /tmp/plant-ex $f && timeout 60 /tmp/plant-ex >/dev/null 2>&1 || echo FAIL $f; done", scratch)
        if "FAIL" in o:
            return "tests notice it:\n" + o[-1500:]
        if not check:
            return "ok (check not run)%s: %s" % (note, said)
        e = dict(ENV, VERIF_REPO=scratch, VERIF_SEED="1", VERIF_TIER="quick")
        p = subprocess.run(["python3", "check.py", s["prop"]], cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = p.stdout.decode("utf-8", "replace")
        verdict = {0: "MISSED", 1: "CAUGHT"}.get(p.returncode, "CHECK BROKE")
        return "%s%s: %s\n      %s" % (verdict, note, said, "\n      ".join(l[:400] for l in o.strip().split("\n")[:2]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if a != "--nocheck"]
    for f in [a for a in args if a.endswith(".py")]:
        exec(open(f).read())
    only = [a for a in args if not a.endswith(".py")]
    for s in SEEDS:
        if only and s["id"] not in only:
            continue
        try:
            print(s["id"], s["prop"], go(s, "--nocheck" not in sys.argv), flush=True)
        except Exception as x:
            print(s["id"], s["prop"], "ERROR", x, flush=True)
