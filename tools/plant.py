#!/usr/bin/env python3
"""Makes seeded/<id>/ from tools/bugs/<id>.py and confirms it in scratch copies of /repo:
python3 tools/plant.py [--keep-unconfirmed] ID...

tools/bugs/<id>.py sets: prop, edits = [(file, old, new)...], needs, breaks, pkg (where the demonstration
runs, "" for a folder of its own) and demo (a Go test file; package demo_test unless it says otherwise).
app = True puts app_helper_test.go (accounts, signing) beside it."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOROOT="/opt/veriftools/go1.23.12", GOTOOLCHAIN="local", GOENV="off", GOPATH="/root/go",
           GOCACHE="/root/.cache/go-build", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", CGO_ENABLED="1",
           PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

DEMO = '''#!/bin/bash
# exits 0 if the behaviour is right, run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:$PATH GOROOT=/opt/veriftools/go1.23.12 GOTOOLCHAIN=local GOENV=off
export GOPATH=/root/go GOCACHE=/root/.cache/go-build GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=1
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<JSON
{"Replace": {%s}}
JSON
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run 'TestDemo' ./%s
'''


def copy():
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    subprocess.run(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
    subprocess.run("cp -a /repo/. " + d, shell=True, check=True)
    subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
    return d


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def failing(cwd):
    """stable tests which do not pass, tried three times"""
    p = run("go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -vx 'github.com/fdymylja/tmos/testapp/module')", cwd, shell=True)
    passed, failed = set(), set()
    for line in p.stdout.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("Test") and e.get("Action") in ("pass", "fail"):
            (passed if e["Action"] == "pass" else failed).add(e["Package"] + "/" + e["Test"])
    return sorted(STABLE - (passed - failed))


def plant(id):
    g = {"app": False, "pkg": "", "files": {}}
    exec(open(os.path.join(HERE, "tools", "bugs", id + ".py")).read(), g)
    out = os.path.join(HERE, "seeded", id)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    pkg = g["pkg"] or "x/distribution"
    names = {"demo_test.go": g["demo"]}
    if g["app"]:
        names["app_helper_test.go"] = open(os.path.join(HERE, "tools", "app_helper_test.go")).read()
    names.update(g["files"])
    for n, s in names.items():
        s = s.replace("package demo_test", "package distribution_test")
        open(os.path.join(out, n), "w").write(s)
    rep = ", ".join('"$PWD/%s/zz_%s": "$here/%s"' % (pkg, n, n) for n in names)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO % (rep, pkg))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    d = copy()
    try:
        p = run(["bash", os.path.join(out, "demo.sh")], d)
        if p.returncode != 0:
            return "demo fails on the clean tree:\n" + p.stdout[-3000:]
        for f, old, new in g["edits"]:
            path = os.path.join(d, f)
            s = open(path).read()
            if s.count(old) != 1:
                return "%s has %d times %r" % (f, s.count(old), old)
            open(path, "w").write(s.replace(old, new))
        run(["gofmt", "-l", "."], d)
        diff = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        p = run("go build ./... && go vet ./%s" % os.path.dirname(g["edits"][0][0]), d, shell=True)
        if p.returncode != 0:
            return "does not build:\n" + p.stdout[-3000:]
        bad = failing(d)
        if bad:
            return "tests fail: %s" % bad
        p = run(["bash", os.path.join(out, "demo.sh")], d)
        if p.returncode == 0:
            return "demo passes with the change:\n" + p.stdout[-3000:]
        if "[build failed]" in p.stdout or "[setup failed]" in p.stdout:
            return "demo does not build with the change:\n" + p.stdout[-3000:]
        # changed lines have to be of the original repository
        base = subprocess.run("git log --format=%H | tail -1", cwd="/repo", shell=True, stdout=subprocess.PIPE, text=True).stdout.strip()
        mine = 0
        for f, old, new in g["edits"]:
            orig = subprocess.run(["git", "-C", "/repo", "show", base + ":" + f], stdout=subprocess.PIPE, text=True).stdout
            rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            mine += sum(1 for l in rem if l.strip() and l not in orig)
        note = " (NOTE: %d removed lines are not in the base)" % mine if mine else ""
        return "ok" + note + "\n    " + "\n    ".join([l for l in p.stdout.splitlines() if "demo_test.go" in l or "panic" in l][:3])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    for id in sys.argv[1:]:
        r = plant(id)
        print(id, r, flush=True)
