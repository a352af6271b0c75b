#!/usr/bin/env python3
"""Runs one check: builds its test binary from /repo's working tree, runs it in
several processes, and writes evidence/<ID>.json.

usage: run.py ID [--tier quick|thorough] [--replay PATH] [--scale X]

exit 0: the property held on everything explored; exit 1: it is broken, and a line
"VIOLATION property=<id> replay=<path>" says where the reproduction is; exit 2: no answer.
"""
import array
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
GOROOT = "/opt/veriftools/go1.23.12"

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "RAPID_", "VT_"))}
    e.update(
        HOME="/root", GOROOT=GOROOT, GOTOOLCHAIN="local", GOENV="off", GOPATH="/root/go",
        GOCACHE="/root/.cache/go-build", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", CGO_ENABLED="1",
        GOSUMDB="off",
        PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    )
    return e


def error(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def build(cid, cfg):
    """Builds the check's test binary, returns its path."""
    out = os.path.join(BUILD, cid)
    os.makedirs(out, exist_ok=True)
    # the module files of the harness are copied, so that go never rewrites the committed ones
    for f in ("go.mod", "go.sum"):
        shutil.copyfile(os.path.join(HARNESS, f), os.path.join(out, f))
    args = [GOROOT + "/bin/go", "test", "-c", "-vet=off", "-modfile", os.path.join(out, "go.mod"),
            "-o", os.path.join(out, "check.test")]
    overlay = os.path.join(HARNESS, "overlay", cid)
    if os.path.isdir(overlay):
        rep = {}
        for d, _, fs in os.walk(overlay):
            for f in fs:
                if f.endswith(".go.txt"):
                    rel = os.path.relpath(os.path.join(d, f), overlay)[:-len(".txt")]
                    rep[os.path.join(REPO, rel)] = os.path.join(d, f)
        with open(os.path.join(out, "overlay.json"), "w") as fh:
            json.dump({"Replace": rep}, fh)
        args += ["-overlay", os.path.join(out, "overlay.json")]
    if cfg.get("race"):
        args += ["-race"]
    if cfg.get("tags"):
        args += ["-tags", cfg["tags"]]
    args.append("./checks/" + cid.lower())
    for attempt in range(2):
        p = subprocess.run(args, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return os.path.join(out, "check.test")
    error("the check does not build:\n" + p.stdout[-4000:])


def setup():
    """Builds everything once, which only makes the first builds of the checks faster."""
    for cid in sorted(CHECKS):
        build(cid, CHECKS[cid])
    print("built %d checks" % len(CHECKS))


CRASH = re.compile(r"^(panic:|fatal error:|SIGSEGV|unexpected fault address|runtime: )", re.M)


class Shard:
    def __init__(self, i, n, binary, seed, tier, scale, extra, failfile=None, test=None):
        self.i = i
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self.out = os.path.join(self.dir, "out.json")
        e = env()
        e.update(VT_OUT=self.out, VT_SHARD=str(i), VT_SHARDS=str(n), VT_TIER=tier, VT_SCALE=repr(scale),
                 TMPDIR=self.dir, GOMAXPROCS="2", GOTRACEBACK="all", VT_HARNESS=HARNESS,
                 VT_MODFILE=os.path.join(os.path.dirname(binary), "go.mod"))
        # where the race detector writes, for the checks which are built with it: they read it
        races = os.path.join(self.dir, "races")
        e.update(VT_RACES=races, GORACE="log_path=%s halt_on_error=0 exitcode=0 history_size=3 "
                 "suppress_equal_stacks=0 suppress_equal_addresses=0" % races)
        e.update(extra)
        args = [binary, "-test.timeout=0", "-test.count=1", "-rapid.seed=%d" % seed, "-rapid.shrinktime=20s"]
        if failfile:
            args += ["-rapid.failfile=" + failfile]
        if test:
            args += ["-test.run=^%s$" % test]
        self.log = open(os.path.join(self.dir, "log"), "w+b")
        self.p = subprocess.Popen(args, cwd=self.dir, env=e, stdin=subprocess.DEVNULL, stdout=self.log,
                                  stderr=subprocess.STDOUT, start_new_session=True)

    def text(self):
        self.log.flush()
        self.log.seek(0)
        return self.log.read().decode("utf-8", "replace")

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def failfiles(self):
        r = []
        for d, _, fs in os.walk(os.path.join(self.dir, "testdata")):
            r += [os.path.join(d, f) for f in fs if f.endswith(".fail")]
        return sorted(r)

    def remove(self):
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def violation_of(shard):
    """Says if the shard ended by showing that the property is broken, or else why it gave no answer."""
    rc = shard.p.returncode
    text = shard.text()
    if rc == 0:
        return False, ""
    if rc == 1 and "--- FAIL" in text:
        return True, text
    # the process died: it is the property's failure only if the code under test did it
    if rc == 2 and CRASH.search(text) and "out of memory" not in text and "cannot allocate" not in text \
            and ("fdymylja/tmos" in text or "/repo/" in text or "stack overflow" in text):
        return True, text
    return None, "shard %d ended with status %s:\n%s" % (shard.i, rc, text[-3000:])


def known_findings(cid):
    listed = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == cid:
                listed[m.group(2)] = m.group(3)
    return listed


def save_replay(cid, shard, text, seed, tier, scale, n):
    d = os.path.join(VERIF, "replays", cid)
    os.makedirs(d, exist_ok=True)
    m = re.search(r"--- FAIL: (\S+)", text)
    test = m.group(1) if m else ""
    name = "%s-seed%d-shard%d" % ((test or "crash").replace("/", "_"), seed, shard.i)
    path = os.path.join(d, name + ".txt")
    fails = shard.failfiles()
    fail = ""
    if fails:
        fail = os.path.join(d, name + ".fail")
        shutil.copyfile(fails[0], fail)
    with open(path, "w") as fh:
        fh.write("property: %s\n" % cid)
        fh.write("test: %s\nseed: %d\nshard: %d\nshards: %d\ntier: %s\nscale: %r\nfailfile: %s\n" % (
            test, seed, shard.i, n, tier, scale, os.path.basename(fail)))
        fh.write("to replay: python3 run.py %s --replay %s\n\n" % (cid, os.path.relpath(path, VERIF)))
        fh.write(text[:200000])
    return os.path.relpath(path, VERIF)


def shard_seed(seed, i):
    s = (seed * 1000 + i + 1) & 0x7FFFFFFFFFFFFFFF
    return s or 1


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        setup()
        return
    cid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay, scale_arg = None, None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--scale":
            scale_arg = float(args.pop(0))
        else:
            error("unknown argument " + a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = CHECKS[cid]
    start = time.time()
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (min(hard, 65536) if hard > 0 else 65536, hard))
    binary = build(cid, cfg)
    scale = scale_arg or (cfg.get("thorough", 20.0) if tier == "thorough" else 1.0)
    n = cfg.get("shards", 8)
    limit = cfg.get("limit", {}).get(tier) or (5400 if tier == "thorough" else 780)
    extra = cfg.get("env", {})

    if replay:
        meta = {}
        for line in open(replay):
            if ": " not in line and not line.rstrip().endswith(":"):
                break
            k, _, v = line.rstrip("\n").partition(": ")
            meta[k.rstrip(":")] = v
        fail = meta.get("failfile")
        if fail:
            fail = os.path.join(os.path.dirname(os.path.abspath(replay)), fail)
        s = Shard(int(meta["shard"]), int(meta["shards"]), binary,
                  shard_seed(int(meta["seed"]), int(meta["shard"])), meta["tier"], float(meta["scale"]), extra,
                  failfile=fail or None, test=meta.get("test") or None)
        s.p.wait()
        bad, text = violation_of(s)
        print(s.text())
        s.remove()
        if bad:
            print("VIOLATION property=%s replay=%s" % (cid, replay))
            sys.exit(1)
        sys.exit(0 if bad is False else 2)

    shards = [Shard(i, n, binary, shard_seed(seed, i), tier, scale, extra) for i in range(n)]
    deadline = start + limit
    bad = None
    noanswer = ""
    try:
        running = list(shards)
        failed_at = None
        while running:
            for s in list(running):
                if s.p.poll() is not None:
                    running.remove(s)
                    v, text = violation_of(s)
                    if v and bad is None:
                        bad = (s, text)
                        failed_at = time.time()
                    elif v is None:
                        noanswer = text
            # one failure is enough
            if bad is not None:
                break
            if time.time() > deadline:
                noanswer = "time limit of %d s reached" % limit
                break
            time.sleep(0.05)
    finally:
        for s in shards:
            s.kill()
            s.p.wait()

    # evidence
    tests, sigs, known = {}, array.array("Q"), set()
    for s in shards:
        try:
            with open(s.out) as fh:
                data = json.load(fh)
        except (OSError, ValueError):
            continue
        for k in data.get("known") or []:
            known.add(k)
        for r in data.get("tests") or []:
            t = tests.setdefault(r["name"], {"name": r["name"], "rule": r["rule"], "evaluations": 0, "nontrivial": 0,
                                             "classes": {}, "samples": [], "exhaustive": bool(r.get("exhaustive"))})
            t["evaluations"] += r["evaluations"]
            t["nontrivial"] += r["nontrivial"]
            for k, v in (r.get("classes") or {}).items():
                t["classes"][k] = t["classes"].get(k, 0) + v
            if len(t["samples"]) < 3:
                t["samples"] += (r.get("samples") or [])[: 3 - len(t["samples"])]
        try:
            with open(s.out + ".sigs", "rb") as fh:
                sigs.frombytes(fh.read())
        except OSError:
            pass
    distinct = len(set(sigs))
    ts = list(tests.values())
    coverage = {
        "evaluations": sum(t["evaluations"] for t in ts),
        "distinct_nontrivial": distinct,
        "rule": " || ".join("%s: %s" % (t["name"], t["rule"]) for t in ts),
        "samples": [{"test": t["name"], "case": c} for t in ts for c in t["samples"]],
        "tests": [{k: t[k] for k in ("name", "evaluations", "nontrivial", "classes", "exhaustive")} for t in ts],
    }
    evidence = {
        "property": cid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - start, 2), "violations": 1 if bad else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % cid)
    with open(tmp, "w") as fh:
        json.dump(evidence, fh, indent=1, ensure_ascii=False)
        fh.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", cid + ".json"))

    path = None
    if bad:
        path = save_replay(cid, bad[0], bad[1], seed, tier, scale, n)
    for s in shards:
        s.remove()

    if bad:
        print(bad[1][:6000])
        print("VIOLATION property=%s replay=%s" % (cid, path))
        sys.exit(1)
    if noanswer:
        error(noanswer)
    if not ts:
        error("nothing was run")
    listed = known_findings(cid)
    for k in sorted(known):
        if k not in listed:
            error("finding %s is not listed" % k)
        print("KNOWN-FINDING: property=%s %s" % (cid, listed[k]))
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        cid, tier, seed, coverage["evaluations"], distinct, time.time() - start))


if __name__ == "__main__":
    main()
