#!/usr/bin/env python3
"""Runs checks against planted bugs in /repo itself, and undoes each: python3 tools/try.py [--checks C01,C02] ID..."""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = None
if args and args[0] == "--checks":
    checks, args = args[1].split(","), args[2:]
for id in args or sorted(os.listdir(os.path.join(HERE, "seeded"))):
    d = os.path.join(HERE, "seeded", id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    if subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")]).returncode != 0:
        print(id, prop, "DOES NOT APPLY", flush=True)
        continue
    try:
        for c in checks or [prop]:
            t = time.time()
            p = subprocess.run([sys.executable, "run.py", c], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            what = {0: "MISSED", 1: "caught"}.get(p.returncode, "exit %d" % p.returncode)
            print(id, c, what, "%.0fs" % (time.time() - t), flush=True)
            if p.returncode not in (0, 1):
                print(p.stdout[-2000:])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
