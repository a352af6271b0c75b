#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below: python3 spec.py"""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=[dict(name=a, where=b) for a, b in mech], technique=technique, note=note,
                  state=[dict(name=a, meaning=b, where=c) for a, b, c in state or []], observe=observe or []))


exec(open(os.path.join(HERE, "spec_props.py")).read())

BASE = ("Generated-input search: what it explored held, what it did not explore is not claimed. "
        "Trusted: the Go toolchain, badger's in-memory mode, rapid, and the reference model or oracle named in DESIGN.md.")

NOT_CLAIMED = []


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    done = [p for p in P if os.path.isdir(os.path.join(HERE, "harness", "checks", p["id"].lower()))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in done:
            assert len(p["title"]) <= 80, p["title"]
            anchors = {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}
            for x in p["files"]:
                assert os.path.exists(os.path.join("/repo", x)), x
            if p["state"]:
                anchors["state"] = p["state"]
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["quant"]},
                                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 run.py --setup",
         "hooks": {"guard": "verif", "enable": "nothing in /repo is guarded: the checks use its public API, and an overlay under /verif for the packages which are internal", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"],
                     "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": p["technique"], "level": "exploration", "level_note": p["note"] + " " + BASE} for p in done],
         "not_applicable": NOT_CLAIMED}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    missing = [p["id"] for p in P if p not in done]
    if missing:
        print("not claimed yet:", missing)


main()
