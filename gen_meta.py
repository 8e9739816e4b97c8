#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py (one source for both)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from meta.props import PROPS, NOT_APPLICABLE
import checks_conf

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        anchors = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p.get("observe"):
            anchors["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=anchors)) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in checks_conf.CHECKS:
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 run_check.py %s quick" % p["id"],
                       thorough_cmd="python3 run_check.py %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["level_note"]))
na = [dict(property=i, reason=r) for i, r in NOT_APPLICABLE]
for p in PROPS:
    if p["id"] not in checks_conf.CHECKS and p["id"] not in dict(NOT_APPLICABLE):
        na.append(dict(property=p["id"], reason="no check yet"))
m = dict(version=1, setup_cmd="python3 run_check.py --selftest", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every monitor observes the public API of the sanitizer-built library (or the built command line program).")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
