#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/meta.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import meta  # noqa

VERIF = os.path.dirname(HERE)

with open(os.path.join(VERIF, "properties.jsonl"), "w") as fil:
    for p in meta.PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"],
                              mechanism=[dict(name=n, where=w)
                                         for n, w in p["mech"]],
                              observe_at=p["observe"], hook_needed=None))
        assert len(d["title"]) <= 80, d["title"]
        fil.write(json.dumps(d) + "\n")

checks = []
for p in meta.PROPS:
    if p.get("na"):
        continue
    checks.append(dict(
        property=p["id"],
        quick_cmd="bin/check %s --tier quick" % p["id"],
        thorough_cmd="bin/check %s --tier thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=p.get("technique", meta.TECHNIQUE),
        level=p.get("level", "model_checking"),
        level_note=p["note"]))
man = dict(version=1, setup_cmd="bin/setup", checks=checks,
           not_applicable=[dict(property=p["id"], reason=p["na"])
                           for p in meta.PROPS if p.get("na")],
           notes=meta.NOTES)
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fil:
    json.dump(man, fil, indent=1)
    fil.write("\n")
