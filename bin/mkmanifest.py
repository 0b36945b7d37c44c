#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import NOT_APPLICABLE, PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": PROPS[i].get("technique", "TLA+ specification checked with TLC; recorded behaviours of the real code validated against it by TLC"),
                       "level": "model_checking", "level_note": PROPS[i]["note"]})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built yet")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the harness is compiled into the module through an overlay (package internal/zzverif). See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
