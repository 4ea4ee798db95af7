#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.TABLE:
        checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
                           technique=props.TECH.get(i, props.TECH["default"]), level="model_checking", level_note=props.NOTE.get(i, props.NOTE["default"])))
    else:
        na.append(dict(property=i, reason=props.NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harnesses compile /repo's sources as they are. Known findings: known-findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
