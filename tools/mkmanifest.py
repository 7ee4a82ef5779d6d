#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
sys.dont_write_bytecode = True
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append(dict(property=i, reason="no check built yet"))
        continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=c["technique"], level="model_checking", level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 -c 'import sys; sys.exit(0)' && command -v scons gcc g++ objcopy", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
