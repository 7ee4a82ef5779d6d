#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property against it; records the verdicts in tools/caught.json."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import seed
path = os.path.join(V, "tools", "caught.json")
d = json.load(open(path)) if os.path.exists(path) else {}
for s in sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded"))):
    p = json.load(open("%s/seeded/%s/meta.json" % (V, s)))["property"]
    r = seed.check(s)
    d[s] = p + " quick" if "rc=1" in r and "VIOLATION property=" + p in r else "missed"
    print(s, d[s], r.replace("\n", " ")[-260:-60], flush=True)
    json.dump({k: d[k] for k in sorted(d) if os.path.exists(os.path.join(V, "seeded", k))}, open(path, "w"), indent=1)
