#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (between the markers) from evidence/*.json of a quick run,
bin/checks.py, seeded/*/meta.json and the texts below."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin")); sys.dont_write_bytecode = True
from checks import CHECKS
T = json.load(open(os.path.join(V, "tools", "design_texts.json")))
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
out = ["## Checks", ""]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    ev = json.load(open(os.path.join(V, "evidence", i + ".json")))
    assert ev["tier"] == "quick" and ev["violations"] == 0, i
    out += ["### %s — %s" % (i, p["title"]), "",
            "*Harness* " + ", ".join("`harness/%s`" % s for s in CHECKS[i]["src"]) + "; *method* " + CHECKS[i]["technique"] + ".", "",
            "*Oracle* " + T[i]["oracle"], "", "*Beyond the tests* " + T[i]["why"], ""]
    if T[i].get("thorough"):
        out += ["*Thorough* " + T[i]["thorough"], ""]
    if CHECKS[i].get("assumptions"):
        out += ["*Not claimed* " + "; ".join(CHECKS[i]["assumptions"]) + ".", ""]
    out += ["*Quick run*: about %d s." % round(ev["wall_s"]), "", "| suite | space enumerated completely | states |", "|---|---|---|"]
    for s in ev["coverage"]["suites"]:
        out.append("| %s | %s | %d |" % (s["suite"], s.get("bound", "").replace("|", "/"), s["states"]))
    out.append("")
out += ["## Planted bugs", "", "Each under `seeded/`; verified with `tools/seed.py verify` (builds, stable tests pass, demo fails with it and passes without it) and run with `tools/seed.py check`.", "",
        "| bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    n = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    out.append("| %s | %s | %s | %s |" % (n, d["property"], d["needs"].replace("|", "/"), caught.get(n, "?")))
out.append("")
path = os.path.join(V, "DESIGN.md"); s = open(path).read()
B, E = "<!-- generated by tools/mkdesign.py -->", "<!-- end of generated part -->"
a, b = s.index(B), s.index(E)
open(path, "w").write(s[:a] + B + "\n" + "\n".join(out) + "\n" + s[b:])
