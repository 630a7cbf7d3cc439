#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
NOTE = ("Every execution of the real code within the stated alphabet and bounds "
        "is run and compared with an independent reference; nothing is sampled. "
        "Bounds and alphabets are in the evidence file and DESIGN.md. Trusted: "
        "numpy/scipy, the reference formulas in mc/, and the scripted stand-ins "
        "for the numerical optimisers where DESIGN.md names them.")
for p in props:
    i = p["id"]
    f = os.path.join(V, "mc", "checks", i + ".py")
    if not os.path.exists(f):
        na.append(dict(property=i, reason="check not built yet"))
        continue
    head = open(f).read().split('"""')[1].strip().split("\n")
    tech = "bounded exhaustive enumeration of the real code (stateless search) against a reference model: " + " ".join(head)[:200]
    checks.append(dict(property=i, quick_cmd="./run.py %s quick" % i,
                       thorough_cmd="./run.py %s thorough" % i,
                       evidence_file="evidence/%s.json" % i,
                       technique=tech, level="model_checking", level_note=NOTE))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \".\"); from mc import env; env.load()'",
         checks=checks, not_applicable=na,
         notes="No hooks: the machinery drives the public API and replaces "
               "only scipy's optimisers from outside.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
