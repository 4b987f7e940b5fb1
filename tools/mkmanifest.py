#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check in vp/registry.py is
claimed, every other one is listed as not (yet) decided."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp import registry
from tools.notes import NOTES, TECH, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=TECH[i], level="model_checking", level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "The specification and driver for it are not built yet.")))
m = dict(version=1, setup_cmd="python3 check.py --selftest", checks=checks, not_applicable=na,
         notes="TLA+ specifications (spec/), checked by TLC, bound to /repo by replaying their behaviours into the real code and validating recorded traces; see DESIGN.md. No hooks in /repo: the drivers use its public interfaces only.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
