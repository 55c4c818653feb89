#!/usr/bin/env python3
"""Writes MANIFEST.json from what vlib/plans.py claims."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import plans

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.CLAIMS:
        tech, note = plans.CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level=plans.LEVELS.get(i, "model_checking"), level_note=note))
    else:
        na.append(dict(property=i, reason=plans.NOT_CLAIMED.get(i, "its check is not built yet")))
m = dict(version=1, setup_cmd="python3 setup.py",
         hooks=dict(guard="none: /repo carries no hooks", enable="the checks instrument copies of the sources (harness/instr) and add them with 'go test -overlay'", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, checked and simulated with TLC; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
