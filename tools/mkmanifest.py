#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and units.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from units import PROPS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = "stateless bounded-exhaustive model checking of the implementation against a reference model"
NOTE = ("Every choice vector (shape, length, operand mix, aliasing, scalar, content pattern, operation sequence) within the stated bounds is executed on the real code "
        "and every observation compared with an independent model; nothing is said about lengths, shapes and values outside the enumerated alphabet. "
        "Trusts the compiler, the OpenMP runtime and the reference model.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        q = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py --quick " + i, thorough_cmd="python3 check.py --thorough " + i, evidence_file="evidence/%s.json" % i,
                           technique=q.get("technique", TECH), level="model_checking", level_note=q.get("note", NOTE)))
    else:
        na.append(dict(property=i, reason="no check built yet"))
hooks = dict(guard="LALIB_MC_HOOKS", enable="no hooks are needed: the checks compile the unmodified headers of /repo", source_commits=[])
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", hooks=hooks, checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
