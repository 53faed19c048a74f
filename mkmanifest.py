#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os
from props import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
 "N04": "timing and cache behaviour of the real machine is exactly what a simulator replaces; it cannot be observed here",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, level=c["level"],
            technique="deterministic simulation with fault injection: seeded search over " + c["what"],
            level_note="seeded sampling of simulated runs of the real library code, each exactly replayable; not exhaustive. Oracle: " + c["oracle"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 build.py all", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
