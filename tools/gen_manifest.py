#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "gen"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        t, note = registry.NOTES.get(i, registry.DEFAULT)
        checks.append(dict(property=i, quick_cmd=f"bin/check {i}", thorough_cmd=f"VERIF_TIER=thorough bin/check {i}", evidence_file=f"evidence/{i}.json",
                           technique=t, level=registry.LEVEL.get(i, "model_checking"), level_note=note))
    else: na.append(dict(property=i, reason=registry.NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="TLA+ specification in spec/, checked with TLC; bound to the code by trace validation (spec/Trace_*.tla).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
