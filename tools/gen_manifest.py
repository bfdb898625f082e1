#!/usr/bin/env python3
"""Writes MANIFEST.json from engine/registry.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "engine"))
import registry
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CLAIMS:
        c = registry.CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                           technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes=registry.NOTES)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
