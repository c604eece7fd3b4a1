#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from properties_src.py and the props/ modules present."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from properties_src import P
import manifest_notes
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
checks, na = [], []
for r in P:
    i = r["id"]
    if os.path.exists(os.path.join(root, "props", i.lower() + ".py")):
        checks.append(dict(property=i,
                           quick_cmd="VERIF_TIER=quick bash run.sh " + i,
                           thorough_cmd="VERIF_TIER=thorough bash run.sh " + i,
                           technique=manifest_notes.TECH.get(i, manifest_notes.DEFAULT_TECH),
                           level="exploration",
                           level_note=manifest_notes.NOTE.get(i, manifest_notes.DEFAULT_NOTE)))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
