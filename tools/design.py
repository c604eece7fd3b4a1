#!/usr/bin/env python3
"""DESIGN.md = design_body.md + the table of planted bugs.  tools only; no check reads seeded/."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
body = open(os.path.join(root, "tools", "design_body.md")).read()
rows = []
missed = json.load(open(os.path.join(root, "tools", "caught.json")))
for b in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"], missed.get(b, "caught")))
with open(os.path.join(root, "DESIGN.md"), "w") as f:
    f.write(body + "\n### Planted bugs and the check of their property\n\n| bug | check | needs | breaks | outcome |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
