#!/usr/bin/env python3
"""Fills DESIGN.md's property and seed sections from tools/design_props.md and seeded/*/meta.json + tools/caught.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design_head.md").read()
p = open(V + "/tools/design_props.md").read()
c = json.load(open(V + "/tools/caught.json"))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {c.get(i, '?')} |")
open(V + "/DESIGN.md", "w").write(t.replace("@@PROPS@@", p).replace("@@SEEDS@@", "\n".join(rows)))
