#!/usr/bin/env python3
"""claim.py PROPERTY TECHNIQUE NOTES: claims a property and regenerates the derived files."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 3:
    p = V + "/tools/claimed.json"
    d = json.load(open(p)); d[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
    json.dump(dict(sorted(d.items())), open(p, "w"), indent=1, ensure_ascii=False)
for t in ["gen_fixed", "gen_manifest", "gen_design"]:
    subprocess.run([sys.executable, f"{V}/tools/{t}.py"], check=True)
