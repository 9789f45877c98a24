#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from /repo's fix: commits and tools/fixes.json (subject -> [property, what failed])."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fx = json.load(open(V + "/tools/fixes.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    if s not in fx: print("no entry:", s); continue
    p, w = fx[s]
    out.append(f"fixed: property={p} {h} {w}")
k = json.load(open(V + "/known_findings.json"))
k["fixed"] = out
json.dump(k, open(V + "/known_findings.json", "w"), indent=1, ensure_ascii=False)
