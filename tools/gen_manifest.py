#!/usr/bin/env python3
"""Writes MANIFEST.json: CLAIMED properties get a check, the others are listed under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(V + "/tools/claimed.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({
            "property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash run.sh --build-only",
           "hooks": {"guard": "none", "enable": "no hooks: every check uses the public API of the crates", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
