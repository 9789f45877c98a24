#!/usr/bin/env python3
"""addfix.py SUBJECT PROPERTY WHAT: records a fix: commit."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/tools/fixes.json"
d = json.load(open(p)); d[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump(d, open(p, "w"), indent=1, ensure_ascii=False)
