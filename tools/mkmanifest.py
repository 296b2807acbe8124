#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="no check has been built for it yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 tools/check.py " + p["id"],
                       thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 tools/check.py --build-all", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
