#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -c 'import checks' && g++ --version >/dev/null && clang++ --version >/dev/null", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 run.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
