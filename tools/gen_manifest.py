#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import REGISTRY, TECH, NA
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": [], "not_applicable": []}
for p in props:
    if p in REGISTRY:
        t, note = TECH[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"python3 run.py {p} --tier thorough", "technique": t, "level": "other", "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
