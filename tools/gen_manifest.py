#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
m["notes"] = "Repairs made in /repo and the one recorded finding are listed in known-findings.txt. No hooks in /repo: system calls and lock operations are interposed at link time."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
