#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py --property %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py --property %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c["level"],
                       "level_note": c.get("note", "Complete within the bounds of DESIGN.md; trusts the reference implementation, the compiler and the SSL library.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks compile /repo's working tree into harnesses under /verif."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
