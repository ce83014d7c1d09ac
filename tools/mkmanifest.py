#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the table in sa/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.props import PROPS, META, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": "python3 check.py " + i, "technique": META[i][0],
                 "level": "other", "level_note": META[i][1]} for i in ids if i in PROPS],
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")} for i in ids
                        if i not in PROPS],
     "notes": "All checks are static: they analyse the MIR of /repo's current working tree (both feature "
              "configurations) or type-check witnesses against it. No hooks in /repo are needed."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
