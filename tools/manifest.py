#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib.props import PROPS
checks, na = [], []
for p in sorted(PROPS):
    c = PROPS[p]
    if "technique" not in c:
        na.append({"property": p, "reason": "the check is still being built"})
        continue
    checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": "model_checking",
                   "level_note": c["note"]})
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harness uses the public API only. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
