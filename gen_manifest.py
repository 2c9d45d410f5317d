#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
m = {"version": 1, "setup_cmd": "python3 run.py --warm", "checks": [], "not_applicable": []}
for p in sorted(CHECKS):
    c = CHECKS[p]
    m["checks"].append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                        "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": c["level"],
                        "level_note": "bounded: " + c["bounds"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
