#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py build",
     "checks": [{"property": p, "quick_cmd": "python3 check.py check " + p, "thorough_cmd": "python3 check.py check " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": CHECKS[p]["technique"], "level": CHECKS[p]["level"], "level_note": CHECKS[p]["note"]}
                for p in ids if p in CHECKS],
     "not_applicable": [],
     "notes": "No hooks in /repo: the harnesses use the public headers only. Repairs of defects found are the fix: commits listed in KNOWN_FINDINGS.txt."}
missing = [p for p in ids if p not in CHECKS]
assert not missing, missing
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
