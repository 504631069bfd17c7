#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the stages registered for them."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stages
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in stages.STAGES:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": stages.TECHNIQUE[i], "level": "model_checking", "level_note": stages.NOTE[i]})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/ checked with TLC and TLAPS, bound to the code by trace validation and by replaying walks of the specifications' state graphs. No hooks in /repo. Fixed defects: KNOWN_FINDINGS.txt."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
