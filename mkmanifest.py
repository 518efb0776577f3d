#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
PENDING = "check not built yet"
m = {"version": 1, "setup_cmd": "python3 run.py all",
     "checks": [{"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": CHECKS[i]["technique"], "level": "exploration", "level_note": CHECKS[i]["note"]}
                for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": PENDING} for i in ids if i not in CHECKS],
     "notes": "All checks: one PBT engine (harness/pbt.*), sources of /repo built with ASan+UBSan into /verif/build on every run."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
