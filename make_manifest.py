#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {}
NOTE = {}
exec(open(os.path.join(HERE, "notes.py")).read())
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "vf", "checks", p.lower() + ".py")):
        checks.append({
            "property": p,
            "quick_cmd": "./run_check.py {} --tier quick".format(p),
            "thorough_cmd": "./run_check.py {} --tier thorough".format(p),
            "evidence_file": "evidence/{}.json".format(p),
            "technique": "property-based testing: " + TECH.get(p, "generated inputs against a reference model"),
            "level": "exploration",
            "level_note": NOTE.get(p, "Random search with shrinking; no proof of absence. Trusts numpy/scipy/astropy and the "
                                      "reference formulas in vf/ref.py, written from the papers.")})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
