#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/properties.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "meta"))
sys.path.insert(0, HERE)
from properties import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402
from registry import CHECKS  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        row = {k: p[k] for k in ("id", "title", "statement", "quantifier",
                                 "why_tests_cant", "anchors")}
        f.write(json.dumps(row) + "\n")

na = [dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()]
checks = []
for p in PROPS:
    if p["id"] not in CHECKS:
        if p["id"] not in NOT_APPLICABLE:
            na.append(dict(property=p["id"], reason="no check built yet"))
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["level_note"],
    })
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks,
           "not_applicable": na, "notes": NOTES},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks")
