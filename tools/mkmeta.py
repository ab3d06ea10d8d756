#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below and config.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from config import PROPS
from tools.proplist import LIST, NOT_APPLICABLE

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in LIST:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = []
for p in LIST:
    i = p["id"]
    if i not in PROPS:
        assert i in NOT_APPLICABLE, i
        continue
    c = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": c.get("technique", "contract-based deductive verification (Verus) of the mechanically extracted source"),
        "level": c["level"],
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(LIST), "properties", len(checks), "checks")
