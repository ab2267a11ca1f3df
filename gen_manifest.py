#!/usr/bin/env python3
"""Rewrites MANIFEST.json from checks.py and properties.jsonl (development aid)."""
import json
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
props = [json.loads(l) for l in open("properties.jsonl")]
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c: continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "technique": c.get("technique", "property-based testing: generated inputs against an independent model, with shrinking"),
        "level": c.get("level", "exploration"),
        "level_note": c.get("level_note", "Random search from a seed with a fixed number of cases; shows absence of counterexamples among the generated cases only. " + c["rule"]),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
missing = [p["id"] for p in props if p["id"] not in CHECKS and p["id"] not in [n["property"] for n in NOT_APPLICABLE]]
print("without check:", missing, "check without property:", [c for c in CHECKS if c not in [p["id"] for p in props]])
