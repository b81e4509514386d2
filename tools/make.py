#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the list of properties."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plans
from properties import PROPERTIES

TECHNIQUE = "TLA+ specification checked with TLC; trace validation of recorded executions"
NOTE = ("Every recorded command of randomly generated histories of the real "
        "program is checked against the clauses of the TLA+ specification; "
        "assurance is as wide as the histories that were recorded. Trusts "
        "the recorder's reading of the file system and databases.")

with open(os.path.join(HERE, "properties.jsonl"), "w") as file:
    for p in PROPERTIES:
        file.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for"]},
            "why_tests_cant": p["tests"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["how"]],
                "observe_at": p.get("at", []), "hook_needed": None}}) + "\n")

checks = []
for p in PROPERTIES:
    plan = plans.PLANS.get(p["id"])
    if not plan:
        print("unclaimed", p["id"])
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": plan.get("technique", TECHNIQUE),
        "level": plan.get("level", "model_checking"),
        "level_note": plan.get("note", NOTE)})
manifest = {
    "version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
    "not_applicable": [],
    "notes": "check.py PROPERTY TIER runs one check; see DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as file:
    json.dump(manifest, file, indent=1)
    file.write("\n")
