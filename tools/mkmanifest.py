#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PENDING = {}
NOTE = ("TLC enumerates every sequence of operations of a property-specific menu up to a fixed depth in the TLA+ specification, "
        "checks the property on every transition, and every transition is replayed into the real code; seeded random histories "
        "recorded from the real code (with values and situations beyond the menus) are validated step by step against the same "
        "specification.  Complete within the menus and depths stated in the evidence file, sampled beyond them; trusts TLC, the "
        "recording harness, and that the library is used from one thread.")
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] in PENDING:
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 /verif/check.py {p['id']} quick",
                   "thorough_cmd": f"python3 /verif/check.py {p['id']} thorough",
                   "technique": "TLA+ specification checked with TLC; model transitions replayed into the code, recorded histories validated against the specification",
                   "level": "model_checking", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in PENDING.items()],
     "notes": "No hooks in /repo: the checks use the public interface. Known findings and repairs: /verif/known_findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
