#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks and properties.jsonl."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
from checks import CHECKS, NOTES  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(VERIF, "properties.jsonl")) if x.strip()]
checks, missing = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        missing.append({"property": i, "reason": "its specification is not written yet"})
        continue
    technique, note = NOTES[i]
    checks.append({"property": i, "quick_cmd": "python3 run.py %s --quick" % i,
                   "thorough_cmd": "python3 run.py %s --thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": technique, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": missing,
     "notes": "Specification in TLA+ (spec/), checked with TLC; driver in harness/; see DESIGN.md. "
              "No hooks in /repo: everything is observed through the public interface."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "not claimed")
