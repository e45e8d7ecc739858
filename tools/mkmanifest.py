#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and targets.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import build as B
from tools_notes import NOTES
claimed = {p: t for t, ps in B.CHECKS.items() for p in ps}
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in claimed:
        tech, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": "property-based testing: " + tech,
                       "level": "exploration", "level_note": note})
    else:
        na.append({"property": p, "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "python3 build.py all", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks compile /repo's sources as they are, with sanitizers, against harnesses in /verif/src."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
