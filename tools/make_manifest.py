"""Write MANIFEST.json for the properties that have checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
from gen import PROPS

NOTES = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": "TLA+ model checking (TLC) with trace validation of the implementation",
            "level": "model_checking",
            "level_note": NOTES.get(i, NOTES["default"]),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
