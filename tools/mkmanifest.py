#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and notes.py; every listed property is claimed or explained."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from plan import PLAN
from notes import NOTES, COMMON
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "..", "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         checks=[dict(property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
                      technique=PLAN[i]["technique"], level="model_checking", level_note=NOTES[i] + " " + COMMON) for i in ids if i in PLAN],
         not_applicable=[dict(property=i, reason="its check is still being built") for i in ids if i not in PLAN],
         notes="TLA+ checked with TLC. No hooks: the public API shows the abstract state. See DESIGN.md.")
for i in PLAN: assert i in ids, i
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
