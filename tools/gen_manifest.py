#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402
props = [json.loads(x)["id"] for x in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 run.py --setup",
         checks=[dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
                      technique=CHECKS[i]["technique"], level=CHECKS[i]["level"],
                      level_note=CHECKS[i].get("note", CHECKS[i]["rule"]) + " Assumes: " + " ".join(CHECKS[i]["assumptions"]))
                 for i in props if i in CHECKS],
         not_applicable=[dict(property=i, reason="check not built yet") for i in props if i not in CHECKS],
         notes="No hooks in /repo: instrumentation is linked in (ld --wrap) or interposed by the checks. See DESIGN.md.")
if not m["not_applicable"]:
    del m["not_applicable"]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(m["checks"]), "checks")
