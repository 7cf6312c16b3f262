#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks/*.cpp."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NOTE = {}
if os.path.exists(R + "/tools/notes.json"): NOTE = json.load(open(R + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{R}/checks/{i}.cpp") and i not in sys.argv[1:]:
        n = NOTE.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick", thorough_cmd=f"python3 run.py {i} --tier thorough",
            technique=n.get("technique", "property-based testing: random structured generation with shrinking against an independent reference model"),
            level="exploration",
            level_note=n.get("note", "Holds on every generated case (counts in the evidence file); inputs are small, so it relies on defects showing at small sizes. Trusts the dense/set reference code in harness/oracle.hpp and the compiler; one of the two builds runs under address and undefined-behaviour sanitizers.")))
    else: na.append(dict(property=i, reason=NOTE.get(i, {}).get("na", "no check built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="Checks build checks/<id>.cpp against /repo/include. No hooks are needed in /repo. run.py <id> --replay FILE replays a recorded failure.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed", len(na), "not")
