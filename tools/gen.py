#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (development aid; the results are committed)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import NA, PROPS

with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "state": [], "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for p in PROPS:
    if p["id"] in NA:
        man["not_applicable"].append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    man["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                          "thorough_cmd": "python3 check.py %s thorough" % p["id"], "technique": p["technique"],
                          "level": p["level"], "level_note": p["note"]})
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
import jsonschema

jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(V + "/properties.jsonl"):
    jsonschema.validate(json.loads(l), s)
print(len(PROPS), "properties,", len(man["checks"]), "claimed")
