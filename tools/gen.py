#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": NOT_APPLICABLE}
for p in PROPS:
    if p["id"] in na or not p.get("claimed", True):
        continue
    m["checks"].append({
        "property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "contract-based deductive verification of the Go source (govc: SSA verification conditions discharged by z3/cvc5)",
        "level": "proof", "level_note": p["note"]})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
