#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
import props as PR
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    c = PR.PROPS.get(i)
    if c is None:
        na.append({"property": i, "reason": PR.NOT_APPLICABLE[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "contract-based deductive verification: contracts on the Go functions, translated with the current source to Verus and discharged by Z3" + (" (" + c["technique_note"] + ")" if c.get("technique_note") else ""),
        "level": c.get("level", "proof"),
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the contracts live in /verif/contracts and are attached to the functions of /repo by name on every run. Findings: known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
