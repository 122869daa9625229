#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py (the single source of the property texts)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from meta import PROPS, NOT_APPLICABLE, NOTES
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        mech = [dict(name=n, where=w) for n, w in p["mech"]]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": mech, "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
checks, na = [], list(NOT_APPLICABLE)
for p in PROPS:
    if not os.path.exists(os.path.join(here, "props", p["id"] + ".py")):
        if not any(n["property"] == p["id"] for n in na):
            na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check {p['id']} --tier quick",
        "thorough_cmd": f"./check {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p.get("technique", "explicit-state model checking of the elaborated netlist (exhaustive BFS of design x environment x oracle), replayed in the amaranth simulator"),
        "level": "model_checking",
        "level_note": p["note"],
    })
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
