#!/usr/bin/env python3
"""MANIFEST.json from checks.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
c = json.load(open(f"{V}/checks.json"))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": c["hooks"],
    "checks": [],
    "not_applicable": [{"property": i, "reason": c["not_applicable"].get(i, "no check built yet")} for i in ids if i not in c["properties"]],
    "notes": c.get("notes", ""),
}
for i in ids:
    if i in c["properties"]:
        k = c["properties"][i]
        m["checks"].append({
            "property": i, "quick_cmd": f"./check.py {i}", "thorough_cmd": f"./check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": k.get("technique", "Verus contracts on mechanically extracted functions, failing inputs from bounded runs on the real code"),
            "level": k["level"], "level_note": k["note"], "theorems": k.get("theorems", []),
        })
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
