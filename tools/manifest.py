"""Writes MANIFEST.json from properties.jsonl and the checks present (run by hand after adding a check)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(HERE, "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": "no check has been built for it yet"})
        continue
    n = NOTES[pid]
    checks.append({"property": pid, "quick_cmd": f"./run {pid} --tier quick", "thorough_cmd": f"./run {pid} --tier thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": n[0], "level": "exploration", "level_note": n[1]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks import /repo's working tree directly (pure Python, nothing to build) and leave it untouched; no hooks were needed. Replay: ./run <id> --replay <file>. Known findings and repaired defects: known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
