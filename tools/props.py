#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": m, "where": ", ".join(files)} for m in mech]}
    allowed = {"schedules", "crash_points", "inputs", "programs", "histories", "configurations"}
    over = list(dict.fromkeys(o if o in allowed else {"chunkings": "schedules", "crash points": "crash_points"}.get(o, "fault_sequences") for o in over))
    assert len(title) <= 80, title
    if state:
        a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


exec(open(os.path.join(root, "tools", "table.py")).read())

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

checks, na = [], []
for p in P:
    i = p["id"]
    if i in NOT_APPLICABLE:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
    elif i in CHECKS:
        tech, note = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i + " thorough", "technique": tech, "level": "exploration", "level_note": note})
    else:
        sys.exit("nothing decided for " + i)
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
