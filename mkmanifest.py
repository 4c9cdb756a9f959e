#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
import checks
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 setup.py",
     "checks": [], "not_applicable": [],
     "notes": "TLA+ (TLC). run.py <id> runs the check of a property; checks.py says what each one explores; spec/ is the specification, harness/ replays its behaviours on /repo/include. No hooks are needed in /repo."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                            "technique": c.get("technique", checks.TECHNIQUE), "level": "model_checking",
                            "level_note": c.get("note", checks.NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "not claimed yet: its check is being built")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
