#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = getattr(checks, "NOT_APPLICABLE", {})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "See DESIGN.md. tools/run.py is the runner, tools/checks.py says which targets decide which property."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        s = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 tools/run.py {i} quick", "thorough_cmd": f"python3 tools/run.py {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": s["technique"], "level": "exploration", "level_note": s["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "its check is not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
