#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plan

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in plan.CHECKS:
        c = plan.CHECKS[p]
        checks.append({
            "property": p,
            "quick_cmd": "python3 tools/check.py %s quick" % p,
            "thorough_cmd": "python3 tools/check.py %s thorough" % p,
            "technique": c.get("technique", plan.TECHNIQUE[c["crate"]]),
            "level": c["level"],
            "level_note": c.get("note", plan.NOTE[c["crate"]]),
        })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": plan.NOT_APPLICABLE[p]} for p in props if p not in plan.CHECKS],
    "notes": "No hooks: the harness crates use the public API of /repo/wayfinder only. Open findings are in known-findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in m["not_applicable"]], "not applicable")
