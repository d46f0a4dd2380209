#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py (run by hand after adding a property)."""
import json, os
import props
here = os.path.dirname(os.path.abspath(__file__))
checks = []
for pid, s in sorted(props.PROPS.items()):
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": s["technique"], "level": s.get("level", "model_checking"), "level_note": s["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(props.NOT_APPLICABLE.items())],
     "notes": "No hooks: the library is header-only and every seam the checks need is reachable from a translation unit of their own. Repairs of genuine defects are the 'fix:' commits listed in known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
ids = {json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))}
claimed = set(props.PROPS) | set(props.NOT_APPLICABLE)
print(len(checks), "checks; unclaimed:", sorted(ids - claimed), "unknown:", sorted(claimed - ids))
