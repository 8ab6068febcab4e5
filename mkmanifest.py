#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the obligation registry (run by hand, not by checks)."""
import json, sys
sys.path[:0] = ["engine", "specs", "checks"]
import manifest_data as M
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for p in props:
    if p in M.CLAIMED:
        checks.append({"property": p, "quick_cmd": "python3 checks/run.py %s" % p,
                       "thorough_cmd": "python3 checks/run.py %s --thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": M.CLAIMED[p][0], "level": "other", "level_note": M.CLAIMED[p][1]})
na = [{"property": p, "reason": M.NA.get(p, "no static decision procedure is registered for it yet")} for p in props if p not in M.CLAIMED]
json.dump({"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": checks, "not_applicable": na, "notes": M.NOTES}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
