#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and lib/registry.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.NOTES:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": getattr(registry, "TECHS", {}).get(i, registry.TECH),
                       "level": registry.LEVEL.get(i, "proof"), "level_note": registry.NOTES[i]})
    else: na.append({"property": i, "reason": getattr(registry, "NA", {}).get(i, "contracts for this property are not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "", "enable": "", "source_commits": []},
     "notes": "No hooks in /repo: contracts are attached to the real functions from /verif at goto-program level on every run."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
