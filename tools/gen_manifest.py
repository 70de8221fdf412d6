#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 -c 'import run, checks'",
     "hooks": {"guard": "VERIF_HOOKS", "enable": "not used: no hooks were needed in /repo, the public headers are driven as they are",
               "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "All checks: python3 run.py <id> --tier quick|thorough; a reported violation is replayed with --replay <path>."}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p,
                            "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
