#!/usr/bin/env python3
"""Writes MANIFEST.json from plans.PLANS (development helper)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = [dict(property=p, quick_cmd="python3 checks/run.py %s --tier quick" % p, thorough_cmd="python3 checks/run.py %s --tier thorough" % p,
               technique=plans.PLANS[p]["technique"], level=plans.PLANS[p]["level"], level_note=plans.PLANS[p].get("note", plans.NOTE)) for p in ids if p in plans.PLANS]
na = [dict(property=p, reason="check not built yet") for p in ids if p not in plans.PLANS]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="Every check builds its own harness from /repo's working tree, runs it, and lets TLC judge the recorded events against spec/*.tla."), open(V + "/MANIFEST.json", "w"), indent=1)
