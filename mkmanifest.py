#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os
import plan
ROOT = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = getattr(plan, "NOT_APPLICABLE", {})
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none", enable="no hooks: the public API is observable enough; checks build /repo as it is", source_commits=[]),
         checks=[dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="VERIF_TIER=thorough ./check %s" % i,
                      evidence_file="evidence/%s.json" % i, technique=plan.PLAN[i]["technique"], level=plan.PLAN[i]["level"],
                      level_note=plan.PLAN[i]["note"]) for i in ids if i in plan.PLAN],
         not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in plan.PLAN])
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
