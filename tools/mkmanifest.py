#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plan."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "harness"))
import plan
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
NOTE = plan.NOTES
m = {"version": 1, "setup_cmd": "python3 harness/build_lazyfs.py", "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications in spec/, checked with TLC, bound to the unmodified lazyfs binary over the FUSE protocol (harness/). No hooks in /repo."}
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        m["checks"].append({"property": i, "quick_cmd": f"python3 harness/check.py {i} quick", "thorough_cmd": f"python3 harness/check.py {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": plan.TECHNIQUE.get(i, plan.TECHNIQUE[""]), "level": "model_checking",
                            "level_note": NOTE.get(i, NOTE[""])})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
