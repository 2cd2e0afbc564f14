#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
na = json.load(open(HERE + "/not_applicable.json"))
tech = json.load(open(HERE + "/techniques.json"))
checks = []
for p in props:
    i = p["id"]
    if i in na:
        continue
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech[i]["technique"], "level": "exploration",
                   "level_note": tech[i]["note"]})
hooks = {"guard": "MEDCOUPLING_VERIF_HOOKS", "enable": "vt/build.py compiles /repo/src with -DMEDCOUPLING_VERIF_HOOKS",
         "source_commits": json.load(open(HERE + "/hooks.json"))}
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "hooks": hooks, "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
           "notes": "Every check builds the sanitized variant of /repo it needs under /verif/build (ignored by git); see DESIGN.md."},
          open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
