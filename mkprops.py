#!/usr/bin/env python3
"""Writes properties.jsonl and techniques.json from the table below (ids, statements, anchors), then MANIFEST.json."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
MC = "src/MEDCoupling/"
ML = "src/MEDLoader/"
IK = "src/INTERP_KERNEL/"
P, T = [], {}


def prop(i, title, statement, over, text, why, files, mech, observe, technique, note, hook=None):
    assert len(title) <= 80, (i, len(title))
    P.append({"id": i, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})
    T[i] = {"technique": technique, "note": note}


NOTE = "Held on the generated executions only; the reference definitions in props/ are trusted."
exec(open(HERE + "/props.table.py").read())
with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
json.dump(T, open(HERE + "/techniques.json", "w"), indent=1)
sys.exit(subprocess.call([sys.executable, HERE + "/mkmanifest.py"]))
