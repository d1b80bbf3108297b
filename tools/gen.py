#!/usr/bin/env python3
"""Regenerate /verif/properties.jsonl and /verif/MANIFEST.json from props_*.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props_b  # noqa
from meta import META  # noqa
P = props_b.P
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fp:
    for p in P:
        fp.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")) and i in META:
        tech, note = META[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run_check.py {i} --tier quick",
                           thorough_cmd=f"python3 run_check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="its monitor is still being built; not claimed yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks are needed: every monitor observes the public API, files on disk, or sanitizer reports of extensions rebuilt with instrumentation in a scratch copy.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
print(len(checks), "checks;", len(na), "unclaimed")
