#!/usr/bin/env python3
"""Regenerate known_findings.json from the list below (development tool; no check runs it)."""
import json
import os
import subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property of each fix: commit, by the commit's abbreviated hash; the subject is the description
FIXED = json.load(open(os.path.join(ROOT, "tools", "fixed.json")))
KNOWN = json.load(open(os.path.join(ROOT, "tools", "known.json")))
REVERTED = {"6434d14"}      # (its revert says why)
out = []
import sys  # noqa
if len(sys.argv) > 2:      # findings.py C06 hash... : assign fixes, described by their commit subjects
    for h in sys.argv[2:]:
        s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%s", h], capture_output=True, text=True, check=True).stdout.strip()
        FIXED[h] = [sys.argv[1], "before it: not true that " + s[5:] if False else "repair: " + s[5:]]
    with open(os.path.join(ROOT, "tools", "fixed.json"), "w") as fp:
        json.dump(FIXED, fp, indent=1)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True, check=True).stdout
seen = set()
for line in log.splitlines():
    h, s = line.split("\t", 1)
    if not s.startswith("fix:"):
        continue
    if h in REVERTED:
        continue
    if h not in FIXED:
        print("UNASSIGNED", h, s)
        continue
    seen.add(h)
    p, what = FIXED[h]
    out.append(dict(property=p, mech="(fixed)", status="fixed", commit=h, what=f"fixed: property={p} {h} {what}"))
for h in set(FIXED) - seen:
    print("STALE", h)
for k in KNOWN:
    out.append(dict(k, status="known"))
with open(os.path.join(ROOT, "known_findings.json"), "w") as fp:
    json.dump({"findings": out}, fp, indent=1)
    fp.write("\n")
print(len(out), "entries")
