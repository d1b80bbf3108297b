#!/usr/bin/env python3
"""Regenerate /verif/DESIGN.md from the properties, the monitors and the notes below (development tool; no check runs it)."""
import ast
import glob
import json
import os
import subprocess
import textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
import sys  # noqa
sys.path.insert(0, HERE)
import props_b  # noqa
from meta import META  # noqa
from design_notes import INTRO, NOTES, OUTRO  # noqa

KNOWN = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
out = [INTRO.strip(), ""]
out += ["## The properties, one by one", "",
        "For each: what is watched (the monitors, with their quick/thorough numbers of cases), how the cases are made, the oracle's assumptions, what tests cannot reach, limits and what was learnt on the way "
        "(false alarms that were corrected in the machinery, statements that were narrowed).", ""]
for p in props_b.P:
    i = p["id"]
    src = open(os.path.join(ROOT, "checks", i.lower() + ".py")).read()
    t = ast.parse(src)
    const = {}
    mons = []
    for n in t.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                const[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "monitor":
                    a = [ast.literal_eval(x) for x in d.args]
                    doc = (ast.get_docstring(n) or "").split("\n\n")[0].replace("\n", " ")
                    q = a[0]
                    th = a[1] if len(a) > 1 else None
                    mons.append(f"  - `{n.name}` ({q}{'/' + str(th) if th else ', more when thorough'}): {doc}")
    out.append(f"### {i}. {p['title']}")
    out.append(f"*{META[i][0].replace('runtime monitoring: ', 'Method: ')}.* {META[i][1].split(' Assurance:')[0]}")
    out.append("")
    out.append(f"- Watched in: {', '.join('`' + f + '`' for f in p['anchors']['files'])}; build: {const.get('BUILD', 'fast')}.")
    out.append(f"- Cases: {' '.join(const.get('RULE', '').split())}")
    if const.get("ASSUMPTIONS"):
        out.append("- Assumed: " + "; ".join(const["ASSUMPTIONS"]) + ".")
    out.append("- Monitors:")
    out += mons
    out.append("- Beyond the tests: " + p["why_tests_cant"])
    for n in NOTES.get(i, []):
        out.append("- " + n)
    fixed = [k for k in KNOWN if k["property"] == i and k["status"] == "fixed"]
    known = [k for k in KNOWN if k["property"] == i and k["status"] == "known"]
    seeds = sorted(os.path.basename(d) for d in glob.glob(os.path.join(ROOT, "seeded", i.lower() + "-*")))
    if fixed:
        out.append(f"- Defects found and repaired: {len(fixed)} (listed below).")
    for k in known:
        out.append(f"- KNOWN FINDING ({k['mech']}): {k['what']}.")
    if seeds:
        out.append("- Planted bugs caught (seeded/): " + ", ".join(seeds) + ".")
    out.append("")
out.append("## Planted changes and which checks catch them")
out.append("""
Two kinds. `seeded/` holds the formal ones (patch, demonstration, meta), each confirmed to keep the 189 tests passing. `tools/probes/*.py`
holds a larger number of small realistic edits (made by reading the code and the statements, without looking at the checks), applied one at
a time to a scratch copy by `tools/probe.py`, with the result recorded in `tools/probes/results.txt` (CAUGHT/MISSED per check, in its
latest run). Probes that remain missed were looked at one by one; see the remarks at the end of that file.
`tools/mutate.py` additionally made single-token mutants of whole modules; survivors were equivalent or led to new monitors.
""".strip())
res = os.path.join(ROOT, "tools", "probes", "results.txt")
if os.path.exists(res):
    tally = {}
    for line in open(res):
        if ": " not in line or line.startswith("#"):
            continue
        for part in line.split(": ", 1)[1].split(" | "):
            w = part.split()
            if len(w) > 2 and w[2] in ("CAUGHT", "MISSED"):
                tally.setdefault(w[0], [0, 0])[w[2] == "MISSED"] += 1
    out += ["", "| check | probes caught | not caught by this check (equivalent, or another check's) |", "|---|---|---|"]
    for k in sorted(tally):
        out.append(f"| {k} | {tally[k][0]} | {tally[k][1]} |")
out += ["", "## Genuine defects found and repaired", "",
        f"{sum(k['status'] == 'fixed' for k in KNOWN)} `fix:` commits in /repo, each found by a check (or by reading the code against a check's oracle) and confirmed against the real code; the existing tests pass, unedited, with all of them. "
        "They are listed by commit in `known_findings.json`; by property:", ""]
for p in props_b.P:
    f = [k for k in KNOWN if k["property"] == p["id"] and k["status"] == "fixed"]
    if f:
        out.append(f"- **{p['id']}**: " + "; ".join(k["what"].split("repair: ", 1)[-1] for k in f) + ".")
out += ["", OUTRO.strip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
print(sum(len(x) for x in out), "characters")
