"""Try planted bugs: python3 tools/seed.py SPEC.py [ids...] [--notest] [--keep]
SPEC defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=python text)]."""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "cbd728e"
DEMO = """#!/bin/bash
# exit 0: the property holds for this input; anything else: it does not
here=$(cd "$(dirname "$0")" && pwd)
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg OPENBLAS_NUM_THREADS=1 /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def env():
    e = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", SETUPTOOLS_SCM_PRETEND_VERSION="0.8.6",
             MPLCONFIGDIR="/opt/vp/cache/matplotlib", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LANG="C.UTF-8")
    e["PATH"] = "/opt/venv/bin:" + e["PATH"]
    for k in ("PYTHONPATH", "MPLBACKEND", "VERIF_REPO"):
        e.pop(k, None)
    return e


def one(s, dotest, keep):
    out = [f"== {s['id']} ({s['prop']})"]
    d = f"/tmp/mut_{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    sh(["cp", "-a", "/repo", d])
    try:
        for path, old, new in s["edits"]:
            p = os.path.join(d, path)
            t = open(p).read()
            if t.count(old) != 1:
                return "\n".join(out + [f"  EDIT {path}: {t.count(old)} matches of {old[:60]!r}"])
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "-C", d, "diff"]).stdout
        # changed lines must be original ones
        for path in {e[0] for e in s["edits"]}:
            orig = set(sh(["git", "-C", d, "show", f"{BASE}:{path}"]).stdout.splitlines())
            sec = diff.split(f"+++ b/{path}\n", 1)[1].split("\ndiff --git", 1)[0]
            for ln in sec.splitlines():
                if ln.startswith("-") and not ln.startswith("---") and ln[1:] not in orig:
                    out.append(f"  NOTE removes a line that is not original: {ln[1:].strip()[:90]}")
        if any(e[0].endswith(".pyx") for e in s["edits"]):
            r = sh([PY, "setup.py", "-q", "build_ext", "--inplace"], cwd=d, env=env())
            if r.returncode:
                return "\n".join(out + ["  BUILD FAILED " + r.stderr[-600:]])
        t = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(t, exist_ok=True)
        open(os.path.join(t, "patch.diff"), "w").write(diff)
        open(os.path.join(t, "demo.sh"), "w").write(DEMO)
        open(os.path.join(t, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(t, "meta.json"), "w"), indent=1)
        a = sh(["bash", os.path.join(t, "demo.sh")], cwd="/repo", env=env())
        b = sh(["bash", os.path.join(t, "demo.sh")], cwd=d, env=env())
        out.append(f"  demo: unchanged {a.returncode} patched {b.returncode}   {(a.stderr.strip().splitlines() or [''])[-1][:150] if a.returncode else ''} | {(b.stderr.strip().splitlines() or [''])[-1][:150]}")
        ok = a.returncode == 0 and b.returncode != 0
        if dotest:
            x = f"{d}/.junit.xml"
            sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "--tb=no", "-o", "junit_family=xunit2", f"--junitxml={x}"], cwd=d, env=dict(env(), PYTHONPATH=d))
            good = set()
            for tc in ET.parse(x).getroot().iter("testcase"):
                if not any(c.tag in ("failure", "error", "skipped") for c in tc):
                    good.add(f"{tc.get('classname')}::{tc.get('name')}")
            stable = [z for z in json.load(open("/opt/vp/BASELINE.json"))["stable"] if not z.startswith("doctest")]
            miss = [z for z in stable if z not in good]
            out.append(f"  tests: {len(stable) - len(miss)}/{len(stable)} stable pass {miss[:4]}")
            ok = ok and not miss
        r = sh([PY, os.path.join(ROOT, "run_check.py"), s["prop"], "--seed", "1"], env=dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick", VERIF_SEED="1"), cwd=ROOT)
        caught = r.returncode == 1 and f"VIOLATION property={s['prop']}" in r.stdout
        lines = [ln for ln in r.stdout.splitlines() if ln.startswith("  [")]
        out.append(f"  check: rc {r.returncode} {'CAUGHT' if caught else 'MISSED'} {lines[0][:220] if lines else r.stdout[-200:] + r.stderr[-300:]}")
        out.append(f"  => {'counts' if ok else 'DOES NOT COUNT'}, {'caught' if caught else 'missed'}")
        if not ok:
            shutil.rmtree(t)
        return "\n".join(out)
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    spec = importlib.util.spec_from_file_location("spec", args[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = [s for s in m.SEEDS if len(args) < 2 or s["id"] in args[1:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda s: one(s, "--notest" not in sys.argv, "--keep" in sys.argv), todo):
            print(r, flush=True)
