"""probe.py SPEC.py [ids]: SPEC has PROBES=[(id, prop(s), [(file,old,new)...])]; runs quick check on a mutated copy."""
import sys, os, subprocess, shutil, importlib.util, concurrent.futures as cf, glob
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want = [a for a in sys.argv[2:] if not a.startswith("-")]
J = int(os.environ.get("J", "3")); W = os.environ.get("W", "2")
def run(p):
    id, props, edits = p
    d = f"/tmp/pr/{id}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/pr", exist_ok=True)
    subprocess.run(["cp", "-a", "/tmp/rw", d], check=True)
    try:
        pyx = False
        for f, old, new in edits:
            t = open(f"{d}/{f}").read()
            if t.count(old) != 1:
                return f"{id}: EDIT matches {t.count(old)} in {f}: {old[:50]!r}"
            open(f"{d}/{f}", "w").write(t.replace(old, new)); pyx |= f.endswith(".pyx")
        if pyx:
            r = subprocess.run(f"cd {d} && . /opt/vp/lib/env.sh && $PY setup.py build_ext --inplace", shell=True, capture_output=True, text=True)
            if r.returncode: return f"{id}: BUILD FAILED {r.stderr[-300:]}"
        out = []
        for prop in props.split(","):
            env = dict(os.environ, VERIF_REPO=d, VERIF_FAILFAST="1", VERIF_NORECORD="1")
            r = subprocess.run(["python3", "run_check.py", prop, "--tier", "quick", "--seed", "1", "--workers", W], cwd="/tmp/vw", env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            det = [l for l in (r.stdout + r.stderr).splitlines() if "mech" in l or "mechanism" in l][:1]
            out.append(f"{prop} rc={r.returncode} {'CAUGHT' if r.returncode==1 else 'MISSED' if r.returncode==0 else 'NOANSWER '+r.stderr[-200:]} {det}")
        return f"{id}: " + " | ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
P = [p for p in m.PROBES if not want or p[0] in want]
with cf.ThreadPoolExecutor(J) as ex:
    for r in ex.map(run, P): print(r, flush=True)
