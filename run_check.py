#!/usr/bin/env python3
"""run_check.py PROP [--tier quick|thorough] [--seed N] [--replay FILE] [--monitors a,b]

Rebuilds mass from /repo's working tree in a scratch folder, runs the monitors of one property in
parallel worker processes against it, merges what they observed, and gives the verdict.
Exit 0: held on everything explored. 1: violated (VIOLATION line). 2: build/harness error. 3: inconclusive.
"""
import argparse
import importlib.util
import json
import os
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import build as vbuild  # noqa: E402

HANG = float(os.environ.get("VERIF_HANG", "150"))


class Worker:
    def __init__(self, cfg, env):
        self.cfg = dict(cfg)
        self.env = env
        self.proc = None
        self.start()

    def start(self):
        self.t_start = time.time()
        self.last = None
        self.proc = subprocess.Popen([vbuild.PY, "-m", "vlib.worker", json.dumps(self.cfg)], cwd=self.cfg["cwd"], env=self.env,
                                     stdout=None if self.cfg.get("verbose") else subprocess.DEVNULL,
                                     stderr=None if self.cfg.get("verbose") else open(self.cfg["status"] + ".stderr", "a"),
                                     start_new_session=True)

    def current(self):
        # (a worker may be rewriting the file: then the last state read stands)
        try:
            with open(self.cfg["status"]) as fp:
                self.last = json.load(fp)
        except Exception:
            pass
        return self.last

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()


def tail(path, n=3000):
    try:
        with open(path, errors="replace") as fp:
            return fp.read()[-n:]
    except OSError:
        return ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--monitors")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--tree", help="use an already built tree (development only)")
    ap.add_argument("-v", "--verbose", action="store_true")
    args = ap.parse_args()
    prop = args.prop.upper()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    spec = importlib.util.find_spec("checks." + prop.lower())
    if spec is None:
        print(f"no check for {prop}")
        return 2
    # the module's BUILD / RULE / ASSUMPTIONS constants are read without importing mass
    meta = {}
    with open(spec.origin) as fp:
        src = fp.read()
    import ast
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and getattr(node.targets[0], "id", "") in (
                "BUILD", "RULE", "ASSUMPTIONS", "LEVEL", "BUDGET"):
            meta[node.targets[0].id] = ast.literal_eval(node.value)
    replay = None
    if args.replay:
        with open(args.replay) as fp:
            replay = json.load(fp)
        args.seed = replay["seed"]
        tier = replay.get("tier", tier)
    budget = args.budget or meta.get("BUDGET", {}).get(tier) or (300 if tier == "quick" else 700)

    scratch = vbuild.make_scratch()
    workers = []
    try:
        env = vbuild.base_env()
        kind = meta.get("BUILD", "plain")
        if args.tree:
            tree = os.path.abspath(args.tree)
        elif kind == "plain":
            tree = vbuild.build(scratch)
        elif kind == "fast":
            tree = vbuild.build(scratch, cflags="-O0 -w")
        elif kind == "asan":
            from vlib import asan
            tree = asan.build(scratch)
            asan.environment(env, scratch)
        else:
            raise RuntimeError(kind)
        t_build = time.time() - t0
        env["PYTHONPATH"] = tree + ":" + HERE
        env["VERIF_TREE"] = tree
        env["TMPDIR"] = os.path.join(scratch, "tmp")
        env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
        env["VERIF_CHECK"] = prop
        os.makedirs(env["TMPDIR"])
        os.makedirs(env["MPLCONFIGDIR"])
        nw = 1 if replay else max(1, args.workers)
        deadline = time.time() + budget
        for w in range(nw):
            cwd = os.path.join(scratch, f"cwd{w}")
            os.makedirs(cwd)
            cfg = dict(prop=prop, worker=w, nworkers=nw, seed=args.seed, tier=tier, deadline=deadline, tree=tree,
                       tmp=env["TMPDIR"], cwd=cwd, out=os.path.join(scratch, f"out{w}.jsonl"),
                       status=os.path.join(scratch, f"status{w}"), replay=replay, verbose=args.verbose,
                       monitors=args.monitors.split(",") if args.monitors else None)
            workers.append(Worker(cfg, env))
        violations = []
        harness_errors = []
        crashes = 0
        live = list(workers)
        while live:
            time.sleep(0.05)
            for wk in list(live):
                rc = wk.proc.poll()
                cur = wk.current()
                if rc is None:
                    started = cur["t"] if cur else wk.t_start
                    if time.time() - max(started, wk.t_start) > HANG:
                        wk.kill()
                        if cur is None:
                            harness_errors.append("a worker never started")
                            live.remove(wk)
                            continue
                        # confirm alone before calling it a hang
                        solo = Worker(dict(wk.cfg, replay=dict(monitor=cur["monitor"], index=cur["index"]), out=wk.cfg["out"] + ".solo",
                                           status=wk.cfg["status"] + ".solo", deadline=time.time() + 2 * HANG), env)
                        try:
                            solo.proc.wait(timeout=HANG)
                            harness_errors.append(f"case {cur['monitor']}[{cur['index']}] exceeded {HANG}s once")
                        except subprocess.TimeoutExpired:
                            violations.append(dict(mech="hang", msg=f"no result within {HANG}s, twice", case={}, details={},
                                                   monitor=cur["monitor"], index=cur["index"], seed=args.seed))
                        solo.kill()
                        live.remove(wk)
                    continue
                live.remove(wk)
                if rc == 0:
                    continue
                err = tail(wk.cfg["status"] + ".stderr")
                if cur is None:
                    harness_errors.append(f"worker exited {rc} before its first case:\n{err}")
                    continue
                crashes += 1
                logs = tail(wk.cfg["status"] + ".fault", 1500)
                asanlog = ""
                for f in sorted(os.listdir(scratch)):
                    if f.startswith("asan.") and f.endswith("." + str(wk.proc.pid)):
                        asanlog = tail(os.path.join(scratch, f), 6000)
                if rc < 0 or asanlog:
                    violations.append(dict(mech="crash" if not asanlog else "sanitizer",
                                           msg=f"the process died (exit {rc}) in {cur['monitor']}[{cur['index']}]\n" + (asanlog[:3000] or logs),
                                           case={}, details=dict(stderr=err[-800:]), monitor=cur["monitor"], index=cur["index"], seed=args.seed))
                else:
                    harness_errors.append(f"worker exit {rc} in {cur}:\n{err}")
                if crashes < 6 and rc < 0 or asanlog:
                    nxt = Worker(dict(wk.cfg, skip=cur["k"] + 1), env)
                    live.append(nxt)
                    workers.append(nxt)
        # merge
        per = {}
        keys = set()
        counters = {}
        samples = []
        evals = 0
        ncase = 0
        planned = 0
        ndone = 0
        code = {}
        for w in range(nw):
            try:
                fp = open(os.path.join(scratch, f"out{w}.jsonl"))
            except OSError:
                continue
            for line in fp:
                rec = json.loads(line)
                if rec.get("done"):
                    planned += rec["planned"]
                    ndone += 1
                    for what in ("lines", "funcs"):
                        for f, v in rec.get(what, {}).items():
                            code.setdefault(f, dict(lines=set(), funcs=set()))[what].update(v)
                    continue
                ncase += 1
                d = per.setdefault(rec["m"], dict(cases=0, observations=0, seconds=0.0, slowest=0.0))
                d["cases"] += 1
                d["observations"] += rec["evals"]
                d["seconds"] = round(d["seconds"] + rec["dt"], 3)
                d["slowest"] = max(d["slowest"], rec["dt"])
                evals += rec["evals"]
                keys.update(rec["keys"])
                for k, v in rec["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                violations.extend(rec["violations"])
                if "sample" in rec and rec["sample"] and len(samples) < 12:
                    samples.append(dict(monitor=rec["m"], index=rec["i"], case=rec["sample"]))
            fp.close()
        # known findings
        known = []
        kp = os.path.join(HERE, "known_findings.json")
        if os.path.exists(kp):
            with open(kp) as fp:
                known = [k for k in json.load(fp)["findings"] if k["property"] == prop and k.get("status") == "known"]
        unlisted = []
        seen_known = {}
        for v in violations:
            k = next((k for k in known if k["mech"] == v["mech"] and k.get("monitor", v["monitor"]) == v["monitor"]), None)
            if k:
                seen_known.setdefault(k["mech"], [k, 0])[1] += 1
            else:
                unlisted.append(v)
        for k, n in seen_known.values():
            print(f"KNOWN-FINDING: property={prop} {k['what']} (observed in {n} observations)")
        wall = time.time() - t0
        mons = expected_monitors(src) if not args.monitors else set(args.monitors.split(","))
        missing = sorted(m for m in mons if per.get(m, {}).get("observations", 0) == 0) if not replay else []
        ev = dict(property=prop, tier=tier, seed=args.seed, level=meta.get("LEVEL", "exploration"),
                  coverage=dict(evaluations=ncase, distinct_nontrivial=len(keys), rule=meta.get("RULE", ""),
                                samples=samples or ["(none)"], oracle_observations=evals, monitors=per, observed=counters,
                                code_run={f: dict(functions=len(v["funcs"]), lines=len(v["lines"])) for f, v in sorted(code.items())},
                                cases_planned=planned, build_seconds=round(t_build, 2), known_findings_seen=sorted(seen_known)),
                  assumptions=meta.get("ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(unlisted))
        if os.environ.get("VERIF_CODE"):        # (development: which lines ran, in full)
            with open(os.environ["VERIF_CODE"], "w") as fp:
                json.dump({f: {k: sorted(s) for k, s in v.items()} for f, v in code.items()}, fp)
        if not replay and not os.environ.get("VERIF_NORECORD"):
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fp:
                json.dump(ev, fp, indent=1, sort_keys=True)
        print(f"{prop} {tier} seed={args.seed}: {ncase} cases ({len(keys)} distinct non-trivial), {evals} observations, "
              f"{len(unlisted)} violations, {len(seen_known)} known findings, {wall:.1f}s")
        for m, d in sorted(per.items()):
            print(f"  {m}: {d}")
        if unlisted:
            rd = os.path.join(HERE, "replays") if not os.environ.get("VERIF_NORECORD") else scratch
            os.makedirs(rd, exist_ok=True)
            shown = set()
            n = 0
            for v in unlisted:
                key = (v["monitor"], v["mech"])
                if key in shown or n >= 12:
                    continue
                shown.add(key)
                path = os.path.join(rd, f"{prop}-{v['monitor']}-{n}.json")
                with open(path, "w") as fp:
                    json.dump(dict(v, property=prop, tier=tier, command=f"python3 run_check.py {prop} --replay {path}"), fp, indent=1)
                print(f"  [{v['mech']}] {v['monitor']}[{v['index']}]: {v['msg'][:600]}")
                if args.verbose or replay:
                    print(json.dumps(v, indent=1)[:6000])
                print(f"VIOLATION property={prop} replay={path}")
                n += 1
            return 1
        if harness_errors:
            print("HARNESS ERROR:\n" + "\n".join(harness_errors)[:6000])
            return 2
        if missing and not replay:
            print(f"INCONCLUSIVE: monitors that observed nothing: {missing}")
            return 3
        return 0
    finally:
        for wk in workers:
            if wk.proc.poll() is None:
                wk.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def expected_monitors(src):
    import ast
    out = set()
    for node in ast.parse(src).body:
        if isinstance(node, ast.FunctionDef):
            for d in node.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "monitor":
                    out.add(node.name)
    return out


if __name__ == "__main__":
    sys.exit(main())
