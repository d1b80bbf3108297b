"""Run a share of the cases of one check in this process (started by run_check.py)."""
import faulthandler
import importlib
import json
import logging
import os
import sys
import time
import traceback
import warnings


def watch(tree):
    """Record which functions and lines of the tree's Python code run (each line reports itself once)."""
    root = os.path.join(tree, "mass") + os.sep
    lines, funcs = {}, {}
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return lines, funcs

    def line(code, n):
        if code.co_filename.startswith(root):
            lines.setdefault(code.co_filename[len(root):], set()).add(n)
        return mon.DISABLE

    def start(code, offset):
        if code.co_filename.startswith(root) and code.co_name != "<module>":
            funcs.setdefault(code.co_filename[len(root):], set()).add(code.co_qualname)
        return mon.DISABLE

    tool = mon.COVERAGE_ID
    mon.use_tool_id(tool, "observed code")
    mon.register_callback(tool, mon.events.LINE, line)
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.LINE | mon.events.PY_START)
    return lines, funcs


def main():
    cfg = json.loads(sys.argv[1])
    faulthandler.enable(open(cfg["status"] + ".fault", "w"))
    # keep the program's chatter out of the check's own output
    chatter = open(os.devnull, "w")
    if not cfg.get("verbose"):
        sys.stdout = chatter
        sys.stderr = open(cfg["status"] + ".stderr", "a")
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")
    import matplotlib
    matplotlib.use("agg")
    import mass
    assert os.path.abspath(mass.__file__).startswith(cfg["tree"]), mass.__file__
    from vlib import core
    importlib.import_module("checks." + cfg["prop"].lower())
    mons = core.REGISTRY
    if cfg.get("monitors"):
        mons = [m for m in mons if m.name in cfg["monitors"]]
    plan = []
    if cfg.get("replay"):
        m = next(m for m in mons if m.name == cfg["replay"]["monitor"])
        plan = [(m, cfg["replay"]["index"])]
    else:
        for m in mons:
            n = m.quick if cfg["tier"] == "quick" else m.thorough
            for i in range(n):
                plan.append(((i + 0.5) / n, m.name, i, m))
        plan.sort(key=lambda t: t[:3])
        plan = [(m, i) for _, _, i, m in plan]
        plan = plan[cfg["worker"]::cfg["nworkers"]]
    t0 = time.time()
    out = open(cfg["out"], "a")
    lines, funcs = watch(cfg["tree"])
    for k, (m, i) in enumerate(plan):
        if k < cfg.get("skip", 0):
            continue
        if time.time() > cfg["deadline"]:
            break
        with open(cfg["status"] + ".new", "w") as fp:
            json.dump(dict(monitor=m.name, index=i, k=k, t=time.time()), fp)
        os.replace(cfg["status"] + ".new", cfg["status"])
        ctx = core.Ctx(cfg["prop"], m.name, cfg["seed"], i, cfg["tier"], cfg["tmp"])
        tc = time.time()
        try:
            m.func(ctx)
        except core.StopCase:
            pass
        except MemoryError:
            raise
        except Exception as e:
            tb = traceback.format_exc()
            ctx.fail(f"exception:{type(e).__name__}", f"{type(e).__name__}: {e}", traceback=tb[-2500:])
        finally:
            ctx.cleanup()
            try:
                import matplotlib.pyplot as plt
                plt.close("all")
            except Exception:
                pass
        rec = dict(m=m.name, i=i, k=k, evals=ctx.evals, counters=ctx.counters, keys=sorted(ctx.keys),
                   violations=ctx.violations[:4], nviol=len(ctx.violations), dt=round(time.time() - tc, 4))
        if i < 2:
            rec["sample"] = core.jsonable(ctx.case)
        out.write(json.dumps(rec) + "\n")
        out.flush()
        if ctx.violations and os.environ.get("VERIF_FAILFAST"):     # (for mutate.py only)
            break
    out.write(json.dumps(dict(done=True, planned=len(plan), wall=time.time() - t0,
                              lines={f: sorted(v) for f, v in lines.items()},
                              funcs={f: sorted(v) for f, v in funcs.items()})) + "\n")
    out.flush()
    out.close()
    os._exit(0)


if __name__ == "__main__":
    main()
