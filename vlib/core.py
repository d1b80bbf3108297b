"""Monitor registry and per-case context used by the check modules."""
import hashlib
import json
import os
import shutil
import tempfile

import numpy as np


class StopCase(Exception):
    """Raised by a monitor to abandon a case after a violation was recorded."""


class Monitor:
    def __init__(self, func, name, quick, thorough):
        self.func = func
        self.name = name
        self.quick = quick
        self.thorough = thorough


REGISTRY = []


def monitor(quick, thorough=None, name=None):
    """Register a monitor that is run `quick` (or `thorough`) times on different seeded cases."""
    def deco(func):
        REGISTRY.append(Monitor(func, name or func.__name__, quick, thorough if thorough is not None else quick * 12))
        return func
    return deco


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, np.ndarray):
        if x.size <= 60:
            return jsonable(x.tolist(), depth + 1)
        return f"array shape={x.shape} dtype={x.dtype} head={x.ravel()[:8].tolist()}"
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x) if np.isfinite(x) else str(x)
    if isinstance(x, float):
        return x if np.isfinite(x) else str(x)
    if isinstance(x, (int, str, bool, type(None))):
        return x
    if isinstance(x, bytes):
        return repr(x[:200])
    return str(x)[:300]


class Ctx:
    """What a monitor sees of one case: a seeded generator, a scratch folder, and the verdict sinks."""

    def __init__(self, prop, mon, seed, index, tier, tmproot):
        self.prop = prop
        self.monitor = mon
        self.seed = seed
        self.index = index
        self.tier = tier
        h = int.from_bytes(hashlib.sha256(f"{prop}/{mon}".encode()).digest()[:6], "big")
        self.rng = np.random.default_rng([seed & 0xFFFFFFFF, h, index])
        self._tmproot = tmproot
        self._tmp = None
        self.case = {}
        self.violations = []
        self.counters = {}
        self.keys = set()
        self.evals = 0

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="case_", dir=self._tmproot)
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def nontrivial(self, *key):
        """Record that this case (identified by key) was a distinct, non-trivial one."""
        h = hashlib.sha256(repr(key).encode()).digest()[:8]
        self.keys.add(int.from_bytes(h, "big"))

    def fail(self, mech, msg, **details):
        self.violations.append(dict(mech=mech, msg=str(msg)[:1500], details=jsonable(details),
                                    case=jsonable(self.case), monitor=self.monitor,
                                    index=self.index, seed=self.seed))

    def check(self, cond, mech, msg="", **details):
        """The oracle's verdict on one observation."""
        self.evals += 1
        if not bool(cond):
            self.fail(mech, msg or mech, **details)
            return False
        return True

    def same(self, got, want, mech, msg="", **details):
        """Exact equality, shape included; NaN equals NaN."""
        self.evals += 1
        g = np.asarray(got)
        w = np.asarray(want)
        ok = g.shape == w.shape
        if ok:
            if g.dtype.kind in "fc" or w.dtype.kind in "fc":
                ok = bool(np.all((g == w) | (np.isnan(g) & np.isnan(w))))
            else:
                ok = bool(np.all(g == w))
        if not ok:
            self.fail(mech, (msg or mech) + self._diff(g, w), got=g, want=w, **details)
        return ok

    def close(self, got, want, mech, rtol=1e-9, atol=0.0, msg="", **details):
        """Numerical equality within a tolerance; NaN equals NaN, shape included."""
        self.evals += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        ok = g.shape == w.shape and bool(np.all(np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)))
        if not ok:
            self.fail(mech, (msg or mech) + self._diff(g, w) + f" rtol={rtol} atol={atol}", got=g, want=w, **details)
        return ok

    @staticmethod
    def _diff(g, w):
        if g.shape != w.shape:
            return f": shape {g.shape} != {w.shape}"
        try:
            if g.ndim == 0:
                return f": got {g} want {w}"
            bad = np.flatnonzero((g != w).ravel())
            err = np.abs(g.astype(float) - w.astype(float)).ravel()
            i = int(bad[np.nanargmax(err[bad])]) if len(bad) else 0
            return f": {len(bad)} of {g.size} differ; worst [{i}] got {g.ravel()[i]} want {w.ravel()[i]}"
        except Exception:
            return ": differ"

    def raises(self, func, exc=Exception):
        """Return the exception if func() raises exc, else None."""
        try:
            func()
        except exc as e:
            return e
        return None

    def need(self, cond):
        if not cond:
            raise StopCase()


def load_known(path):
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        return json.load(fp)["findings"]
