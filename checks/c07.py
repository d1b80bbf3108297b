"""C07: native kernels never touch memory outside their arrays."""
import importlib
import os
import sys

import numpy as np

from vlib import group, ljh
from vlib.core import monitor

BUILD = "asan"
RULE = ("The four Cython extensions are rebuilt with AddressSanitizer and UBSan (findings abort the worker), and each also as a twin with every boundscheck(False) turned into True and different initial values of "
        "locals. A case calls one kernel of both builds on the same generated arrays (empty, 1-sample, shorter than every window, strided, read-only, NaN, extreme parameters); both must have the same outcome bit for bit and leave the inputs "
        "unchanged. A pipeline case runs a whole TESGroup under the sanitizers. Non-trivial = the call returned a result.")
ASSUMPTIONS = ["unaligned loads are not reported: LJH records are by format at odd byte offsets and x86 and ARM64 allow them",
               "AddressSanitizer doesn't see accesses inside numpy's or HDF5's own blocks; the bounds-checked twin decides those",
               "arrival times span less than 2^62 (their differences fit in 64 bits)"]

_unraisable = []


def _hook(args):
    _unraisable.append(f"{args.exc_type.__name__}: {args.exc_value}")


sys.unraisablehook = _hook
PAIRS = {}


def pair(name):
    if name not in PAIRS:
        PAIRS[name] = (importlib.import_module(name), importlib.import_module(name + "_bc"))
    return PAIRS[name]


def freeze(x):
    if isinstance(x, dict):
        return tuple((k, freeze(x[k])) for k in sorted(x))
    if isinstance(x, (tuple, list)):
        return tuple(freeze(v) for v in x)
    a = np.asarray(x)
    if a.dtype.kind == "f":
        return (a.shape, str(a.dtype), a.tobytes(), "nan" if a.dtype.kind == "f" and np.isnan(a).any() else "")
    return (a.shape, str(a.dtype), a.tobytes() if a.dtype != object else repr(a.tolist()))


def same_frozen(a, b):
    """Bitwise, but any NaN equals any NaN."""
    if a == b:
        return True
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        if len(a) == 4 and isinstance(a[2], bytes) and isinstance(b[2], bytes):
            if a[:2] != b[:2]:
                return False
            x, y = np.frombuffer(a[2], dtype=a[1]), np.frombuffer(b[2], dtype=b[1])
            return bool(np.all((x == y) | (np.isnan(x) & np.isnan(y))))
        return all(same_frozen(p, q) for p, q in zip(a, b))
    return False


def outcome(func, args, kw):
    del _unraisable[:]
    try:
        r = func(*args, **kw)
        out = ("result", freeze(r))
    except Exception as e:
        out = ("raised", type(e).__name__, str(e)[:200])
        r = None
    if _unraisable:
        return ("swallowed", list(_unraisable)), r
    return out, r


def both(ctx, modname, fname, *args, **kw):
    """Call the kernel of both builds; the oracle compares outcomes and inputs."""
    m, bc = pair(modname)
    arrays = [a for a in args if isinstance(a, np.ndarray)]
    before = [a.tobytes() for a in arrays]
    ctx.case["call"] = dict(kernel=f"{modname}.{fname}", args=[a if not isinstance(a, np.ndarray) else dict(shape=list(a.shape), dtype=str(a.dtype),
                            strides=list(a.strides), head=a.ravel()[:12].tolist()) for a in args], kw=kw)
    oc, r = outcome(getattr(bc, fname), args, kw)
    if oc[0] == "raised" and "Out of bounds on buffer access" in oc[2]:
        o = outcome(getattr(m, fname), args, kw)[0] if os.environ.get("VERIF_RUN_OOB") else None
        if o is None or o != oc:
            ctx.check(False, "out-of-bounds", f"{fname}: the bounds-checked build says {oc[2]}")
            return None
    o, r = outcome(getattr(m, fname), args, kw)
    ctx.check(o[0] != "swallowed", "swallowed", f"{fname} printed and ignored an exception: {o}")
    ctx.check(same_frozen(o, oc), "builds-differ", f"{fname}: {str(o)[:200]} but the bounds-checked build gives {str(oc)[:200]}")
    for a, b in zip(arrays, before):
        ctx.check(a.tobytes() == b, "input-modified", f"{fname} changed an input array")
    ctx.count(f"{fname}:{o[0] if o[0] != 'raised' else 'raised ' + o[1]}")
    if o[0] == "result":
        ctx.nontrivial(fname, ctx.index, o[1])
    return r


def layout(rng, a):
    """The same values in a different memory layout."""
    k = rng.integers(0, 5)
    if k == 0:
        return np.ascontiguousarray(a)
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == 3:
        a = a.copy()
        a.setflags(write=False)
        return a
    return a.copy()[..., ::-1]


def records(rng, n, ns):
    k = rng.integers(0, 5)
    if k == 0:
        a = rng.integers(0, 65536, size=(n, ns))
    elif k == 1:
        a = np.full((n, ns), rng.choice([0, 1, 1000, 65535]))
    elif k == 2:
        a = 1000 + np.cumsum(rng.integers(-3, 4, size=(n, ns)), axis=1)
    elif k == 3:
        a = np.full((n, ns), 500)
        if n and ns:
            a[:, rng.integers(0, ns):] += 5000
    else:
        a = np.full((n, ns), 40000) - np.arange(ns)[None, :]
    return np.clip(a, 0, 65535).astype(np.uint16)


def size(rng, big=40):
    return int(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, int(rng.integers(10, big + 1))]))


@monitor(260, 6000)
def summarize(ctx):
    rng = ctx.rng
    for _ in range(25):
        n, ns = size(rng, 12), size(rng, 80)
        raw = layout(rng, records(rng, n, ns))
        npre = int(rng.integers(-1, ns + 2)) if rng.random() < 0.5 else int(ns // 2)
        ignore = int(rng.choice([0, 0, 1, 2, 3, -1, npre, npre - 1, npre + 1]))
        pk = int(rng.choice([npre, npre + 2, ns - 7, ns - 6, ns - 1, ns, ns + 5, -1, 0, int(rng.integers(-3, ns + 4))]))
        kw = {}
        if rng.random() < 0.4:
            kw = dict(first=int(rng.integers(-1, n + 2)), end=int(rng.integers(-1, n + 3)))
        both(ctx, "mass.core.cython_channel", "summarize_data_cython", raw, float(rng.choice([1e-6, 1.0, 9.6e-6])), pk, ignore, npre, **kw)


@monitor(160, 4000)
def filter5lag(ctx):
    rng = ctx.rng
    for _ in range(25):
        n, ns = size(rng, 12), size(rng, 80)
        raw = layout(rng, records(rng, n, ns))
        nf = max(0, ns - 4 + int(rng.choice([0, 0, 0, 0, 1, -1, 4, -4])))
        f = rng.normal(size=nf)
        if rng.random() < 0.1:
            f[:] = 0
        if nf and rng.random() < 0.1:
            f[rng.integers(0, nf)] = rng.choice([np.nan, np.inf])
        both(ctx, "mass.core.analysis_algorithms", "filter_data_5lag_cython", raw, f, *([int(rng.integers(-1, n + 3))] if rng.random() < .5 else []))


@monitor(120, 3000)
def max_deriv(ctx):
    rng = ctx.rng
    for _ in range(25):
        n, ns = size(rng, 12), size(rng, 80)
        raw = layout(rng, records(rng, n, ns))
        if rng.random() < 0.2 and n > 0:
            raw = raw[0]
        kernel = [None, None, "SG", np.arange(5.), [1., 2, 3, 4, 5], np.arange(4.), np.arange(6.), np.zeros((1, 5)), np.array([])][rng.integers(0, 9)]
        both(ctx, "mass.core.analysis_algorithms", "compute_max_deriv", raw, int(rng.integers(-1, ns + 2)) if rng.random() < .7 else 0,
             spike_reject=bool(rng.integers(0, 2)), kernel=kernel)


@monitor(60, 1000)
def rise_time(ctx):
    rng = ctx.rng
    for _ in range(20):
        n, ns = size(rng, 12), size(rng, 80)
        raw = layout(rng, records(rng, n, ns))
        if rng.random() < 0.2 and n > 0:
            raw = raw[0]
        both(ctx, "mass.core.analysis_algorithms", "estimateRiseTime", raw, 1e-5, int(rng.integers(-1, ns + 3)))


@monitor(120, 3000)
def arrivals(ctx):
    rng = ctx.rng
    for _ in range(40):
        hi = int(rng.choice([3, 10, 100, 2**40, 2**61]))
        a = rng.integers(0, hi, size=size(rng))
        b = rng.integers(0, hi, size=size(rng))
        if rng.random() < 0.85:
            a, b = np.sort(a), np.sort(b)
        both(ctx, "mass.core.analysis_algorithms", "nearest_arrivals", layout(rng, a), layout(rng, b))


def values(rng, n):
    k = rng.integers(0, 9)
    if k == 0:
        x = rng.normal(size=n)
    elif k == 1:
        x = rng.integers(0, 4, size=n).astype(float)
    elif k == 2:
        x = np.full(n, float(rng.choice([0, 1, -3.3])))
    elif k == 3:
        x = rng.standard_cauchy(size=n)
    elif k == 4:
        x = rng.integers(-50, 50, size=n)
    elif k == 5:
        x = rng.integers(0, 65536, size=n).astype(rng.choice([np.uint16, np.int32, np.float32, np.uint8]))
    elif k == 6:
        x = 10.0**rng.uniform(-300, 300, size=n)
    elif k == 7:
        x = 1e8 + rng.integers(0, 3, size=n) * 1e-8
    else:
        x = rng.normal(size=n)
        if n:
            x[rng.random(n) < 0.3] = rng.choice([np.nan, np.inf, -np.inf])
    return np.asarray(x)


@monitor(160, 4000)
def robust(ctx):
    rng = ctx.rng
    M = "mass.mathstat.robust"
    for _ in range(20):
        n = size(rng, 60)
        x = layout(rng, values(rng, n))
        both(ctx, M, "Qscale", x)
        both(ctx, M, "shorth_range", x, bool(rng.integers(0, 2)), False, bool(rng.integers(0, 2)))
        both(ctx, M, "median_abs_dev", x, bool(rng.integers(0, 2)))
        both(ctx, M, "trimean", x)
        w = [None, rng.random(n), np.zeros(n), rng.integers(0, 3, size=n), rng.random(n + 1), rng.random(max(0, n - 1)), -rng.random(n), np.full(n, np.nan)][rng.integers(0, 8)]
        both(ctx, M, "high_median", x, w, bool(rng.integers(0, 2)))
        k = float(rng.choice([0.1, 1, 3, 50, 0]))
        both(ctx, M, "bisquare_weighted_mean", x, k)
        both(ctx, M, "huber_weighted_mean", x, k)


@monitor(160, 4000)
def entropy(ctx):
    rng = ctx.rng
    M = "mass.mathstat.entropy"
    for _ in range(12):
        x = values(rng, size(rng, 60))
        y = values(rng, size(rng, 60))
        if rng.random() < 0.8:   # keep the number of bins of the approximation small
            x, y = [np.clip(np.nan_to_num(v.astype(float)), -1e3, 1e3) for v in (x, y)]
            mode = str(rng.choice(["size", "exact", "approx"]))
        else:
            mode = str(rng.choice(["size", "exact"]))
        w = float(rng.choice([0.1, 0.5, 1, 7, 0, -1, 1e-3 if mode != "approx" else 1]))
        x, y = layout(rng, x), layout(rng, y)
        both(ctx, M, "laplace_entropy", x, w, mode)
        both(ctx, M, "laplace_cross_entropy", x, y, w, mode)
        both(ctx, M, "laplace_KL_divergence", x, y, w, mode)
        both(ctx, M, "_merge_orderedlists", np.sort(x), np.sort(y))


@monitor(8, 60)
def pipeline(ctx):
    """Summaries, native filtering, external-trigger timing and drift correction of a real group, under the sanitizers."""
    rng = ctx.rng
    ns = int(rng.choice([16, 40, 64, 100]))
    npre = int(rng.integers(5, ns - 9))
    n = int(rng.choice([3, 30, 60]))
    f = group.make_files(ctx, [1, 3], n=n, nnoise=8, ns=ns, npre=npre)
    data = group.open_group(f, None, True)
    with data.hdf5_file, data.hdf5_noisefile:
        before = {}
        for ds in data:
            ds.invert_data = bool(rng.integers(0, 2))
            before[ds.channum] = np.array(ds.data[:]).tobytes()
        data.summarize_data(use_cython=True, peak_time_microsec=float(rng.choice([0, 50, 300])))
        for ds in data:
            filt = rng.normal(size=ns - 4)
            fv, fp = mass().core.analysis_algorithms.filter_data_5lag_cython(ds.alldata, filt)
            ctx.check(len(fv) == ds.nPulses and len(fp) == ds.nPulses, "filter-length", "one filtered value per record")
            ctx.check(np.array(ds.data[:]).tobytes() == before[ds.channum], "input-modified", "the pipeline changed raw data")
            ctx.nontrivial(ctx.index, ds.channum, np.asarray(ds.p_pulse_rms[:]).tobytes())
        group.close_group(data)


def mass():
    import mass
    return mass
