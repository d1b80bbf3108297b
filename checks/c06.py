"""C06: pulse summary quantities equal their definitions for every record."""
import os

import numpy as np

from vlib import group, ljh
from vlib.core import monitor

BUILD = "fast"
RULE = ("A case writes an LJH file mixing triggered pulses with hostile records (flat, saturated, zero, random, pulses before the trigger, late and instant rises) of random geometry, summarises it through "
        "TESGroup with the cython or the numpy implementation, any segment size, inversion, pre/post trimming and peak-time setting, and recomputes each quantity of each record in float64 from its definition. "
        "Metamorphic cases re-summarise subsets, other segmentations and complements. Non-trivial = records with a positive peak.")
ASSUMPTIONS = ["the two implementations have their own definitions (cython averages the pulse from the last pretrigger sample on, numpy from the first post-trigger one; cython subtracts the rounded, numpy the truncated pretrigger mean from the peak; "
               "promptness uses 6 samples or half the rise): each is compared with its own",
               "results are stored in float32/uint16 and compared at that precision; records have at least 8 post-trigger samples when promptness is compared"]


def conv_deriv(x, kernel=(0.2, 0.1, 0, -0.1, -0.2), spike=True):
    c = np.convolve(x, kernel, mode="valid")
    if spike:
        c = np.minimum(c[2:], c[:-2])
    return c.max()


def rise_cy(x, npre, peak, ptm, timebase):
    """[rise, ...]: permissible values of the rise time of one record."""
    low, high = 0.1 * peak + ptm, 0.9 * peak + ptm
    ns = len(x)
    i = npre
    while i < ns and not x[i] > np.floor(low):
        i += 1
    if i == ns:
        return [timebase]
    j = i
    while j < ns and not x[j] > np.floor(high):
        j += 1
    if j == ns:
        return [timebase]
    j -= 1
    if x[j] > x[i]:
        return [timebase * (j - i) * peak / (float(x[j]) - x[i])] + ([timebase] if j < i else [])
    return [timebase]


def ref_cy(x, timebase, pksamp, ignore, npre):
    x = x.astype(np.int64)
    ns = len(x)
    pt = x[:npre - ignore].astype(float)
    ptm, rms = pt.mean(), pt.std()
    mx = int(x.max())
    r = dict(pretrig_mean=ptm, pretrig_rms=rms, min_value=int(x.min()))
    d = x[npre - 1] - ptm - 4.3 * rms
    r["shift1"] = d > 0
    r["_tie"] = abs(d) < 1e-3
    s = npre + 1 if r["shift1"] else npre + 2
    prom = x[s:s + 6].sum() / 6.0
    if ptm < mx:
        pk = mx - int(ptm + 0.5)
        r["peak_value"], r["peak_index"] = pk, int(x.argmax())
        r["promptness"] = (prom - ptm) / pk if pk > 0 else 0.0
    else:
        pk = 0
        r["peak_value"] = r["peak_index"] = 0
        r["promptness"] = 0.0
    post = x[npre - 1:].astype(float)
    r["pulse_average"] = post.mean() - ptm
    r["pulse_rms"] = np.sqrt(((post - ptm)**2).mean())
    r["rise_time"] = rise_cy(x, npre, pk, ptm, timebase)
    r["postpeak_deriv"] = conv_deriv(x[pksamp:].astype(float)) if 0 <= pksamp <= ns - 7 else 0.0
    r["_prompt_ok"] = npre + 8 <= ns
    return r


def ref_py(x, timebase, pksamp, ignore, npre):
    x = x.astype(np.int64)
    ns = len(x)
    pt = x[:npre - ignore].astype(float)
    ptm, rms = pt.mean(), pt.std()
    post = x[npre:].astype(float)
    mx = int(post.max())
    r = dict(pretrig_mean=ptm, pretrig_rms=rms, min_value=int(x.min()), peak_index=npre + int(post.argmax()), peak_value=max(0, mx - int(ptm)))
    d = x[npre - 1] - ptm - 4.3 * rms
    r["shift1"] = d > 0
    r["_tie"] = abs(d) < 1e-3
    r["pulse_average"] = post.mean() - ptm
    r["pulse_rms"] = np.sqrt(((post - ptm)**2).mean())
    half = (npre + 2 + pksamp) // 2
    seg = x[npre + 1:half - 1] if r["shift1"] else x[npre + 2:half]
    r["_prompt_ok"] = len(seg) > 0 and r["peak_value"] > 0
    r["promptness"] = (seg.mean() - ptm) / r["peak_value"] if r["_prompt_ok"] else np.nan
    r["postpeak_deriv"] = conv_deriv(x[pksamp:].astype(float)) if 0 <= pksamp <= ns - 7 else 0.0
    r["rise_time"] = rise_py(x, timebase, npre)
    return r


def rise_py(x, timebase, npre):
    """Definition in estimateRiseTime's docstring for one record, or None where it gives no number."""
    base = x[:npre].mean() if npre >= 4 else x.min()
    n0 = npre if npre >= 4 else 0
    pk = int(x.argmax())
    if pk < n0:
        return [-9.9e-6]
    h = x.max() - base
    if h <= 0:
        return None
    y = (x[n0:pk + 1] - base) / h
    if np.any(np.abs(y - 0.1) < 1e-12) or np.any(np.abs(y - 0.9) < 1e-12):
        return None
    i = int(np.argmax(y > 0.1))
    j = int(np.argmax(y > 0.9)) - 1
    if j < i:
        j = min(i + 1, len(y) - 1)
    dy = max(y[j] - y[i], timebase)
    return [timebase * (j - i) / dy]


def records(rng, n, ns, npre):
    """Mostly triggered pulses, plus hostile records."""
    base = float(rng.choice([0, 20, 500, 2000, 30000, 60000]))
    d = ljh.pulse_data(rng, n, ns, npre, base=base, amp=(20, 65535 if rng.random() < 0.3 else 5000), noise=float(rng.choice([0, 0.6, 3, 40])))
    for i in range(n):
        r = rng.random()
        if r < 0.55:
            continue
        k = int(rng.integers(12))
        if k == 0:
            d[i] = rng.integers(0, 65536)
        elif k == 1:
            d[i] = 65535
        elif k == 2:
            d[i] = 0
        elif k == 3:
            d[i] = rng.integers(0, 65536, ns)
        elif k == 4:
            d[i] = 65535 - d[i]
        elif k == 5:
            d[i] = 100
            d[i, int(rng.integers(ns))] = 65535
        elif k == 6:
            d[i] = 1000
            d[i, npre:] = 5000
        elif k == 7:
            d[i] = np.linspace(0, 65535, ns).astype(np.uint16)
        elif k == 8:
            d[i] = np.linspace(65535, 0, ns).astype(np.uint16)
        elif k == 9:
            d[i] = np.roll(d[i], int(rng.integers(-npre, ns - npre)))
        elif k == 10:                                   # peak that rounds away
            d[i] = 100
            d[i, :int(rng.integers(1, max(2, npre // 3)))] = 99
        else:
            d[i] = rng.integers(40, 43, ns)
    return d


FIELDS = ("pretrig_mean", "pretrig_rms", "min_value", "peak_value", "peak_index", "pulse_average", "pulse_rms", "shift1", "promptness", "postpeak_deriv", "rise_time")


def compare(ctx, ds, x, which, npre, ignore, pksamp, cut=(0, 0), sel=None):
    ns = x.shape[1]
    xx = x[:, cut[0]:ns - cut[1]]
    ref = ref_cy if which == "cython" else ref_py
    got = {k: getattr(ds, "p_" + k)[:] for k in FIELDS}
    for k in FIELDS:
        if not ctx.check(got[k].shape == (len(x),), "summary-length", f"p_{k} {got[k].shape}"):
            return
    for i in (range(len(x)) if sel is None else sel):
        r = ref(xx[i], ds.timebase, pksamp - cut[0], ignore, npre - cut[0])
        for k in FIELDS:
            g, w = got[k][i], r[k]
            if k == "peak_index" and not (which == "cython" and r["peak_index"] == 0 and r["peak_value"] == 0):
                w = w + cut[0]
            if k == "peak_index" and which == "cython" and r["peak_value"] == 0:
                ctx.check(int(g) in (int(r["peak_index"]), int(r["peak_index"]) + cut[0], 0), f"{which}:peak_index", f"record {i}: {g}")
                continue
            if k in ("min_value", "peak_value", "peak_index"):
                ok = int(g) == int(w)
            elif k == "shift1":
                ok = r["_tie"] or bool(g) == bool(w)
            elif k == "promptness":
                if not r["_prompt_ok"] or r["_tie"]:
                    continue
                tol = 5e-3 / max(1, r["peak_value"]) * 1.0
                ok = abs(float(g) - w) <= 3e-6 * abs(w) + tol
            elif k == "rise_time":
                if w is None:
                    continue
                ok = any(abs(float(g) - v) <= 2e-6 * abs(v) + 1e-12 for v in w)
            else:
                scale = max(1.0, abs(w))
                ok = abs(float(g) - w) <= 2e-6 * scale + (2e-3 if k.endswith("rms") else 1e-4 if k == "pulse_average" else 0)
            ctx.check(ok, f"{which}:{k}", f"record {i}: p_{k} = {g}, definition gives {w}", x=x[i])
        if r["peak_value"] > 0:
            ctx.count("pulses")
        ctx.count("records")
        if len(ctx.violations) > 5:
            return


def setup(ctx, x, npre, usec=None, sub=None, name="p", **hdr):
    d = os.path.join(ctx.tmp, name)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{name}_chan1.ljh")
    s, t = ljh.write22(p, x, sub, usec, npre=npre, channum=1, **hdr)
    return dict(pulse=[p], noise=[], dir=d), s, t


def geometry(rng):
    npre = int(rng.choice([4, 5, 8, 30, 60]))
    ns = npre + int(rng.choice([8, 9, 15, 50, 120, 300]))
    return ns, npre


@monitor(60, 900)
def definitions(ctx):
    rng = ctx.rng
    ns, npre = geometry(rng)
    n = int(rng.choice([1, 2, 5, 17, 40]))
    x = records(rng, n, ns, npre)
    which = ["cython", "numpy"][ctx.index % 2]
    timebase = float(rng.choice([1e-5, 5.12e-6, 9.6e-5, 2e-7, 7.68e-6, 3.2e-7]))
    sub = np.cumsum(rng.integers(1, 10**7, n)) + int(rng.integers(0, 2**40))
    usec = np.cumsum(rng.integers(1, 10**6, n)) + 1_600_000_000_000_000
    f, _, _ = setup(ctx, x, npre, usec, sub, timebase=timebase, tail=b"xyz" * int(rng.integers(0, 5)))
    inv = rng.random() < 0.3
    g = group.open_group(f, noise=False, invert_data=inv)
    ds = g.datasets[0]
    if inv:
        x = ~x
    ds.pulse_records.set_segment_size(int(rng.integers(1, n + 2)) * (16 + 2 * ns))
    kw = {}
    ignore = 3
    if rng.random() < 0.4:
        ignore = int(rng.integers(0, npre - 1))
        kw["pretrigger_ignore_microsec"] = round((ignore + float(rng.choice([0, 0, .5, .9]))) * timebase * 1e6, 9)
    cut = (0, 0)
    if rng.random() < 0.3:
        cut = (int(rng.integers(0, npre - ignore)), int(rng.integers(0, max(1, ns - npre - 8))))
        kw.update(cut_pre=cut[0], cut_post=cut[1])
    xx = x[:, cut[0]:ns - cut[1]]
    if rng.random() < 0.4:
        k = int(rng.integers(0, ns - npre))
        kw["peak_time_microsec"] = round((k + float(rng.choice([0, 0, .5, .9]))) * timebase * 1e6, 9)
        pk = npre + k
        if pk + 7 > ns - cut[1] and which == "numpy":
            kw.pop("peak_time_microsec")
    if "peak_time_microsec" not in kw:
        am = xx.argmax(axis=1) + cut[0]
        pk = int(np.bincount(am).argmax())
    if which == "numpy":
        kw["use_cython"] = False
        kw["doPretrigFit"] = bool(rng.random() < 0.4) and npre - ignore - cut[0] >= 2
    ctx.case.update(ns=ns, npre=npre, n=n, which=which, inv=inv, kw=str(kw), seg=ds.pulse_records.pulses_per_seg)
    ds.summarize_data(**kw)
    ctx.check(ds.peak_samplenumber == pk, "peak-samplenumber", f"{ds.peak_samplenumber} != {pk}")
    compare(ctx, ds, x, which, npre, ignore, pk, cut)
    ctx.same(ds.p_subframecount[:], sub, "subframecount")
    ctx.check(np.max(np.abs(ds.p_timestamp[:] - usec / 1e6)) < 5e-7, "timestamp")
    ctx.check(ds.number_of_rows is not None and ds.subframe_timebase > 0, "geometry-attributes")
    ctx.close(ds.p_peak_time[:], (ds.p_peak_index[:].astype(float) - npre) * timebase, "peak-time", rtol=1e-12, atol=1e-18)
    if kw.get("doPretrigFit") and npre - ignore - cut[0] >= 2:
        t = np.arange(cut[0], npre - ignore)
        c = np.array([np.polyfit(t, r[cut[0]:npre - ignore].astype(float), 1) for r in x])
        ctx.close(ds.p_pretrig_deriv[:], c[:, 0], "pretrig-deriv", rtol=1e-5, atol=1e-3)
        ctx.close(ds.p_pretrig_offset[:], c[:, 1], "pretrig-offset", rtol=1e-5, atol=1e-2)
    snap = {k: getattr(ds, "p_" + k)[:] for k in FIELDS}
    if np.any(snap["pretrig_mean"] != 0):
        ds.summarize_data(use_cython=which != "cython")
        for k in FIELDS:
            ctx.same(getattr(ds, "p_" + k)[:], snap[k], "resummarized-unforced", f"p_{k} changed without forceNew")
    ctx.nontrivial(ns, npre, n, which, str(kw), x.tobytes()[:400])
    group.close_group(g)


@monitor(24, 300)
def independence(ctx):
    """Segment size, the other records of the file, and inversion do not matter (bit for bit)."""
    rng = ctx.rng
    ns, npre = geometry(rng)
    n = int(rng.integers(2, 50))
    x = records(rng, n, ns, npre)
    which = ["cython", "numpy"][ctx.index % 2]
    pk = npre + int(rng.integers(1, max(2, ns - npre - 7)))
    kw = dict(peak_time_microsec=(pk - npre + 0.5) * 10.0, use_cython=which == "cython", forceNew=True)
    f, _, _ = setup(ctx, x, npre, timebase=1e-5)
    g = group.open_group(f, noise=False)
    ds = g.datasets[0]
    ds.summarize_data(**kw)
    base = {k: getattr(ds, "p_" + k)[:] for k in FIELDS + ("timestamp", "subframecount")}
    ctx.case.update(ns=ns, npre=npre, n=n, which=which)
    for m in sorted(set(int(v) for v in rng.integers(1, n + 3, size=4))):
        ds.pulse_records.set_segment_size(m * (16 + 2 * ns))
        ctx.check(ds.pulse_records.pulses_per_seg == m, "segment-size")
        for k in base:
            getattr(ds, "p_" + k)[:] = 1
        ds.summarize_data(**kw)
        for k, v in base.items():
            ctx.same(getattr(ds, "p_" + k)[:], v, f"{which}:segment-dependence", f"p_{k} depends on the segment size ({m} records)")
        ctx.count("segmentations")
    group.close_group(g)
    sel = np.sort(rng.permutation(n)[:rng.integers(1, n)])
    f2, _, _ = setup(ctx, x[sel], npre, timebase=1e-5, name="q")
    g = group.open_group(f2, noise=False)
    ds = g.datasets[0]
    ds.summarize_data(**kw)
    for k in FIELDS:
        ctx.same(getattr(ds, "p_" + k)[:], base[k][sel], f"{which}:record-dependence", f"p_{k} depends on the other records of the file")
    group.close_group(g)
    f3, _, _ = setup(ctx, ~x, npre, timebase=1e-5, name="r")
    g = group.open_group(f3, noise=False)
    ds = g.datasets[0]
    ds.invert_data = True
    ds.summarize_data(**kw)
    for k in FIELDS:
        ctx.same(getattr(ds, "p_" + k)[:], base[k], f"{which}:inverted", f"p_{k} of inverted data differs from that of the complement")
    group.close_group(g)
    ctx.nontrivial(ns, npre, n, which, ctx.index)


@monitor(12, 100)
def agreement(ctx):
    """The two implementations agree on ordinary pulses up to the documented differences."""
    rng = ctx.rng
    npre = int(rng.integers(20, 60))
    ns = npre + int(rng.integers(100, 300))
    n = 30
    x = ljh.pulse_data(rng, n, ns, npre, base=float(rng.integers(100, 20000)), amp=(2000, 20000), noise=3.0)
    f, _, _ = setup(ctx, x, npre, timebase=1e-5)
    g = group.open_group(f, noise=False)
    ds = g.datasets[0]
    ds.summarize_data(forceNew=True)
    a = {k: getattr(ds, "p_" + k)[:].astype(float) for k in FIELDS}
    ds.summarize_data(forceNew=True, use_cython=False)
    b = {k: getattr(ds, "p_" + k)[:].astype(float) for k in FIELDS}
    for k in ("pretrig_mean", "pretrig_rms", "min_value", "peak_index", "postpeak_deriv"):
        ctx.close(b[k], a[k], f"agree:{k}", rtol=3e-6, atol=1e-3)
    ctx.check(np.all(np.abs(a["peak_value"] - b["peak_value"]) <= 1), "agree:peak_value")
    nn = ns - npre
    last = x[:, npre - 1] - a["pretrig_mean"]
    ctx.close(a["pulse_average"], (b["pulse_average"] * nn + last) / (nn + 1), "agree:pulse_average", rtol=1e-5, atol=1e-2)
    ctx.close(a["pulse_rms"]**2, (b["pulse_rms"]**2 * nn + last**2) / (nn + 1), "agree:pulse_rms", rtol=1e-4, atol=1e-1)
    ctx.nontrivial(npre, ns, x.tobytes()[:200])
    group.close_group(g)


@monitor(2, 6)
def many_records(ctx):
    """More than 65535 records in one segment."""
    rng = ctx.rng
    n, ns, npre = int(rng.integers(65536, 72000)), 24, 8
    x = np.tile(records(rng, 500, ns, npre), (n // 500 + 1, 1))[:n].copy()
    x[:, 0] += (np.arange(n) % 7).astype(np.uint16)
    f, s, t = setup(ctx, x, npre, timebase=1e-5)
    g = group.open_group(f, noise=False)
    ds = g.datasets[0]
    ctx.check(ds.nPulses == n, "record-count")
    ds.summarize_data(peak_time_microsec=45.)
    ctx.check(ds.pulse_records.n_segments == 1, "premise")
    sel = np.unique(np.concatenate([[0, 65534, 65535, 65536, n - 1], rng.integers(0, n, 300)]))
    compare(ctx, ds, x, "cython", npre, 3, npre + 4, sel=sel)
    ctx.same(ds.p_subframecount[:], s, "subframecount")
    ctx.nontrivial(n)
    group.close_group(g)


@monitor(60, 1200)
def kernels(ctx):
    """compute_max_deriv and estimateRiseTime called directly."""
    from mass.core import analysis_algorithms as aa
    rng = ctx.rng
    ns, npre = geometry(rng)
    npre = int(rng.choice([0, 1, 3, 4, npre]))
    n = int(rng.integers(1, 12))
    x = records(rng, n, ns, max(npre, 2))
    tb = float(rng.choice([1e-5, 1e-6, 5e-4]))
    keep = x.copy()
    y = aa.estimateRiseTime(x, tb, npre)
    ctx.same(x, keep, "input-modified", "estimateRiseTime")
    ctx.check(np.asarray(y).shape == (n,), "rise-shape")
    for i in range(n):
        one = x[i].copy()
        z = aa.estimateRiseTime(one, tb, npre)
        ctx.check(one.shape == (ns,) and (one == keep[i]).all(), "input-modified", "estimateRiseTime changed its 1-d input (shape)")
        ctx.check(z[0] == y[i] or (np.isnan(z[0]) and np.isnan(y[i])), "rise-depends-on-others", f"record {i}: alone {z[0]}, in a batch {y[i]}")
        w = rise_py(x[i].astype(np.int64), tb, npre)
        if w is not None:
            ctx.check(abs(z[0] - w[0]) <= 1e-6 * abs(w[0]) + 1e-15, "rise-definition", f"record {i}: {z[0]} != {w}")
    for _ in range(6):
        ig = int(rng.integers(0, ns))
        spike = bool(rng.random() < 0.6)
        need = 7 if spike else 5
        kern = None
        kname = [None, "SG", "own"][int(rng.integers(3))]
        coef = np.array([.2, .1, 0, -.1, -.2])
        if kname == "SG":
            kern = "SG"
            coef = np.array([-0.45238, -0.02381, 0.28571, 0.30952, -0.11905])[::-1]
        elif kname == "own":
            kern = np.round(rng.normal(size=5), 2)
            coef = kern
        if ns - ig < need:
            ctx.check(ctx.raises(lambda: aa.compute_max_deriv(x, ig, spike_reject=spike, kernel=kern)) is not None, "deriv-too-short", "a record shorter than the kernel was accepted")
            continue
        want = np.array([conv_deriv(r[ig:].astype(float), coef, spike) for r in x])
        got = aa.compute_max_deriv(x, ig, spike_reject=spike, kernel=kern)
        ctx.close(got, want, "max-deriv", rtol=2e-6, atol=2e-2 if np.abs(want).max() > 1e3 else 2e-3)
        got1 = aa.compute_max_deriv(x[0], ig, spike_reject=spike, kernel=kern)
        ctx.check(np.ravel(got1)[0] == got[0], "deriv-depends-on-others")
        ctx.close(aa.python_compute_max_deriv(x, ig, spike_reject=spike, kernel=kern), want, "python-max-deriv", rtol=1e-9, atol=1e-6)
        ctx.same(x, keep, "input-modified", "compute_max_deriv")
        ctx.count("derivatives", n)
    one = x[0]
    if ns >= 7:
        aa.compute_max_deriv(one, 0)
        ctx.check(one.shape == (ns,), "input-modified", "compute_max_deriv reshaped its input")
        aa.python_compute_max_deriv(one, 0)
        ctx.check(one.shape == (ns,), "input-modified", "python_compute_max_deriv reshaped its input")
    ctx.nontrivial(ns, npre, n, x.tobytes()[:200])
