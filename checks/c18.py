"""C18: gain, phase and time corrections do what their stored parameters say."""
import os

import numpy as np

from vlib import group as vg
from vlib import ljh as vl
from vlib.cal import _nat
from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case simulates the pulse heights of 1-4 lines with a gain that follows the baseline (linearly), the arrival phase (smoothly) or the time (polynomially), some of it none, with outliers; corrections are learned as arrays and through TESGroups with cuts, "
        "categories and closed/reopened files; results are compared with the formula evaluated from the stored parameters, with the injected truth, with the sharpness before, and with permuted records. Non-trivial = an injected gain larger than the resolution.")
ASSUMPTIONS = ["pulse heights of 1000 or more, as the kernel of drift_correct has a fixed width of 0.5", "removal of an injected effect is demanded for at least 300 pulses and effects within a few percent (2017 phase method, Laplace entropy)",
               "the phase correction's sharpness is judged where its typical phase (a spline through medians of 10 bins of pulse height) is right at each line; it is  compared within 0.02 nat: its two steps align bins and then interpolate, so that the criterion is not exactly monotone"]


def lines_of(rng, k=None):
    k = k or int(rng.integers(1, 5))
    while True:
        pk = np.sort(rng.uniform(1500, 9000, k))
        if k == 1 or np.min(np.diff(pk) / pk[1:]) > .06:
            return pk


def truth(rng, n, pk, res):
    which = rng.integers(0, len(pk), n)
    return which, pk[which] * (1 + res * rng.standard_normal(n))


def spread(v, which, pk):
    """Typical relative width of the lines (robust)."""
    w = []
    for i in range(len(pk)):
        x = v[which == i]
        if len(x) > 20:
            lo, hi = np.percentile(x, [16, 84])
            w.append((hi - lo) / 2 / np.median(x))
    return float(np.median(w)) if w else np.nan


def smooth_entropy(v, limit):
    """The documented criterion: entropy of a histogram over [0, limit] smoothed to sigma 0.5 (by the class that monitor `smoother` checks)."""
    from mass.core.analysis_algorithms import HistogramSmoother
    s = HistogramSmoother(.5, [0, limit])(v)
    s = s[s > 0]
    return -float(np.sum(s * np.log(s)))


@monitor(60, 700)
def drift(ctx):
    from mass.core import analysis_algorithms as aa
    rng = ctx.rng
    n = int(rng.choice([5, 40, 300, 1000, 3000]))
    pk = lines_of(rng)
    res = float(rng.choice([3e-4, 1e-3, 3e-3]))
    which, t = truth(rng, n, pk, res)
    base = float(rng.choice([0, 1000, 20000]))
    width = float(rng.choice([1, 10, 100]))
    ind = base + width * [rng.standard_normal(n), np.sin(np.arange(n) * 6 / n), np.linspace(-1, 1, n)][int(rng.integers(3))]
    if rng.random() < .3:
        ind = ind.astype("f4").astype(float)
    size = float(rng.choice([0, 0, 1e-3, 5e-3]) * rng.choice([-1, 1]))
    a = size / max(np.std(ind), 1e-9)
    v = t / (1 + (ind - np.median(ind)) * a)
    if rng.random() < .3:
        v[rng.random(n) < .05] *= rng.choice([.1, 3., 0.])
    v = v.astype(str(rng.choice(["f8", "f4"])))
    ctx.case = dict(n=n, lines=pk.tolist(), res=res, injected=size, width=width)
    i0, v0 = ind.copy(), v.copy()
    p, info = aa.drift_correct(ind, v)
    ctx.same(ind, i0, "indicator modified")
    ctx.same(v, v0, "values modified")
    ctx.check(info["type"] == "ptmean_gain" and info["slope"] == p and info["median_pretrig_mean"] == np.median(ind), "stored parameters", f"{info}")
    ctx.need(n >= 40)
    lim = 1.25 * np.percentile(v, 99)
    c = v * (1 + (ind - np.median(ind)) * p)
    h0, h1 = smooth_entropy(v, lim), smooth_entropy(c, lim)
    ctx.check(h1 <= h0 + 1e-9 * abs(h0), "sharpness no worse", f"entropy {h0} -> {h1}")
    if n >= 300:
        s0, s1 = spread(v, which, pk), spread(c, which, pk)
        if size == 0:
            ctx.check(abs(p) * np.std(ind) <= (.15 + 8 / np.sqrt(n)) * res + 2e-4, "no drift: negligible change", f"gain change {p * np.std(ind)} resolution {res}")
        else:
            ctx.check(abs(p - a) * np.std(ind) <= (.15 + 8 / np.sqrt(n)) * res + .1 * abs(size), "injected drift found", f"slope {p} injected {a}")
            ctx.check(s1 <= (1.15 + 4 / np.sqrt(n)) * res + 1e-4, "injected drift removed", f"line width {s0} -> {s1}, intrinsic {res}")
    q = rng.permutation(n)
    p2, info2 = aa.drift_correct(ind[q], v[q])
    ctx.check(p2 == p and info2 == info, "record order", f"{p2} {p}")
    p3, info3 = aa.drift_correct(list(ind), list(v))
    ctx.check(p3 == p, "lists", f"{p3} {p}")
    k = int(rng.choice([2, 3]))
    if abs(size) > res:
        ctx.nontrivial(n, len(pk), res, round(size, 5), width)
    # an explicit limit
    big = float(v.max() * 1.5 + 1)
    p4, _ = aa.drift_correct(ind, v, limit=big)
    ctx.check(smooth_entropy(v * (1 + (ind - np.median(ind)) * p4), big) <= smooth_entropy(v, big) + 1e-9 * abs(h0), "sharpness no worse, explicit limit", "")


@monitor(60, 600)
def smoother(ctx):
    """Smoothed histograms against direct convolution."""
    from mass.core import analysis_algorithms as aa
    rng = ctx.rng
    sigma = float(10 ** rng.uniform(-1, 1.5))
    lo = float(rng.choice([0, 0, -50, 1000]))
    hi = lo + float(10 ** rng.uniform(1.5, 3.3))
    v = rng.uniform(lo - 20, hi + 20, int(rng.integers(0, 2000)))
    ctx.case = dict(sigma=sigma, limits=[lo, hi], n=len(v))
    got = aa.make_smooth_histogram(v, sigma, hi) if lo == 0 and rng.random() < .5 else aa.make_smooth_histogram(v, sigma, lo, hi)
    nb = len(got)
    ctx.check(nb >= 1024 and nb & (nb - 1) == 0 and (hi - lo) / nb <= .4 * sigma * 1.01, "number of bins", f"{nb} for step {(hi - lo) / nb} sigma {sigma}")
    c, _ = np.histogram(v, nb, [lo, hi])
    i = np.nonzero(c)[0]
    d = np.abs(np.arange(nb)[:, None] - i[None, :])
    step = (hi - lo) / nb
    kern = np.exp(-.5 * (np.arange(nb) * step / sigma) ** 2)
    kern[1:] += kern[-1:0:-1]
    kern /= kern.sum()
    want = (kern[d] * c[i]).sum(axis=1)
    ctx.close(got, want, "smoothed histogram", 1e-7, 1e-9 * max(1, len(v)))
    inside = int(((v >= lo) & (v <= hi)).sum())
    ctx.close(got.sum(), inside, "counts kept by smoothing", 1e-9, 1e-7)
    ctx.nontrivial(nb, len(v))


def phase_formula(pc, phase, ph):
    """The corrected pulse heights, from the stored knots alone."""
    u, _ = _nat(pc.phase_uniformifier_x, pc.phase_uniformifier_y) if len(np.unique(pc.phase_uniformifier_x)) > 1 else (lambda x: np.zeros(np.shape(x)), None)
    f = np.clip(phase - u(ph), -.6, .6)
    curves = [_nat(c._x, c._y)[0] for c in pc.corrections]
    lev = [0.] + [float(c(0.)) for c in curves]
    out = np.array(ph, float)
    for j in range(len(ph)):
        x = float(ph[j])
        if not x >= 0:
            continue
        b = min(int(np.searchsorted(lev, x, side="right")) - 1, len(curves) - 1)
        lo = lev[b] * 0 if b == 0 else lev[b] - float(curves[b - 1](f[j]))
        hi = lev[b + 1] - float(curves[b](f[j]))
        w = (x - lev[b]) / (lev[b + 1] - lev[b])
        out[j] = x + w * hi + (1 - w) * lo
    return out


@monitor(40, 400)
def phase(ctx):
    import h5py
    from mass.core import phase_correct as mp
    from mass.mathstat.entropy import laplace_entropy
    rng = ctx.rng
    n = int(rng.choice([400, 1000, 2500]))
    pk = lines_of(rng, int(rng.choice([1, 2, 3, 4, 5])))
    while pk[0] < 1500 or (len(pk) > 1 and np.min(np.diff(pk)) < .05 * pk.mean()):
        pk = lines_of(rng, len(pk))
    res = float(rng.choice([5e-4, 1e-3]))
    which, t = truth(rng, n, pk, res)
    true_phase = rng.uniform(-.5, .5, n)
    size = float(rng.choice([0, 1e-3, 3e-3, 3e-3]))
    shape = [true_phase * 2, 4 * true_phase ** 2 - 1 / 3, np.cos(4 * true_phase)][int(rng.integers(3))]
    v = t * (1 + size * (shape - np.median(shape)))
    slide = float(rng.choice([0, 0, .1]))
    obs = true_phase + slide * t / 9000            # the measured phase depends on pulse height
    v = v.astype(str(rng.choice(["f8", "f4"])))
    method2017 = bool(rng.random() < .8)
    if not method2017:
        n_min = 400 * len(pk)
        ctx.need(n >= n_min)
    given = pk if rng.random() < .8 else None
    if given is not None and rng.random() < .5:
        given = rng.permutation(given)
    kw = float(max(1, pk.max() / 1000.)) if rng.random() < .5 else None
    ctx.case = dict(n=n, lines=pk.tolist(), res=res, injected=size, slide=slide, method2017=method2017, peaks=given is not None, dtype=str(v.dtype))
    o0, v0 = obs.copy(), v.copy()
    g0 = None if given is None else given.copy()
    if given is None:
        e = None
        try:
            getattr(mp, "_find_peaks_heuristic", lambda v: None)(v)
        except (IndexError, ValueError):
            ctx.need(False)          # no peak stands out: refused, not corrected
    pc = mp.phase_correct(obs, v, ph_peaks=given, method2017=method2017, kernel_width=kw, indicatorName="ind", uncorrectedName="unc")
    ctx.same(obs, o0, "phases modified")
    ctx.same(v, v0, "values modified")
    if given is not None:
        ctx.same(given, g0, "peaks modified")
        ctx.check(len(pc.corrections) == len(pk), "one curve per peak", "")
    got = pc(obs, v)
    ctx.same(obs, o0, "phases modified by correcting")
    ctx.same(v, v0, "values modified by correcting")
    sub = rng.choice(n, min(n, 150), replace=False)
    tol = 1e-9 if v.dtype == np.float64 else 3e-7
    ctx.close(got[sub], phase_formula(pc, obs[sub], v[sub]), "corrected values follow the stored curves", tol)
    # records not used in learning, of any size and phase
    xp = np.hstack([rng.uniform(-3, 3, 60), rng.uniform(-.5, .5, 60)])
    xv = np.hstack([rng.uniform(-500, 20000, 100), np.zeros(5), np.repeat(pk, 20)[:15]])
    ctx.close(pc.correct(xp, xv), phase_formula(pc, xp, xv), "other records follow the stored curves", 1e-9, 1e-9)
    ctx.same(pc.correct(xp[:0], xv[:0]), xv[:0], "no records")
    # element by element
    parts = np.hstack([pc(xp[i:i + 7], xv[i:i + 7]) for i in range(0, len(xp), 7)])
    ctx.same(parts, pc(xp, xv), "in batches")
    # stored and recovered
    with h5py.File(os.path.join(ctx.tmp, "a.h5"), "w") as h:
        if rng.random() < .5:   # something longer was stored before
            mp.phase_correct(obs, v, ph_peaks=np.hstack([pk, pk[-1:] * .999]), kernel_width=kw).toHDF5(h) if n > 900 else None
            over = True
        else:
            over = False
        pc.toHDF5(h, overwrite=over)
        if rng.random() < .3:
            ctx.check(ctx.raises(lambda: pc.toHDF5(h), AttributeError) is not None, "overwriting refused", "")
        back = mp.PhaseCorrector.fromHDF5(h)
    ctx.check(len(back.corrections) == len(pc.corrections) and back.indicatorName == "ind" and back.uncorrectedName == "unc", "reloaded", f"{len(back.corrections)}")
    ctx.same(back(xp, xv), pc(xp, xv), "reloaded correction")
    ctx.same(back(obs, v), got, "reloaded correction of the data")
    # record order
    q = rng.permutation(n)
    pc2 = mp.phase_correct(obs[q], v[q], ph_peaks=given, method2017=method2017, kernel_width=kw)
    ctx.close(pc2(obs, v), got, "record order", 1e-6 if method2017 else 1e-5)
    # records that belong to no line, or of no sensible phase, teach nothing
    if given is not None and len(pk) > 3:
        no = 300
        xv = rng.uniform(200, 12000, no)
        xo = rng.uniform(-4, 4, no)
        inline = np.min(np.abs(xv[:, None] - pk), axis=1) <= .0121 * pk.mean()
        xo = np.where(inline, np.where(xo > 0, 2.1, -2.1) + xo, xo)
        pc3 = mp.phase_correct(np.hstack([obs, xo]), np.hstack([v, xv.astype(v.dtype)]), ph_peaks=given, method2017=method2017, kernel_width=kw)
        if method2017:
            ctx.close(pc3(obs, v), got, "records in no line", 1e-9)
            ctx.count("with strays")
    # what it is for
    u = _nat(pc.phase_uniformifier_x, pc.phase_uniformifier_y)[0]
    med = [np.median(obs[which == i]) for i in range(len(pk))]
    flat = all(np.max(np.abs(u(v[which == i].astype(float)) - med[i])) < .08 for i in range(len(pk)))
    if flat and method2017 and given is not None and n >= 300 * len(pk):
        k = kw or pk.max() / 1000.
        worse = []
        for i, p in enumerate(pk):
            m = which == i
            worse.append(laplace_entropy(got[m].astype(float), k) - laplace_entropy(v[m].astype(float), k))
        ctx.check(max(worse) <= .02, "sharpness no worse", f"entropy changes {worse}")
        s0, s1 = spread(v, which, pk), spread(got, which, pk)
        if size:
            ctx.check(s1 <= (1.35 * res + .1 * size if n >= 600 * len(pk) else 1.05 * s0 + .1 * res), "injected phase dependence removed", f"line width {s0} -> {s1}, intrinsic {res}")
        else:
            ctx.check(np.median(np.abs(got / v - 1)) <= .35 * res, "no dependence: negligible change", f"{np.median(np.abs(got / v - 1))}")
        if size > res:
            ctx.nontrivial(n, len(pk), res, size, slide)
    elif size > res:
        ctx.nontrivial(n, len(pk), res, size, slide, method2017)


@monitor(60, 600)
def stored(ctx):
    """A phase corrector comes back from a file as it was stored, whatever was stored before or beside it."""
    import h5py
    from mass.core import phase_correct as mp
    from mass.mathstat.interpolate import CubicSpline
    rng = ctx.rng

    def make():
        nc = int(rng.choice([1, 2, 3, 5, 9, 10, 11, 14]))
        pk = np.sort(rng.uniform(1000, 12000, nc))
        while nc > 1 and np.min(np.diff(pk)) < 60:
            pk = np.sort(rng.uniform(1000, 12000, nc))
        cur = []
        for a in pk:
            k = int(rng.integers(3, 13))
            cur.append(CubicSpline(np.linspace(-.6, .6, k) + rng.uniform(-.04, .04, k), a + rng.uniform(-1, 1, k)))
        m = int(rng.integers(3, 11))
        x = np.cumsum(rng.uniform(200, 2000, m))
        names = [str(rng.choice(["p_filt_phase", "p_promptness", "ind é"])), str(rng.choice(["p_filt_value_dc", "p_filt_value", "unc ü"]))]
        return mp.PhaseCorrector(x, rng.normal(0, .05, m), cur, *names)

    xp, xv = rng.uniform(-1, 1, 80), rng.uniform(100, 14000, 80)
    have = {}
    hist = []
    path = os.path.join(ctx.tmp, "s.h5")
    for _ in range(int(rng.integers(2, 7))):
        name = str(rng.choice(["phase_correction", "other", "third one"]))
        pc = make()
        hist.append((name, len(pc.corrections)))
        kw = {} if name == "phase_correction" and rng.random() < .7 else dict(name=name)
        with h5py.File(path, "a") as h:
            g = h.require_group("chan1")
            if name in have and rng.random() < .4:
                ctx.check(ctx.raises(lambda: pc.toHDF5(g, **kw), AttributeError) is not None, "overwriting refused", "")
            elif name in have:
                pc.toHDF5(g, overwrite=True, **kw)
                have[name] = pc
                ctx.count("overwritten")
            else:
                pc.toHDF5(g, overwrite=bool(rng.random() < .5), **kw)
                have[name] = pc
    ctx.case = dict(history=hist)
    with h5py.File(path, "r") as h:
        for name, pc in have.items():
            back = mp.PhaseCorrector.fromHDF5(h["chan1"], name=name)
            ctx.check(len(back.corrections) == len(pc.corrections), "reloaded", f"{name}: {len(back.corrections)} curves of {len(pc.corrections)}: {hist}")
            ctx.check((back.indicatorName, back.uncorrectedName) == (pc.indicatorName, pc.uncorrectedName), "reloaded", f"{name}: {back.indicatorName} {back.uncorrectedName}")
            got = back(xp, xv)
            ctx.same(got, pc(xp, xv), "reloaded correction")
            ctx.close(got, phase_formula(pc, xp, xv), "other records follow the stored curves", 1e-9, 1e-9)
            ctx.count("reloaded")
    if rng.random() < .4:
        # the format of another version is refused, not misread
        name = str(rng.choice(list(have)))
        with h5py.File(path, "a") as h:
            v = h["chan1"][name]["version"]
            v[()] = v[()] + int(rng.choice([-1, 1, 4]))
            ctx.check(ctx.raises(lambda: mp.PhaseCorrector.fromHDF5(h["chan1"], name=name), Exception) is not None, "another version is refused", name)
            ctx.count("versions refused")
    ctx.nontrivial(tuple(hist))


@monitor(40, 400)
def timedrift(ctx):
    from mass.core.channel import time_drift_correct
    from mass.mathstat.entropy import laplace_entropy
    from numpy.polynomial import legendre as L
    rng = ctx.rng
    n = int(rng.choice([50, 400, 1500, 5000]))
    pk = lines_of(rng)
    res = float(rng.choice([5e-4, 1e-3]))
    which, t = truth(rng, n, pk, res)
    T = float(rng.choice([100, 5000, 50000]))
    time = np.sort(rng.uniform(0, T, n)) + float(rng.choice([0, 1.6e9]))
    x = (time - time.min()) / (time.max() - time.min()) * 2 - 1
    size = float(rng.choice([0, 5e-4, 2e-3]))
    nd = int(rng.choice([1, 2, 3]))
    coef = np.hstack([0, rng.uniform(-1, 1, nd)])
    g = 1 + size * L.legval(x, coef)
    v = t / g
    if rng.random() < .3:
        v[rng.random(n) < .03] *= 3
    w = float(rng.choice([1., 3.]))
    kw = dict(ndeg=int(rng.integers(1, 5))) if rng.random() < .5 else dict(sec_per_degree=float(rng.choice([50, 2000])), pulses_per_degree=float(rng.choice([100, 2000])), max_degrees=int(rng.choice([1, 4, 20])))
    if rng.random() < .5:
        kw["limit"] = [.3 * pk[0], 1.4 * pk[-1]]
    ctx.case = dict(n=n, lines=pk.tolist(), T=T, injected=size, nd=nd, w=w, **{k: str(a) for k, a in kw.items()})
    t0, v0 = time.copy(), v.copy()
    info = time_drift_correct(time, v, w, **kw)
    ctx.same(time, t0, "times modified")
    ctx.same(v, v0, "values modified")
    lim = kw.get("limit", [0, 1.25 * np.percentile(v, 99)])
    use = (v > lim[0]) & (v < lim[1])
    ctx.check(info["tmin"] == time[use].min() and info["tmax"] == time[use].max(), "time range", f"{info['tmin']} {info['tmax']}")
    z = info["normalize"](time)
    ctx.close(z, 2 * (time - info["tmin"]) / (info["tmax"] - info["tmin"]) - 1, "normalized times", 1e-9, 1e-9)
    m = info["model"](z)
    cs = np.hstack([0, info["coefficients"]])
    ctx.check(bool(np.all(np.isfinite(m))), "model finite", "")
    if np.any(m):
        ctx.close(m, L.legval(z, cs), "model is the Legendre series of its coefficients", 1e-6, 1e-9)
    N = int(use.sum())
    if "ndeg" in kw:
        nd_want, down = kw["ndeg"], 1
    else:
        nd_want = max(1, min(int(min((info["tmax"] - info["tmin"]) / kw["sec_per_degree"], N / kw["pulses_per_degree"])), kw["max_degrees"]))
        per = N / nd_want
        down = int(per / kw["pulses_per_degree"]) if per >= 2 * kw["pulses_per_degree"] else 1
    ctx.check(len(info["coefficients"]) == nd_want, "number of degrees", f"{len(info['coefficients'])} want {nd_want}")
    uu = v[use][::down]
    h0 = laplace_entropy(uu, w)
    h1 = laplace_entropy(uu * (1 + m[use][::down]), w)
    ctx.close(info["entropies"][0], h0, "entropy of the uncorrected values", 1e-9)
    ctx.check(h1 <= h0 + 1e-9, "sharpness no worse", f"{h0} -> {h1}")
    if n >= 1500 and nd_want >= nd and size > 0 and "limit" in kw and nd_want <= 6 and len(uu) > 300 * nd_want:
        c = v * (1 + m)
        ok = v < lim[1]
        s0, s1 = spread(v[ok], which[ok], pk), spread(c[ok], which[ok], pk)
        ctx.check(s1 <= 1.3 * res + .25 * size, "injected time drift removed", f"{s0} -> {s1}, intrinsic {res}")
        ctx.nontrivial(n, nd, size, w)
    if size == 0 and len(uu) > 300 * nd_want:
        ctx.check(np.median(np.abs(m)) <= .5 * res, "no drift: negligible change", f"{np.median(np.abs(m))}")


COLUMNS = ["pretrig_mean", "pretrig_rms", "pulse_average", "pulse_rms", "promptness", "filt_value", "filt_phase", "timestamp", "rise_time", "energy", "min_value"]


@monitor(30, 300)
def channels(ctx):
    from mass.core import analysis_algorithms as aa
    from mass.core.channel import time_drift_correct
    from mass.core import phase_correct as mp
    rng = ctx.rng
    chans = [2, 5][:int(rng.integers(1, 3))]
    pk = np.array([3000., 5000, 6500])[:int(rng.integers(1, 4))]
    n = {c: int(rng.choice([350, 900])) for c in chans}
    f = vg.make_files(ctx, chans=chans, n=n, nnoise=0, ns=24, npre=8)
    cat = rng.random() < .5
    kw = dict(noise=False)
    g = vg.open_group(f, **kw)
    g.summarize_data()
    truthv, good, cats = {}, {}, {}
    for c in chans:
        ds = g.channel[c]
        which, t = truth(rng, n[c], pk, 1e-3)
        ptm = 2000 + 20 * np.sin(np.arange(n[c]) / 60.) + rng.normal(0, 1, n[c])
        ph = rng.uniform(-.5, .5, n[c])
        ds.p_pretrig_mean[:] = ptm
        ds.p_filt_phase[:] = ph
        ds.p_filt_value[:] = t / (1 + (ptm - 2000) * float(rng.choice([0, 1e-4, -3e-4]))) * (1 + float(rng.choice([0, 2e-3])) * ph)
        good[c] = rng.random(n[c]) < .85
        ds.p_filt_value[:] = np.where(good[c], ds.p_filt_value[:], ds.p_filt_value[:] * rng.uniform(0, 3, n[c]))
        ds.cuts.cut("pretrigger_rms", ~good[c])
        cats[c] = rng.random(n[c]) < .7
    category = {}
    if cat:
        g.register_categorical_cut_field("sort", ["a", "b"])
        for c in chans:
            g.channel[c].cuts.cut("sort", np.where(cats[c], 1, 2))
            good[c] = good[c] & cats[c]
        category = {"sort": "a"}
    ctx.case = dict(n=n, lines=pk.tolist(), category=cat)

    def snap(ds, but):
        return {k: v[:] for k, v in ds.hdf5_group.items() if hasattr(v, "shape") and v.shape == (ds.nPulses,) and k not in but}

    def unchanged(ds, s, what):
        for k, v in s.items():
            ctx.same(ds.hdf5_group[k][:], v, what + " changed column " + k)

    def as32(x):
        return np.asarray(x, "f4")
    how = str(rng.choice(["group", "channel"]))
    snaps = {c: snap(g.channel[c], {"filt_value_dc"}) for c in chans}
    if how == "group":
        g.drift_correct(category=category)
    else:
        for c in chans:
            g.channel[c].drift_correct(category=category)
    want = {}
    for c in chans:
        ds = g.channel[c]
        fv, ptm = ds.p_filt_value[:], ds.p_pretrig_mean[:]
        p, info = aa.drift_correct(ptm[good[c]], fv[good[c]])
        at = dict(ds.p_filt_value_dc.attrs)
        ctx.check(at["slope"] == p and at["median_pretrig_mean"] == np.median(ptm[good[c]]), "channel drift parameters", f"{at} {p}")
        want[c] = dict(dc=as32(fv * (1 + (ptm - np.median(ptm[good[c]])) * p)))
        ctx.close(ds.p_filt_value_dc[:], want[c]["dc"], "drift-corrected column", 4e-7)
        unchanged(ds, snaps[c], "drift correction")
    pcattr = str(rng.choice(["p_filt_value_dc", "p_filt_value"]))
    snaps = {c: snap(g.channel[c], {"filt_value_phc", "filt_phase_corr"}) for c in chans}
    m2017 = True
    g.phase_correct(attr=pcattr, category=category, ph_peaks=pk, method2017=m2017)
    for c in chans:
        ds = g.channel[c]
        ctx.check(c in [d.channum for d in g], "channel lost", f"{g.why_chan_bad}")
        src, ph = getattr(ds, pcattr)[:], ds.p_filt_phase[:]
        pc = mp.phase_correct(ph[good[c]], src[good[c]], ph_peaks=pk)
        sub = rng.choice(n[c], 120, replace=False)
        ctx.close(ds.p_filt_value_phc[:], as32(pc(ph, src)), "phase-corrected column", 4e-7)
        ctx.close(ds.p_filt_value_phc[:][sub], phase_formula(pc, ph[sub], src[sub]), "phase-corrected column, from the knots", 5e-7)
        typical = _nat(pc.phase_uniformifier_x, pc.phase_uniformifier_y)[0]
        ctx.close(ds.p_filt_phase_corr[:], as32(ph - typical(src.astype(float))), "corrected phases", 1e-5, 2e-6)
        ctx.check(ds.phaseCorrector.uncorrectedName == pcattr and ds.phaseCorrector.indicatorName == "p_filt_phase", "names of the ingredients", "")
        unchanged(ds, snaps[c], "phase correction")
        want[c]["phc"] = ds.p_filt_value_phc[:]
    snaps = {c: snap(g.channel[c], {"filt_value_tdc"}) for c in chans}
    tattr = str(rng.choice(["p_filt_value_phc", "p_filt_value_dc"]))
    ppd = int(rng.choice([100, 2000]))
    spd = float(rng.choice([1., 2000.]))
    g.time_drift_correct(attr=tattr, category=category, pulses_per_degree=ppd, sec_per_degree=spd)
    for c in chans:
        ds = g.channel[c]
        src = getattr(ds, tattr)[:]
        mid = np.median(src[good[c]])
        use = good[c] & (np.abs(src / mid - 1) < .5)
        info = time_drift_correct(ds.p_timestamp[:][use], src[use], max(mid / 3000., 1.), sec_per_degree=spd, pulses_per_degree=ppd, limit=[.5 * mid, 2 * mid])
        ctx.close(ds.p_filt_value_tdc[:], as32(src * (1 + info["model"](info["normalize"](ds.p_timestamp[:])))), "time-corrected column", 4e-7)
        unchanged(ds, snaps[c], "time-drift correction")
        want[c]["tdc"] = ds.p_filt_value_tdc[:]
    pcs = {c: g.channel[c].phaseCorrector for c in chans}
    # asked again, nothing happens unless forced
    g.drift_correct(category=category)
    g.phase_correct(category={})
    g.time_drift_correct(category={})

    def same_results(what):
        for c in chans:
            ds = g.channel[c]
            ctx.close(ds.p_filt_value_dc[:], want[c]["dc"], what + " dc", 4e-7)
            ctx.same(ds.p_filt_value_phc[:], want[c]["phc"], what + " phc")
            ctx.same(ds.p_filt_value_tdc[:], want[c]["tdc"], what + " tdc")
    same_results("repeated:")
    vg.close_group(g)
    g = vg.open_group(f, **kw)
    same_results("reopened:")
    for c in chans:
        ds = g.channel[c]
        xp, xv = rng.uniform(-1, 1, 50), rng.uniform(100, 9000, 50)
        ctx.same(ds.phaseCorrector(xp, xv), pcs[c](xp, xv), "reopened phase corrector")
        ctx.check(ds.drift_correct_info["slope"] == ds.p_filt_value_dc.attrs["slope"], "reopened drift parameters", "")
    if cat or how == "group":
        # forced, with all good pulses
        g.drift_correct(forceNew=True)
        for c in chans:
            ds = g.channel[c]
            gd = ds.cuts.good()
            p, _ = aa.drift_correct(ds.p_pretrig_mean[:][gd], ds.p_filt_value[:][gd])
            ctx.check(ds.p_filt_value_dc.attrs["slope"] == p, "forced drift correction", "")
            ctx.close(ds.p_filt_value_dc[:], as32(ds.p_filt_value[:] * (1 + (ds.p_pretrig_mean[:] - np.median(ds.p_pretrig_mean[:][gd])) * p)), "forced drift-corrected column", 4e-7)
    vg.close_group(g)
    ctx.nontrivial(len(chans), len(pk), cat, how, pcattr, tattr)
