"""C26: peak finding and line assignment against exhaustive search."""
import itertools

import numpy as np
import mass
from mass.calibration import algorithms as al
from mass.calibration.energy_calibration import STANDARD_FEATURES, EnergyCalibration

from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case draws pulse heights (clusters, ties, uniform background, one value, two values, any order, offset and type) and compares the reported maxima with the sign changes of the exact derivative of the Gaussian-smoothed density; or draws "
        "peak lists with true, extra and misplaced peaks in any order and compares the assignment with exhaustive search over every subset of the candidates in use; or builds fit ranges around known, excluded and crowded lines; or calibrates a simulated "
        "spectrum from end to end. Non-trivial = more than one peak, or more than one candidate subset.")
ASSUMPTIONS = ["maxima that do not rise above the rounding error of the Fourier smoothing (1e-12 of the highest) are not judged, nor are shifts below one histogram bin (1/131072 of the range)",
               "pulse-height ranges span at most 3000 smoothing widths, so that the smoothing width is resolved by the histogram",
               "peak positions and line energies are distinct"]

NB = 128 * 1024


def heights(rng):
    n = int(rng.choice([1, 2, 3, 10, int(rng.integers(4, 60)), int(rng.integers(50, 300))]))
    k = int(rng.integers(8))
    x = [lambda: rng.normal(size=n), lambda: rng.integers(0, 6, n) * 1., lambda: np.full(n, 1.), lambda: rng.choice(rng.random(4) * 40, n) + rng.normal(size=n) * .3,
         lambda: rng.random(n) * 30, lambda: rng.choice([0., 1.], n), lambda: np.linspace(0, 10, n), lambda: np.concatenate([rng.normal(size=n), rng.random(n) * 100 - 50, [400.]])][k]()
    return x, k


@monitor(110, 2500)
def maxima(ctx):
    rng = ctx.rng
    x, k = heights(rng)
    scale = float(10**rng.uniform(-1, 4))
    off = float(rng.choice([0, 0, 5, -3, 100])) * scale
    x = x * scale + off
    span = np.ptp(x)
    fw = float(10**rng.uniform(-2, 1)) * scale
    fw = max(fw, span / 3000)
    typ = int(rng.integers(6))
    if typ == 0 and scale > 20:
        x = np.rint(x).astype(np.int64)
    elif typ == 1:
        x = x.astype(np.float32)
        fw = max(fw, 1e-4 * float(np.max(np.abs(x))))
    arg = x.tolist() if typ == 2 else x
    x = np.asarray(x, float)
    ctx.case.update(n=len(x), kind=k, fwhm=fw, scale=scale, off=off, typ=typ)
    got, gy = al.find_local_maxima(arg, fw)
    ctx.count("maxima_calls")
    ctx.check(len(got) == len(gy), "maxima:lengths", f"{len(got)} places, {len(gy)} heights")
    ctx.check(np.all(np.diff(gy) <= 0), "maxima:order", "heights are not in descending order")
    ctx.check(len(np.unique(got)) == len(got) or typ == 1, "maxima:distinct", "a maximum is reported twice")
    sig = fw / np.sqrt(8 * np.log(2))
    lo, hi = x.min() - 3 * fw, x.max() + 3 * fw
    bw = (hi - lo) / NB
    quantum = float(np.max(np.abs(x))) * 2.**-22 * 2 if typ == 1 else 0.   # binary32 bin edges
    slack = bw + quantum + 1e-12 * float(np.max(np.abs([lo, hi])))

    def dens(u):
        z = (u[:, None] - x) / sig
        g = np.exp(-.5 * z * z) / (np.sqrt(2 * np.pi) * sig)
        return g.sum(1), (-z * g / sig).sum(1), (np.exp(-.5 * np.maximum(np.abs(z) - 3 * slack / sig, 0)**2) * (1 + z * z)).sum(1) / (np.sqrt(2 * np.pi) * sig**3)
    # sign changes of the derivative, beyond what a shift of any value by a bin, or rounding, can produce
    m = max(200, int(np.ceil((hi - lo) / (sig / 8))))
    u = np.unique(np.concatenate([np.linspace(lo, hi, min(m, 40000)), x, (x[:-1] + x[1:]) / 2]))
    K, D, C = (np.concatenate(q) for q in zip(*[dens(u[i:i + 500]) for i in range(0, len(u), 500)]))
    kmax = K.max()
    tol = C * 2 * slack + 3e-13 * kmax * len(x) / bw / max(1, len(x)) + 1e-9 * kmax / sig
    s = np.where(D > tol, 1, np.where(D < -tol, -1, 0))
    nz = np.flatnonzero(s)
    br = [(u[a], u[b]) for a, b in zip(nz[:-1], nz[1:]) if s[a] > 0 > s[b]]
    if not br:
        return
    g = np.sort(np.asarray(got, float))
    for a, b in br:
        c = np.searchsorted(g, b + slack, "right") - np.searchsorted(g, a - slack)
        ctx.check(c >= 1, "maxima:missed", f"no maximum reported between {a!r} and {b!r} (smoothing {fw})")
        ctx.count("true_maxima")
    # every reported maximum that is more than rounding is a place where the derivative vanishes
    big = np.asarray(gy) > 1e-6 * kmax * bw
    ctx.check(big.any(), "maxima:empty", "no maximum of any height")
    for p, h in list(zip(np.asarray(got, float)[big], np.asarray(gy)[big]))[:400]:
        Kp, Dp, Cp = dens(np.array([p]))
        t = 2 * Cp[0] * 2 * slack + 1e-7 * kmax / sig + 3e-13 * kmax / bw
        ctx.check(abs(Dp[0]) <= t, "maxima:false", f"{p!r} is reported but the density there has slope {Dp[0]:.3g} (tolerance {t:.3g})")
        th = abs(Cp[0]) * sig * 2 * slack + 1e-4 * Kp[0] + 1e-9 * kmax
        ctx.check(abs(h - Kp[0] * bw) <= th * bw + 1e-9 * kmax * bw or typ == 1, "maxima:height", f"height {h!r}, smoothed density times bin {Kp[0] * bw!r}")
        ctx.count("maxima_checked")
    # a bigger group of pulses comes first
    top = float(np.asarray(got, float)[0])
    Kt = dens(np.array([top]))[0][0]
    ctx.check(Kt >= kmax * (1 - 1e-4) - (C.max() * sig * 2 * slack), "maxima:first", f"first maximum {top!r} has density {Kt!r}, the highest is {kmax!r}")
    if len(br) > 1:
        ctx.nontrivial("maxima", min(len(br), 9), k)
    else:
        ctx.nontrivial("maxima1", k)
    # order of the pulses
    if rng.random() < .3:
        p2, y2 = al.find_local_maxima(np.asarray(arg)[rng.permutation(len(x))], fw)
        ctx.same(p2, got, "maxima:shuffled")
        ctx.same(y2, gy, "maxima:shuffled heights")


def objective(pos, en):
    """Relative miss of each interior peak from its neighbours' line, in quadrature."""
    t = 0.
    for i in range(1, len(en) - 1):
        f = (en[i] - en[i - 1]) / (en[i + 1] - en[i - 1])
        t += ((pos[i - 1] * (1 - f) + pos[i + 1] * f - pos[i]) / (pos[i + 1] - pos[i - 1]))**2
    return t**.5


NAMED = sorted((n for n, e in STANDARD_FEATURES.items() if 200 < e < 20000), key=lambda n: STANDARD_FEATURES[n])


def lines(rng, n):
    """n lines of distinct energy, by name or energy, in random order; (labels, sorted energies, labels sorted)."""
    while True:
        mode = rng.integers(3)
        if mode == 0:
            lab = [str(q) for q in rng.choice(NAMED, n, replace=False)]
        elif mode == 1:
            lab = [float(q) for q in np.round(rng.uniform(500, 9000, n), 2)]
        else:
            lab = [str(q) if rng.random() < .5 else float(np.round(STANDARD_FEATURES[q] + rng.uniform(-30, 30), 1)) for q in rng.choice(NAMED, n, replace=False)]
        en = np.array([STANDARD_FEATURES[q] if isinstance(q, str) else q for q in lab])
        if n < 2 or np.diff(np.sort(en)).min() > 1:
            break
    o = np.argsort(en)
    return lab, en[o], [lab[i] for i in o]


@monitor(300, 8000)
def assignment(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 3, 4, 4, 5, 6]))
    lab, en, slab = lines(rng, n)
    pw = float(rng.uniform(.75, 1.05))
    gain = float(10**rng.uniform(-1, 1))
    true = gain * en**pw
    nex = int(rng.choice([0, 1, 2, 3, 5, 8]))
    extra = rng.uniform(.3, 1.3, nex) * true[rng.integers(0, n, nex)]
    jit = float(rng.choice([0, 0, .002, .02, .3]))
    pk = np.concatenate([true * (1 + jit * rng.normal(size=n)), extra])
    if rng.random() < .1:
        pk = pk[1:]
    pk = np.abs(pk)
    if len(np.unique(pk)) < len(pk):
        ctx.need(False)
    how = int(rng.integers(3))
    if how == 0:
        pk = pk[rng.permutation(len(pk))]
    elif how == 1:
        pk = np.sort(pk)
    kw = {}
    if rng.random() < .6:
        kw = dict(nextra=int(rng.integers(0, 4)), nincrement=int(rng.integers(1, 4)), nextramax=int(rng.integers(0, 9)), maxacc=float(rng.choice([.015, .002, .1, 1e-5])))
    ctx.case.update(labels=lab, peaks=[float(q) for q in pk], kw=kw)
    nextra, inc, mx, acc = (kw.get(k, d) for k, d in (("nextra", 2), ("nincrement", 3), ("nextramax", 8), ("maxacc", .015)))
    # the documented search: the first len+nextra peaks, then nincrement more while the best is not good enough
    use = n + nextra
    want = near = None
    subsets = 0
    while True:
        cand = sorted((objective(c, en), c) for c in (tuple(sorted(q)) for q in itertools.combinations([float(q) for q in pk[:use]], n)))
        subsets += len(cand)
        if not cand:
            break
        best = cand[0][0]
        lim = acc * np.sqrt(n)
        if abs(best - lim) < 1e-9 * max(lim, 1e-6):
            near = True
        if best <= lim:
            want = [c for o, c in cand if o <= best * (1 + 1e-9) + 1e-12]
            break
        use += inc
        if use > n + mx:
            break
    ctx.need(near is None)
    arg = (pk.tolist(), pk, tuple(pk.tolist()))[int(rng.integers(3))]
    try:
        names, e_out, pos = al.find_opt_assignment(arg, lab if rng.random() < .7 else tuple(lab), **kw)
    except ValueError as e:
        ctx.count("refused")
        ctx.check(want is None, "assign:refused", f"no assignment ({e}) although {want and want[0]} qualifies")
        return
    ctx.count("assignments")
    ctx.count("subsets_searched", subsets)
    ctx.check(want is not None, "assign:accepted", f"{pos} is not within the required accuracy")
    ctx.check(list(names) == slab, "assign:names", f"names {names}, in order of energy {slab}")
    ctx.same(np.asarray(e_out, float), en, "assign:energies")
    pos = [float(q) for q in pos]
    ctx.check(all(a < b for a, b in zip(pos, pos[1:])), "assign:order", f"positions are not increasing {pos}")
    ctx.check(set(pos) <= set(float(q) for q in pk), "assign:peaks", "a position that is not a peak")
    if n > 2:
        ctx.check(tuple(pos) in want, "assign:best", f"objective {objective(pos, en)} for {pos}, but {want[0]} has {objective(want[0], en)}")
        if subsets > 1:
            ctx.nontrivial("assign", n, min(subsets, 50), how)
    else:
        ctx.check(set(pos) <= set(float(q) for q in pk[:use]), "assign:candidates", "a peak beyond the first ones is used")
        ctx.nontrivial("assign_any", n, how)


@monitor(150, 3000)
def ranges(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 7))
    x = int(rng.choice([0, 0, 1, 3]))
    lab, en, slab = lines(rng, n + x)
    pick = rng.permutation(n + x)
    inc, exc = [lab[i] for i in pick[:n]], [lab[i] for i in pick[n:]]
    val = lambda q: STANDARD_FEATURES[q] if isinstance(q, str) else q
    ien = np.sort([val(q) for q in inc])
    width = float(10**rng.uniform(.5, 3.5))
    cal = EnergyCalibration(int(rng.integers(1, 2)), approximate=False)
    gain, pw = float(10**rng.uniform(-1, 1)), float(rng.uniform(.8, 1.0))
    for e in np.sort(np.unique(np.concatenate([en, [300., 3000., 12000.]]))):
        cal.add_cal_point(gain * e**pw, e)
    ctx.case.update(inc=inc, exc=exc, width=width, gain=gain, pw=pw)
    e1, r1, s1 = al.build_fit_ranges(inc, exc, cal, width)
    e2, r2, s2 = al.build_fit_ranges_ph(inc, exc, cal, width)
    ctx.count("ranges", n)
    ctx.same(np.asarray(e1, float), ien, "range:energies")
    ctx.same(np.asarray(e2, float), ien, "range:ph energies")
    ctx.check(len(r1) == len(r2) == len(s1) == len(s2) == n, "range:lengths", "one range per line")
    for i, e in enumerate(ien):
        below, above = en[en < e], en[en > e]
        lo = max([e - width / 2] + ([(e + below.max()) / 2] if len(below) else []))
        hi = min([e + width / 2] + ([(e + above.min()) / 2] if len(above) else []))
        ctx.close(r1[i][0], lo, "range:low", rtol=1e-12, atol=1e-9)
        ctx.close(r1[i][1], hi, "range:high", rtol=1e-12, atol=1e-9)
        ctx.check(r1[i][0] < e < r1[i][1], "range:contains", f"{r1[i]} does not contain {e}")
        p, q = (float(v) for v in r2[i])
        ctx.check(p < float(cal.energy2ph(e)) < q, "range:ph contains", f"{p, q} does not contain the line's pulse height")
        if lo > 305:
            ctx.close(float(cal(p)), lo, "range:ph low", rtol=1e-6, atol=1e-3)
            ctx.close(float(cal(q)), hi, "range:ph high", rtol=1e-6, atol=1e-3)
        ph = float(cal.energy2ph(e))
        h = 1e-4 * ph
        num = (float(cal(ph + h)) - float(cal(ph - h))) / (2 * h)
        ctx.close(float(np.ravel(s1[i])[0]), num, "range:slope", rtol=2e-3, atol=0)
        ctx.close(float(np.ravel(s2[i])[0]), float(np.ravel(s1[i])[0]), "range:ph slope", rtol=1e-12, atol=0)
    for rr in (r1, r2):
        for (a, b), (c, d) in zip(rr[:-1], rr[1:]):
            ctx.check(float(b) <= float(c) * (1 + 1e-9), "range:overlap", f"{a, b} and {c, d} overlap")
    ctx.nontrivial("ranges", n, x, width > np.diff(en).min() if len(en) > 1 else 0)
    nm, ee = al.line_names_and_energies(inc)
    ctx.check([val(q) for q in nm] == list(ee) == sorted(ee), "range:line names", f"{nm} {ee}")


SPECT = ["MgKAlpha", "AlKAlpha", "SiKAlpha", "ClKAlpha", "ScKAlpha", "TiKAlpha", "VKAlpha", "CrKAlpha", "MnKAlpha", "FeKAlpha", "CoKAlpha", "NiKAlpha", "CuKAlpha", "MnKBeta", "CuKBeta"]


@monitor(12, 150)
def autocal(ctx):
    """Simulated spectrum through a smooth gain curve, calibrated with no help."""
    rng = ctx.rng
    n = int(rng.integers(4, 7))
    avail = [q for q in SPECT if q in mass.spectra and q in STANDARD_FEATURES]
    while True:
        lab = [str(q) for q in rng.choice(avail, n, replace=False)]
        en = np.sort([STANDARD_FEATURES[q] for q in lab])
        if np.diff(en).min() > 250:
            break
    gain, pw, fwhm = float(rng.uniform(1, 3)), float(rng.uniform(.85, 1.0)), float(rng.uniform(3, 8))
    e = np.concatenate([mass.spectra[q].rvs(size=int(rng.integers(1500, 4000)), instrument_gaussian_fwhm=fwhm, rng=rng) for q in lab])
    e = e[e > 50]
    ph = gain * e**pw
    ph = ph[rng.permutation(len(ph))]
    ctx.case.update(lab=lab, gain=gain, pw=pw, fwhm=fwhm, n=len(ph))
    slope = lambda q: gain * pw * q**(pw - 1)
    # is the answer determined: the strongest maxima must include the lines, and no other subset fit better
    lm, _ = al.find_local_maxima(ph, 12 * float(slope(en[n // 2])))
    true = gain * en**pw
    near = np.abs(lm[:n + 2, None] - true).min(0)
    ctx.need(bool(np.all(near < 8 * slope(en))))
    cal = EnergyCalibration()
    auto = al.EnergyCalibrationAutocal(cal, ph, list(lab))
    auto.guess_fit_params(smoothing_res_ph=12 * float(slope(en[n // 2])), fit_range_ev=120., binsize_ev=1.0)
    ctx.same(np.asarray(auto.energies_opt, float), en, "autocal:energies")
    pos = np.asarray(auto.ph_opt, float)
    ctx.need(bool(np.all(np.abs(pos - true) < 8 * slope(en))))
    auto.fit_lines()
    ctx.count("autocal")
    ctx.check(len(auto.results) == n and len(auto.energy_resolutions) == n, "autocal:results", "one fit per line")
    ctx.check(not auto.anyfailed, "autocal:failed", "a fit failed")
    ctx.check(list(auto.line_names) == sorted(lab, key=lambda q: STANDARD_FEATURES[q]), "autocal:names", f"{auto.line_names}")
    ctx.check(sorted(cal.cal_point_names) == sorted(lab), "autocal:points", f"{cal.cal_point_names}")
    for q, r, res in zip(auto.line_names, auto.results, auto.energy_resolutions):
        E = STANDARD_FEATURES[q]
        ctx.check(abs(float(cal(gain * E**pw)) - E) < 2.0, "autocal:energy", f"{q} at {E} is calibrated to {float(cal(gain * E**pw))}")
        ctx.check(r.model.spect.peak_energy == mass.spectra[q].peak_energy, "autocal:model", f"the fit of {q} uses another line's shape")
        got = r.best_values["peak_ph"]
        ctx.check(abs(got - gain * mass.spectra[q].peak_energy**pw) < 3 * slope(E), "autocal:peak", f"{q}: fitted peak {got}, true {gain * E**pw}")
        ctx.check(.4 * fwhm < res < 2.2 * fwhm, "autocal:resolution", f"{q}: resolution {res} eV, true {fwhm}")
    # through one call, the same
    cal2 = al.EnergyCalibrationAutocal(EnergyCalibration(), ph, list(lab)[::-1]).autocal(smoothing_res_ph=12 * float(slope(en[n // 2])), fit_range_ev=120., binsize_ev=1.0)
    ctx.close(cal2(true), cal(true), "autocal:one call", rtol=1e-6, atol=1e-3)
    ctx.nontrivial("autocal", n)


@monitor(40, 400)
def models(ctx):
    """get_model of every kind of label."""
    rng = ctx.rng
    k = int(rng.integers(4))
    if k == 0:
        q = str(rng.choice(sorted(n for n in mass.spectra if isinstance(n, str))))
        want = mass.spectra[q].peak_energy
        arg = q
    elif k == 1:
        q = str(rng.choice(sorted(n for n in STANDARD_FEATURES if n not in mass.spectra)))
        want, arg = STANDARD_FEATURES[q], q
    elif k == 2:
        want = float(np.round(rng.uniform(100, 9000), 3))
        arg = (want, np.float64(want), int(want))[int(rng.integers(3))]
        want = float(arg)
    else:
        q = str(rng.choice(sorted(n for n in mass.spectra if isinstance(n, str))))
        arg = mass.spectra[q] if rng.random() < .5 else mass.spectra[q].model()
        want = mass.spectra[q].peak_energy
    bg, tails = bool(rng.random() < .5), bool(rng.random() < .5)
    ctx.case.update(kind=k, arg=str(arg), bg=bg, tails=tails)
    m = al.get_model(arg, has_linear_background=bg, has_tails=tails)
    ctx.count("models")
    ctx.close(m.spect.peak_energy, want, "model:energy", rtol=1e-9, atol=1e-6)
    names = set(m.make_params())
    ctx.check(("background" in names) == bg and ("bg_slope" in names) == bg, "model:background", f"{sorted(names)}, background asked: {bg}")
    ctx.check(("tail_frac" in names) == tails, "model:tails", f"{sorted(names)}, tails asked: {tails}")
    ctx.nontrivial("model", k, bg, tails)
    ctx.check(ctx.raises(lambda: al.get_model("NoSuchLine"), al.FailedToGetModelException) is not None, "model:unknown", "an unknown line gives a model")


@monitor(6, 60)
def many(ctx):
    """Tens of thousands of candidate subsets."""
    rng = ctx.rng
    n, m = [(9, 17), (8, 16), (5, 32), (4, 45), (10, 18), (3, 90)][int(rng.integers(6))]
    en = np.sort(rng.uniform(500, 9000, n))
    ctx.need(np.diff(en).min() > 40)
    true = float(rng.uniform(.3, 4)) * en ** float(rng.uniform(.97, 1))
    lo, hi = true[0], true[-1]
    junk = np.sort(rng.uniform(.4 * lo, 1.3 * hi, m - n))
    pk = np.concatenate([junk, true]) if rng.random() < .6 else rng.permutation(np.concatenate([junk, true]))
    ctx.need(len(np.unique(pk)) == m)
    ctx.case.update(energies=en, peaks=pk)
    fr = (en[1:-1] - en[:-2]) / (en[2:] - en[:-2])
    c = np.sort(np.array(list(itertools.combinations(pk, n))), axis=1)
    est = c[:, :-2] * (1 - fr) + c[:, 2:] * fr
    ob = np.sqrt((((est - c[:, 1:-1]) / (c[:, 2:] - c[:, :-2])) ** 2).sum(axis=1))
    best = ob.min()
    names, e_out, pos = al.find_opt_assignment(pk, [float(q) for q in en], nextra=m - n, nextramax=m, maxacc=10.)
    got = objective([float(q) for q in pos], en)
    ctx.check(set(map(float, pos)) <= set(map(float, pk)), "assign:peaks", "a position that is not a peak")
    ctx.check(got <= best * (1 + 1e-9) + 1e-12, "assign:best", f"objective {got}, but {best} is possible among {len(c)}")
    ctx.count("subsets_searched", len(c))
    ctx.nontrivial(n, m)


@monitor(10, 120)
def drawn(ctx):
    """Calibration on lines given as names, energies or both; its diagnostic plot shows every fit and the curve."""
    import matplotlib
    matplotlib.use("agg")
    import matplotlib.pyplot as plt
    rng = ctx.rng
    n = int(rng.integers(3, 7))
    named = [q for q in SPECT if q in mass.spectra and q in STANDARD_FEATURES]
    lines = []
    for _ in range(200):
        if rng.random() < .5:
            lab = str(rng.choice(named))
            en = STANDARD_FEATURES[lab]
        else:
            en = float(np.round(rng.uniform(1000, 9000), 1))
            lab = (en, np.float64(en))[int(rng.integers(2))]
            if rng.random() < .3:
                lab = int(en)
                en = float(lab)
        if all(abs(en - o) > 300 for _, o in lines):
            lines.append((lab, en))
        if len(lines) == n:
            break
    ctx.need(len(lines) == n)
    gain, pw, fwhm = float(rng.uniform(1, 3)), float(rng.uniform(.88, 1.0)), float(rng.uniform(4, 8))
    slope = lambda q: gain * pw * q**(pw - 1)
    e = np.concatenate([mass.spectra[lab].rvs(size=2000, instrument_gaussian_fwhm=fwhm, rng=rng) if isinstance(lab, str) else en + rng.normal(size=2000) * fwhm / 2.3548 for lab, en in lines])
    e = e[e > 50]
    ph = gain * e**pw
    ph = ph[rng.permutation(len(ph))]
    ctx.case.update(lines=[str(q) for q, _ in lines], gain=gain, pw=pw, fwhm=fwhm)
    en = np.sort([q for _, q in lines])
    sm = 12 * float(slope(en[n // 2]))
    lm, _ = al.find_local_maxima(ph, sm)
    true = gain * en**pw
    ctx.need(bool(np.all(np.abs(lm[:n + 2, None] - true).min(0) < 8 * slope(en))))
    cal = EnergyCalibration()
    auto = al.EnergyCalibrationAutocal(cal, ph, [q for q, _ in lines])
    auto.guess_fit_params(smoothing_res_ph=sm, fit_range_ev=120., binsize_ev=1.0)
    ctx.same(np.asarray(auto.energies_opt, float), en, "drawn:energies")
    ctx.need(bool(np.all(np.abs(np.asarray(auto.ph_opt, float) - true) < 8 * slope(en))))
    auto.fit_lines()
    ctx.count("mixed lines calibrated")
    want = sorted(lines, key=lambda q: q[1])
    ctx.check([str(q) for q in auto.line_names] == [str(q) for q, _ in want], "drawn:names", f"{auto.line_names}")
    ctx.check(list(cal.cal_point_names) == [str(q) for q, _ in want], "drawn:point names", f"{cal.cal_point_names}")
    ctx.close(np.asarray(cal.cal_point_energies), en, "drawn:point energies", rtol=1e-12)
    for (lab, E), r, res in zip(want, auto.results, auto.energy_resolutions):
        ctx.check(abs(float(cal(gain * E**pw)) - E) < 2.0, "drawn:energy", f"{lab} at {E} is calibrated to {float(cal(gain * E**pw))}")
        ctx.check(.4 * fwhm < res < 2.2 * fwhm, "drawn:resolution", f"{lab}: resolution {res} eV, true {fwhm}")
    plt.close("all")
    cal.diagnose()
    ctx.count("diagnosed")
    ctx.check(len(plt.get_fignums()) == 1, "drawn:figures", f"{len(plt.get_fignums())} figures")
    ax = plt.gcf().axes
    ctx.check(len(ax) == n + 1, "drawn:panels", f"{len(ax)} panels for {n} lines")
    for a, (lab, E), r, res in zip(ax, want, auto.results, auto.energy_resolutions):
        text = " ".join(t.get_text() for t in a.texts)
        ctx.check(f"{res:.1f}" in text, "drawn:resolution text", f"{text!r}: resolution {res}")
        if isinstance(lab, str):
            ctx.check(lab[:2].rstrip("K") in text, "drawn:line text", f"{text!r} for {lab}")
        else:
            ctx.check(str(lab) in text, "drawn:line text", f"{text!r} for {lab}")
        ctx.check(len(a.lines) == 1 and len(a.patches) == 1, "drawn:panel content", f"{len(a.lines)} curves, {len(a.patches)} histograms")
        x, y = a.lines[0].get_data()
        ctx.close(y, r.model.eval(r.params, bin_centers=np.asarray(x)), "drawn:fit", rtol=1e-9, atol=1e-9)
        ctx.check(x.min() <= gain * E**pw <= x.max(), "drawn:panel range", f"{lab}: {x.min()}..{x.max()}")
        v = a.patches[0].get_xy()
        lo, hi = auto.fit_lo_hi[want.index((lab, E))]
        top = v[:, 1].max()
        ctx.check(top == r.data.max(), "drawn:histogram", f"highest bin drawn {top}, in the data {r.data.max()}")
        # the outline, read as a step function, is the histogram of the pulse heights
        mid = r.userkws["bin_centers"]
        w = mid[1] - mid[0]
        counts = np.histogram(ph, np.r_[mid - w / 2, mid[-1] + w / 2])[0]
        xs, ys = v[:2 * len(mid) + 2, 0], v[:2 * len(mid) + 2, 1]
        got = [ys[np.flatnonzero(xs < m)[-1]] for m in mid]
        ctx.check(np.abs(np.array(got) - counts).sum() <= 4, "drawn:histogram", f"{np.abs(np.array(got) - counts).sum()} counts differ")
    a = ax[-1]
    x, y = a.lines[0].get_data()
    ctx.close(y, cal(np.asarray(x)), "drawn:curve", rtol=1e-9)
    off = np.concatenate([c.get_offsets() for c in a.collections])
    ctx.close(np.asarray(off), np.stack([cal.cal_point_phs, cal.cal_point_energies], axis=1), "drawn:points", rtol=1e-12)
    ctx.check(len(a.texts) == n, "drawn:labels", f"{len(a.texts)} labels for {n} points")
    for t, (lab, E), p in zip(a.texts, want, cal.cal_point_phs):
        ctx.close(np.asarray(t.get_position()), np.array([p, E]), "drawn:label position", rtol=1e-9)
        ctx.check(t.get_text() != "Unknown" or type(lab).__name__ not in ("str", "float", "int"), "drawn:label", f"{lab} is labelled {t.get_text()!r}")
    plt.close("all")
    ctx.nontrivial(n, sum(isinstance(q, str) for q, _ in lines))
