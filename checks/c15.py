"""C15: line-fit models conserve counts, and fits maximise the Poisson likelihood."""
import numpy as np
import scipy.special
import mass
from mass.calibration import line_models as lm
from mass.mathstat.fitting import kink_model, fit_kink_model

from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case draws a line (registered, or one-component), gain, binning, resolution, background, tails and quantum efficiency, and compares the model's bins with scipy's Voigt profiles, convolved numerically with the exponential tails; or fits Poisson counts "
        "drawn from the model and compares the likelihood of the result with that of the truth, its parameters with the truth in units of their errors, and its totals with the data's; or repeats a fit with another prefix, gain, data type or as a composite. Non-trivial = any tail, background, gain other than 1, or fit.")
ASSUMPTIONS = ["bins are uniform and at most half the narrowest width of the broadened line, and cover it",
               "tails are judged to 1% of the tail fraction, because the discrete convolution cuts them off after six scale lengths",
               "quantum efficiency multiplies signal and background alike, as documented",
               "fits start from model.guess with the gain fixed; parameters are compared with the truth within six standard errors"]

F2S = np.sqrt(8 * np.log(2))
NAMES = [n for n in mass.spectra]


def pick_line(rng):
    if rng.random() < .75:
        n = str(rng.choice(NAMES))
        return n, mass.spectra[n]
    e = float(10**rng.uniform(2, 4.5))
    w, s = float(rng.choice([0, 1])) * e * 1e-4, float(rng.choice([0, 1])) * e * 2e-4
    return "quick", mass.SpectralLine.quick_monochromatic_line("q", e, w, s)


def voigts(l, E, res):
    sig = np.hypot(res / F2S, l.intrinsic_sigma)
    return sum(f * scipy.special.voigt_profile(E - e, sig, w / 2) for f, e, w in zip(l.normalized_lorentzian_integral_intensity, l.energies, l.lorentzian_fwhm))


def setting(ctx, narrow=.3, wide=6.):
    """(line, fwhm, peak_ph, dph_de, bin centers, energies)"""
    rng = ctx.rng
    name, l = pick_line(rng)
    e0 = float(l.nominal_peak_energy)
    fw = max(float(l.lorentzian_fwhm.max()), e0 * 2e-4)
    res = float(fw * rng.uniform(.5, 5))
    gain = float(rng.choice([1, 1, 2, .1, float(10**rng.uniform(-1.5, 1.5))]))
    pk = float(rng.uniform(.5, 2)) * e0 * gain
    step = float(rng.uniform(.1, .5)) * np.hypot(res, float(l.lorentzian_fwhm.min()))
    lo = float(l.energies.min()) - rng.uniform(3, 8) * max(res, fw)
    hi = float(l.energies.max()) + rng.uniform(3, 8) * max(res, fw)
    n = int(min(max(30, np.ceil((hi - lo) / step)), 3000))
    ctx.need((hi - lo) / n <= step * 1.01)
    E = lo + step * np.arange(n) + float(rng.random()) * step
    x = (E - l.peak_energy) * gain + pk
    return name, l, res, pk, gain, x, (x - pk) / gain + l.peak_energy


QES = {"flat": lambda e: .4 + np.zeros_like(e), "ramp": lambda e: np.clip(np.asarray(e) / 40000, 0, 1), "edge": lambda e: np.where(np.asarray(e) > 3000, .9, .3)}


@monitor(400, 30000)
def bins(ctx):
    rng = ctx.rng
    name, l, res, pk, gain, x, E = setting(ctx)
    integ = float(10**rng.uniform(0, 6))
    bg = float(rng.choice([0, 1, 30]) * rng.random())
    slope = float(rng.choice([0, 0, 1, -1]) * rng.random() * (bg + 1) / len(x) * 3)
    hasbg = bool(rng.random() < .7)
    qn = rng.choice([None, None, "flat", "ramp", "edge"])
    qe = QES.get(qn)
    prefix = str(rng.choice(["", "p_"]))
    m = l.model(has_linear_background=hasbg, prefix=prefix, qemodel=qe)
    ctx.case.update(line=name, res=res, pk=pk, gain=gain, n=len(x), integral=integ, bg=bg, slope=slope, hasbg=hasbg, qe=str(qn))
    kw = dict(fwhm=res, peak_ph=pk, dph_de=gain, integral=integ)
    if hasbg:
        kw.update(background=bg, bg_slope=slope)
    y = m.eval(bin_centers=x, **{prefix + k: v for k, v in kw.items()})
    sig = voigts(l, E, res) * integ * (x[1] - x[0]) / gain
    back = np.maximum(bg + slope * np.arange(len(x)), 0) if hasbg else np.zeros(len(x))
    q = np.asarray(qe(E)) if qe else 1.
    ctx.count("bins", len(x))
    tol = 1e-9 + 1e-14 * np.abs(x).max() / (x[1] - x[0])
    ctx.check(len(y) == len(x) and np.all(np.abs(y - q * (sig + back)) <= tol * (sig.max() + back.max())), "bins:value", f"worst {np.max(np.abs(y - q * (sig + back)))} of {y.max()}")
    if qe is None:
        # Counts in the range: the line's share of its integral, plus the background
        a, b = E[0] - (E[1] - E[0]) / 2, E[-1] + (E[1] - E[0]) / 2
        far = sum(f * (1 - (np.arctan((b - e) * 2 / w) - np.arctan((a - e) * 2 / w)) / np.pi) for f, e, w in zip(l.normalized_lorentzian_integral_intensity, l.energies, l.lorentzian_fwhm) if w > 0)
        tot = float(y.sum())
        ctx.check(abs(tot - integ * (1 - far) - back.sum()) <= integ * (.2 * far + 1e-2) + 1e-9 * tot, "bins:total", f"{tot} counts, integral {integ} x {1 - far} plus background {back.sum()}")
    if qe is not None and hasbg:
        m0 = l.model(has_linear_background=hasbg, prefix=prefix)
        ctx.close(m0.eval(bin_centers=x, **{prefix + k: v for k, v in kw.items()}) * q, y, "bins:quantum efficiency", rtol=1e-12, atol=0)
    p = m.make_params(**kw)
    ctx.close(m.eval(params=p, bin_centers=x), y, "bins:params", rtol=1e-12, atol=0)
    ctx.close(m.eval(params=p, bin_centers=x.tolist()), y, "bins:list", rtol=1e-12, atol=0)
    if gain != 1 or hasbg or qe:
        ctx.nontrivial("bins", name, hasbg, str(qn))
    # without the tails, a model with tails is the same
    mt = l.model(has_linear_background=hasbg, has_tails=True, prefix=prefix, qemodel=qe)
    yt = mt.eval(bin_centers=x, **{prefix + k: v for k, v in dict(kw, tail_frac=0., tail_tau=8., tail_share_hi=.3, tail_tau_hi=5.).items()})
    ctx.close(yt, y, "bins:no tails", rtol=1e-10, atol=1e-300)


def tailed(l, E, res, frac, tau, share, tau_hi):
    """The line convolved with its tails: integral of exp(-t) density(E +- t tau)."""
    gx, gw = np.polynomial.legendre.leggauss(6)
    base = voigts(l, E, res)
    out = (1 - frac) * base
    w = float(np.hypot(res, l.lorentzian_fwhm.min()))
    for part, s in ((frac * (1 - share), tau), (frac * share, -tau_hi)):
        if part <= 0:
            continue
        if s == 0:
            out = out + part * base
            continue
        T = 34.
        k = int(np.clip(np.ceil(T * abs(s) / (w / 3)), 60, 3000))
        ed = np.linspace(0, T, k + 1)
        h = T / k / 2
        t = ((ed[:-1] + h)[:, None] + h * gx).ravel()
        q = np.tile(h * gw, k)
        acc = np.zeros(len(E))
        for i in range(0, len(t), 400):
            acc += (voigts(l, E[:, None] + s * t[None, i:i + 400], res) * (q[i:i + 400] * np.exp(-t[i:i + 400]))).sum(1)
        out = out + part * acc
    return out


@monitor(180, 3000)
def tails(ctx):
    rng = ctx.rng
    name, l, res, pk, gain, x, E = setting(ctx)
    step = E[1] - E[0]
    ctx.need(step <= .35 * np.hypot(res, float(l.lorentzian_fwhm.min())))   # else the sampled line is aliased
    frac = float(rng.choice([.01, .1, .3, 1., rng.random()]))
    share = float(rng.choice([0, 0, 1, rng.random()]))
    tau, tau2 = (float(res * 10**rng.uniform(-.7, 1.2)) for _ in range(2))
    nom = l.nominal_peak_energy
    tau, tau2 = min(tau, nom / 10), min(tau2, nom / 10)
    integ = float(10**rng.uniform(0, 6))
    ctx.need(7 * max(tau, tau2) / step < 10 * len(x))
    ctx.case.update(line=name, res=res, pk=pk, gain=gain, n=len(x), frac=frac, share=share, tau=tau, tau2=tau2, integral=integ)
    hasbg = bool(rng.random() < .5)
    m = l.model(has_linear_background=hasbg, has_tails=True)
    kw = dict(fwhm=res, peak_ph=pk, dph_de=gain, integral=integ, tail_frac=frac, tail_tau=tau, tail_share_hi=share, tail_tau_hi=tau2)
    bg = float(rng.choice([0, 3])) if hasbg else 0
    if hasbg:
        kw.update(background=bg, bg_slope=0)
    y = m.eval(bin_centers=x, **kw) - bg
    clean = voigts(l, E, res)
    sel = np.arange(len(E)) if len(E) < 80 else np.sort(rng.choice(len(E), 80, replace=False))
    # the line beyond the padded range does not contribute to the discrete convolution
    want = tailed(l, E[sel], res, frac, tau, share, tau2)
    scale = integ * (x[1] - x[0]) / gain
    ctx.count("tailed_bins", len(sel))
    err = np.abs(y[sel] / scale - want)
    tol = (.01 * frac + 1e-4) * clean.max() * max(1e-2, min(1, 1)) + 1e-9 * bg / scale
    ctx.check(np.all(err <= tol), "tails:value", f"worst {err.max() / clean.max():.3g} of the peak (tail fraction {frac}) at {E[sel][err.argmax()]}")
    # low-energy tails move counts down, high-energy tails up
    wide = np.arange(-int(9 * max(tau, res) / step) - 50, len(E) + int(9 * max(tau2, res) / step) + 50)
    if len(wide) < 20000:
        xw = (E[0] + step * wide - l.peak_energy) * gain + pk
        kw2 = {k: v for k, v in kw.items() if k not in ("background", "bg_slope")}
        mt, m0 = l.model(has_linear_background=False, has_tails=True), l.model(has_linear_background=False)
        yt = mt.eval(bin_centers=xw, **kw2)
        y0 = m0.eval(bin_centers=xw, **{k: v for k, v in kw2.items() if not k.startswith("tail")})
        c = np.cumsum(yt - y0) / integ
        lo, hi = frac * (1 - share), frac * share
        ctx.check(c.min() >= -hi - .01 * frac - 1e-4, "tails:direction", f"{-c.min():.3g} of the counts move up, tail fraction {frac}, of it high {share}")
        ctx.check(c.max() <= lo + .01 * frac + 1e-4, "tails:direction", f"{c.max():.3g} of the counts move down, tail fraction {frac}, of it high {share}")
        if lo > 0 and tau > 2 * res:
            ctx.check(c.max() > .15 * lo - hi, "tails:some", f"the low tail moves only {c.max():.3g} of the counts")
        ctx.check(abs(yt.sum() - y0.sum()) <= (.01 * frac + 2e-3) * integ, "tails:conserve", f"{yt.sum()} counts with tails, {y0.sum()} without")
        ctx.count("conserved")
    ctx.nontrivial("tails", name, share > 0, gain != 1)


def deviance(y, d):
    return 2 * float(np.sum(y - d + np.where(d > 0, d * np.log(np.where(d > 0, d, 1) / np.where(d > 0, y, 1)), 0)))


@monitor(150, 2500)
def residuals(ctx):
    """The sum of squared residuals is twice the log likelihood ratio, for single and composite models."""
    rng = ctx.rng
    name, l, res, pk, gain, x, E = setting(ctx)
    comp = bool(rng.random() < .5)
    kw = dict(fwhm=res, peak_ph=pk, dph_de=gain, integral=float(10**rng.uniform(0, 5)), background=float(rng.choice([.01, 1, 20])), bg_slope=0.)
    if comp:
        m1, m2 = l.model(prefix="a_"), l.model(prefix="b_")
        m = m1 + m2
        k2 = dict(kw, peak_ph=pk + gain * res * float(rng.normal()), integral=kw["integral"] * float(rng.random()))
        p = m.make_params(**{"a_" + k: v for k, v in kw.items()}, **{"b_" + k: v for k, v in k2.items()})
        y = l.model().eval(bin_centers=x, **kw) + l.model().eval(bin_centers=x, **k2)
    else:
        m = l.model()
        p = m.make_params(**kw)
        y = l.model().eval(bin_centers=x, **kw)
    ctx.case.update(line=name, comp=comp, **kw)
    ctx.close(m.eval(params=p, bin_centers=x), y, "residual:sum of models", rtol=1e-12, atol=1e-300)
    d = rng.poisson(y)
    how = int(rng.integers(4))
    if how == 1:
        d = d.astype(np.uint16 if d.max() < 65000 else np.uint64)
    elif how == 2:
        d = d.astype(float)
    elif how == 3:   # exact agreement, and off by rounding only
        d = y * (1 + 1e-16 * rng.integers(-2, 3, len(y)))
    r = np.asarray(m._residual(p, d, None, bin_centers=x))
    d = np.asarray(d, float)
    ctx.count("residuals", len(r))
    ctx.check(np.all(np.isfinite(r)), "residual:finite", f"{np.sum(~np.isfinite(r))} residuals are not finite")
    t = 2 * (y - d + np.where(d > 0, d * np.log(np.where(d > 0, d, 1) / y), 0))
    ctx.check(np.all(np.abs(r**2 - t) <= 1e-9 * (1 + y + d)), "residual:likelihood", f"{r[:3]} squared, {t[:3]}")
    far = np.abs(y - d) > 1e-6 * y
    ctx.check(np.all(np.sign(r[far]) == np.sign((y - d)[far])), "residual:sign", "a residual has the wrong sign")
    ctx.nontrivial("residual", comp, how)


@monitor(60, 4000)
def fits(ctx):
    rng = ctx.rng
    name, l, res, pk, gain, x, E = setting(ctx)
    ctx.need(len(x) < 1500 and np.ptp(l.energies) < 40 * res)
    integ = float(10**rng.uniform(2.7, 5.5))
    share = float(voigts(l, E, res).sum() * (E[1] - E[0]))
    bgper = integ * share / len(x) * float(rng.choice([.01, .1, .3]))
    has_bg = bool(rng.random() < .8)
    tl = bool(rng.random() < .2) and integ > 2e4
    has_bg = has_bg or bool(l.lorentzian_fwhm.min() == 0)   # Gaussians vanish in the outer bins
    has_bg = has_bg or tl   # the discrete convolution leaves zeros, which only a background lifts
    m = l.model(has_linear_background=has_bg, has_tails=tl)
    kw = dict(fwhm=res, peak_ph=pk, dph_de=gain, integral=integ)
    if has_bg:
        kw.update(background=bgper, bg_slope=0.)
    if tl:
        kw.update(tail_frac=.2, tail_tau=min(res * 2, l.nominal_peak_energy / 12), tail_share_hi=0., tail_tau_hi=8.)
    ctx.need(l.nominal_peak_energy / 4e3 < res < l.nominal_peak_energy)
    truth = m.eval(bin_centers=x, **kw)
    d = rng.poisson(truth)
    ctx.case.update(line=name, n=len(x), has_bg=has_bg, tails=tl, **kw)
    ctx.need(d.max() > 15)
    p = m.guess(d, bin_centers=x, dph_de=gain)
    p["dph_de"].set(gain, vary=False)
    if tl:
        p["tail_tau"].set(kw["tail_tau"], vary=False)
    # a start from the guess, as a user would, with the peak near enough for a local search
    # (a far start may end at another local maximum)
    if abs(p["peak_ph"].value - pk) > .5 * res * gain:
        p["peak_ph"].set(pk + gain * res * .3)
    if tl:
        p["tail_frac"].set(float(rng.choice([.1, .3])))
        p["background"].set(bgper * float(rng.choice([.5, 2])))
    if not .6 * res < p["fwhm"].value < 2 * res:
        p["fwhm"].set(res * float(rng.choice([.7, 1.4])))
    if not .5 * integ < p["integral"].value < 2 * integ:
        p["integral"].set(integ * float(rng.choice([.7, 1.4])))
    before = {k: (v.value, v.vary, v.min, v.max) for k, v in p.items()}
    d0, x0 = d.copy(), x.copy()
    meth = rng.choice([None, None, "leastsq_refit"])
    r = m.fit(d, p, bin_centers=x, minimum_bins_per_fwhm=.3, **({} if meth is None else dict(method=str(meth))))
    ctx.count("fits")
    ctx.same(d, d0, "fit:data changed")
    ctx.same(x, x0, "fit:bins changed")
    ctx.check(before == {k: (v.value, v.vary, v.min, v.max) for k, v in p.items()}, "fit:parameters changed", "the given parameters are changed")
    ctx.check(r.success, "fit:success", r.message if isinstance(r.message, str) else "failed")
    best = r.best_fit
    ctx.close(m.eval(params=r.params, bin_centers=x), best, "fit:best fit", rtol=1e-9, atol=1e-300)
    D, Dt = deviance(best, d), deviance(truth, d)
    ctx.check(abs(r.chisqr - D) <= 1e-6 * D + 1e-6, "fit:chisqr", f"chisqr {r.chisqr}, deviance {D}")
    ctx.check(D <= Dt + 1e-3 * (1 + len(x)**.5), "fit:likelihood", f"deviance {D} at the fit, {Dt} at the truth")
    # signal and background free: the totals agree
    if has_bg or True:
        ctx.check(abs(best.sum() - d.sum()) <= 2e-3 * d.sum()**.5 * 30 + 2e-4 * d.sum() if has_bg else abs(best.sum() - d.sum()) <= 2e-3 * d.sum(), "fit:total", f"{best.sum()} counts fitted, {d.sum()} observed")
    # no nearby parameters do better
    free = [k for k, v in r.params.items() if v.vary]
    for k in free:
        s = r.params[k].stderr
        if not s:
            continue
        for sg in (-.2, .2):
            q = r.params.copy()
            v = q[k].value + sg * s
            if not q[k].min <= v <= q[k].max:
                continue
            q[k].set(value=v)
            ctx.check(deviance(m.eval(params=q, bin_centers=x), d) >= D - 5e-3, "fit:maximum", f"deviance {D} drops to {deviance(m.eval(params=q, bin_centers=x), d)} with {k} moved {sg} of its error")
    for k in free:
        v = r.params[k]
        if v.stderr is None or v.stderr == 0 or v.value - v.min < 2 * v.stderr or v.max - v.value < 2 * v.stderr:
            ctx.count("at_bounds")
            continue
        if any(abs(r.params[j].value - r.params[j].min) < 2 * (r.params[j].stderr or 0) for j in free):
            continue
        # (errors are scaled by the reduced chi-squared, which empty bins make too small)
        z = (v.value - kw[k]) / v.stderr * min(1, r.redchi**.5)
        ctx.check(abs(z) < 6, "fit:pull", f"{k} is {v.value} +- {v.stderr}, true value {kw[k]} ({z:.1f} errors away)")
        ctx.count("pulls")
    if r.params["peak_ph"].stderr and not tl:
        # the error of the position is at least that of a background-free Gaussian of this many counts, and not absurdly larger
        n = max(1., d.sum() - (r.params["background"].value * len(x) if has_bg else 0))
        w = np.hypot(res, l.lorentzian_fwhm.min()) * gain
        ctx.check(.05 * w / n**.5 < r.params["peak_ph"].stderr < 60 * (w + np.ptp(l.energies) * gain) / n**.5 + 1e-9, "fit:error", f"position error {r.params['peak_ph'].stderr}, width {w}, counts {n}")
    ctx.nontrivial("fit", name, has_bg, tl)
    # labels, gain and types
    twin = int(rng.integers(4))
    if twin == 0 and not tl:
        m2 = l.model(has_linear_background=has_bg, prefix="zz_")
        p2 = m2.make_params(**{k: p[k].value for k in p})
        for k in p:
            p2["zz_" + k].set(vary=p[k].vary)
        r2 = m2.fit(d, p2, bin_centers=x, minimum_bins_per_fwhm=.3, **({} if meth is None else dict(method=str(meth))))
        for k in free:
            ctx.close(r2.params["zz_" + k].value, r.params[k].value, "fit:prefix", rtol=1e-6, atol=1e-3 * (r.params[k].stderr or 1e-9))
    elif twin == 1 and not tl:
        k = float(rng.choice([10., .1, 3.]))
        if .01 < gain * k < 100:
            p2 = m.make_params(**{q: p[q].value for q in p})
            for q in p:
                p2[q].set(vary=p[q].vary)
            p2["peak_ph"].set(value=p["peak_ph"].value * k)
            p2["dph_de"].set(value=gain * k)
            r2 = m.fit(d, p2, bin_centers=x * k, minimum_bins_per_fwhm=.3)
            for q in free:
                ctx.close(r2.params[q].value / (k if q == "peak_ph" else 1), r.params[q].value, "fit:gain", rtol=1e-4, atol=.03 * (r.params[q].stderr or 1e-9))
    elif twin == 2:
        r2 = m.fit(d.astype(float), p, bin_centers=x, minimum_bins_per_fwhm=.3, **({} if meth is None else dict(method=str(meth))))
        for q in free:
            ctx.close(r2.params[q].value, r.params[q].value, "fit:type", rtol=1e-9, atol=0)
    else:
        bad = ctx.raises(lambda: m.fit(d, p, bin_centers=x, weights=np.ones(len(d))), Exception)
        ctx.check(bad is not None, "fit:weights", "weights are accepted")


@monitor(20, 1500)
def composites(ctx):
    """Two lines fitted together."""
    rng = ctx.rng
    e = float(10**rng.uniform(2.7, 4))
    res = e * float(rng.uniform(5e-4, 3e-3))
    sep = res * float(rng.uniform(2, 6))
    l1, l2 = (mass.SpectralLine.quick_monochromatic_line(f"q{i}", e + i * sep, res * .2, 0) for i in range(2))
    gain = float(rng.choice([1, 2, .2]))
    E = np.arange(e - 8 * res, e + sep + 8 * res, res / 4)
    x = E * gain
    i1, i2, bg = float(10**rng.uniform(3, 5)), float(10**rng.uniform(3, 5)), float(10**rng.uniform(0, 1.5))
    ctx.case.update(e=e, res=res, sep=sep, gain=gain, i1=i1, i2=i2, bg=bg)
    m1, m2 = l1.model(prefix="a_"), l2.model(prefix="b_", has_linear_background=False)
    y = l1.model().eval(bin_centers=x, fwhm=res, peak_ph=e * gain, dph_de=gain, integral=i1, background=bg, bg_slope=0) \
        + l2.model().eval(bin_centers=x, fwhm=res, peak_ph=(e + sep) * gain, dph_de=gain, integral=i2, background=0, bg_slope=0)
    d = rng.poisson(y)
    out = []
    for m in (m1 + m2, m2 + m1):
        p = m.make_params(a_fwhm=res * 1.2, a_peak_ph=e * gain, a_dph_de=gain, a_integral=i1 * .8, a_background=bg * 1.5, a_bg_slope=0, b_peak_ph=(e + sep) * gain, b_dph_de=gain, b_integral=i2 * 1.3, b_fwhm=res)
        for q in ("a_dph_de", "b_dph_de", "a_bg_slope"):
            p[q].set(vary=False)
        p["b_fwhm"].set(expr="a_fwhm")
        ctx.close(m.eval(params=m.make_params(a_fwhm=res, a_peak_ph=e * gain, a_dph_de=gain, a_integral=i1, a_background=bg, a_bg_slope=0, b_fwhm=res, b_peak_ph=(e + sep) * gain, b_dph_de=gain, b_integral=i2), bin_centers=x),
                  y, "composite:sum", rtol=1e-12, atol=1e-300)
        r = m.fit(d, p, bin_centers=x)
        out.append(r)
        ctx.count("composite_fits")
        D, Dt = deviance(r.best_fit, d), deviance(y, d)
        ctx.check(D <= Dt + .01, "composite:likelihood", f"deviance {D} at the fit, {Dt} at the truth")
        ctx.check(abs(r.best_fit.sum() - d.sum()) <= 1e-3 * d.sum(), "composite:total", f"{r.best_fit.sum()} fitted, {d.sum()} observed")
        for q, v in dict(a_fwhm=res, a_peak_ph=e * gain, a_integral=i1, b_peak_ph=(e + sep) * gain, b_integral=i2).items():
            s = r.params[q].stderr
            ctx.check(s is not None and s > 0 and abs(r.params[q].value - v) < 6 * s, "composite:pull", f"{q} is {r.params[q].value} +- {s}, true {v}")
    for q in out[0].params:
        ctx.close(out[1].params[q].value, out[0].params[q].value, "composite:order", rtol=1e-5, atol=.02 * (out[0].params[q].stderr or 1e-9))
    # data equal to the model
    r = (m1 + m2).fit(y, p, bin_centers=x)
    ctx.check(np.all(np.isfinite(r.best_fit)) and deviance(r.best_fit, y) < 1e-2, "composite:exact", f"deviance {deviance(r.best_fit, y)} for data equal to the model")
    ctx.nontrivial("composite", gain)


@monitor(80, 2500)
def guesses(ctx):
    rng = ctx.rng
    name, l, res, pk, gain, x, E = setting(ctx)
    tl, bgm = bool(rng.random() < .3), bool(rng.random() < .7)
    m = l.model(has_tails=tl, has_linear_background=bgm)
    y = l.model().eval(bin_centers=x, fwhm=res, peak_ph=pk, dph_de=gain, integral=float(10**rng.uniform(1, 5)), background=float(rng.random()), bg_slope=0)
    d = rng.poisson(y)
    ctx.need(d.sum() > 5)
    ctx.case.update(line=name, n=len(x), tails=tl)
    p = m.guess(d, bin_centers=x, dph_de=gain)
    ctx.count("guesses")
    ctx.check(set(p) == set(m.make_params()), "guess:names", f"{sorted(p)}")
    ctx.check(p["peak_ph"].value == x[d.argmax()], "guess:peak", f"{p['peak_ph'].value} is not where the most counts are")
    ctx.close(p["dph_de"].value, gain, "guess:gain", rtol=1e-12, atol=0)
    ctx.check(0 <= p["integral"].value <= d.sum() and (not bgm or p["background"].value >= 0), "guess:positive", f"{p['integral'].value}")
    for k in p:
        ctx.check(np.isfinite(p[k].value) and p[k].min <= p[k].value <= p[k].max, "guess:bounds", f"{k}={p[k].value}")
    # bins too wide for the line are refused, and only those
    if rng.random() < .4 and d.max() > 20:
        want = rng.choice([1, 3, 10])
        p["dph_de"].set(vary=False)
        try:
            r = m.fit(d, p, bin_centers=x, minimum_bins_per_fwhm=float(want))
            f = r.params["fwhm"].value
            n = l.minimum_fwhm(f) / (E[1] - E[0])
            ctx.check(n >= want * (1 - 1e-9), "guess:bins accepted", f"{n} bins per FWHM accepted, {want} required")
        except ValueError as e:
            ctx.need("bins are too large" in str(e))
            r = m.fit(d, p, bin_centers=x, minimum_bins_per_fwhm=0)
            n = l.minimum_fwhm(r.params["fwhm"].value) / (E[1] - E[0])
            ctx.check(n < want * (1 + 1e-9), "guess:bins refused", f"{n} bins per FWHM refused, {want} required")
        ctx.count("bin_checks")
    ctx.nontrivial("guess", name)


@monitor(200, 3000)
def kinks(ctx):
    rng = ctx.rng
    n = int(rng.integers(4, 60))
    x = rng.normal(size=n) * 10**rng.uniform(-1, 2) + rng.choice([0, 50]) if rng.random() < .6 else rng.integers(-20, 20, n).astype(float)
    if rng.random() < .5:
        x = np.sort(x)
    k = float(rng.uniform(x.min(), x.max()))
    ctx.need(np.sum(np.unique(x) < k) >= 1 and np.sum(np.unique(x) > k) >= 1 and len(np.unique(x)) >= 3)
    y = rng.normal() + np.where(x < k, rng.normal(), rng.normal()) * (x - k) + rng.choice([0, .1, 1]) * rng.normal(size=n)
    ctx.case.update(n=n, k=k, x=x[:10].tolist())
    A = np.stack([np.ones(n), np.where(x < k, x - k, 0), np.where(x >= k, x - k, 0)], 1)
    if np.linalg.cond(A / np.linalg.norm(A, axis=0)) > 1e5:
        ctx.need(False)
    want, *_ = np.linalg.lstsq(A, y, rcond=None)
    model, abc, X2 = kink_model(k, x, y)
    ctx.count("kinks")
    sc = np.abs(A @ want).max() + np.abs(y).max()
    ctx.close(A @ np.asarray(abc), A @ want, "kink:parameters", rtol=0, atol=1e-5 * sc)
    ctx.close(model, A @ want, "kink:model", rtol=0, atol=1e-5 * sc)
    ctx.close(X2, float(np.sum((A @ want - y)**2)), "kink:chisq", rtol=1e-4, atol=1e-9 * sc**2 * n)
    for bad in (float(x.min()), float(x.min()) - 1, float(x.max()) + 1):
        ctx.check(ctx.raises(lambda: kink_model(bad, x, y), ValueError) is not None, "kink:range", f"a kink at {bad} is accepted, data from {x.min()} to {x.max()}")
    lo, hi = np.quantile(np.unique(x), [.2, .8])
    if hi > lo:
        kb = None if rng.random() < .5 else (float(lo), float(hi))
        if kb is None and len(np.unique(x)) < 5:
            return
        try:
            fm, pars, fx2 = fit_kink_model(x, y, kbounds=kb)
        except np.linalg.LinAlgError:
            ctx.count("singular")
            return
        kk = pars[0]
        if kb:
            ctx.check(kb[0] <= kk <= kb[1], "kink:bounds", f"{kk} is not in {kb}")
        fmodel = pars[1] + np.where(x < kk, pars[2], pars[3]) * (x - kk)
        ctx.close(fm, fmodel, "kink:fitted model", rtol=0, atol=1e-6 * (np.abs(fmodel).max() + sc))
        ctx.close(fx2, float(np.sum((fmodel - y)**2)), "kink:fitted chisq", rtol=1e-5, atol=1e-9 * (np.abs(fmodel).max() + sc)**2 * n)
        ctx.check(ctx.raises(lambda: fit_kink_model(x, y, kbounds=(x.min() - 1, x.max())), ValueError) is not None, "kink:bounds refused", "bounds outside the data are accepted")
        ctx.nontrivial("kink", kb is None, bool(np.all(np.diff(x) > 0)))


@monitor(24, 300)
def drawn(ctx):
    """A fit is drawn on the axis given, with its data, its curve, its parameters, titles and labels."""
    import matplotlib
    matplotlib.use("agg")
    import matplotlib.pyplot as plt
    rng = ctx.rng
    name, l, res, pk, gain, x, E = setting(ctx)
    ctx.need(len(x) < 1500 and np.ptp(l.energies) < 40 * res and l.nominal_peak_energy / 4e3 < res < l.nominal_peak_energy)
    m = l.model(has_linear_background=True)
    kw = dict(fwhm=res, peak_ph=pk, dph_de=gain, integral=2e4, background=1., bg_slope=0.)
    d = rng.poisson(m.eval(bin_centers=x, **kw))
    ctx.need(d.max() > 15)
    p = m.make_params(**kw)
    p["dph_de"].set(vary=False)
    r = m.fit(d, p, bin_centers=x, minimum_bins_per_fwhm=.1)
    plt.close("all")
    fig, axes = plt.subplots(1, 2)
    given = bool(rng.random() < .7)
    plt.sca(axes[1])
    hints = bool(rng.random() < .6)
    states = str(rng.choice(["", "['A','B']"]))
    binsize = float(np.round(rng.uniform(.1, 5), 2))
    if hints:
        r.set_label_hints(binsize=binsize, ds_shortname="det7", attr_str="p_energy", unit_str="eVx", cut_hint="cutsX", states_hint=states)
    own = {k: f"my {k} {i}" for i, k in enumerate(("title", "xlabel", "ylabel")) if rng.random() < .3}
    ctx.case.update(line=name, given=given, hints=hints, own=own, states=states)
    r.plotm(**(dict(ax=axes[0]) if given else {}), **own)
    ctx.count("drawn")
    if given:
        ax = axes[0]
        ctx.check(plt.get_fignums() == [fig.number], "drawn:figures", "another figure is opened")
    else:
        ctx.check(len(plt.get_fignums()) == 2, "drawn:figures", f"{plt.get_fignums()}")
        ax = plt.gca()
        ctx.check(not axes[0].lines and not axes[0].get_title(), "drawn:other axis", "an existing axis is drawn on")
    ctx.check(not axes[1].lines and not axes[1].get_title() and not axes[1].get_ylabel() and not axes[1].texts, "drawn:other axis", f"title {axes[1].get_title()!r} on another axis")
    title, xl, yl = ax.get_title(), ax.get_xlabel(), ax.get_ylabel()
    for k, v in own.items():
        ctx.check(dict(title=title, xlabel=xl, ylabel=yl)[k] == v, "drawn:own labels", f"{k} is {dict(title=title, xlabel=xl, ylabel=yl)[k]!r}, asked for {v!r}")
    if hints and "title" not in own:
        ctx.check("det7" in title and l.shortname in title, "drawn:title", title)
    if hints and "xlabel" not in own:
        ctx.check("p_energy" in xl and "eVx" in xl, "drawn:xlabel", xl)
    if hints and "ylabel" not in own:
        ctx.check(f"{binsize:g} eVx" in yl, "drawn:ylabel", yl)
        ctx.check((states in yl and "cutsX" in yl) if states else "states" not in yl, "drawn:ylabel", yl)
    if not hints and "ylabel" not in own:
        ctx.check(f"{x[1] - x[0]:g} " in yl, "drawn:ylabel", f"{yl} for bins of {x[1] - x[0]}")
    curves = [np.array(li.get_data(), float) for li in ax.lines]
    hit = lambda y: any(c.shape[1] == len(x) and np.allclose(c[0], x) and np.allclose(c[1], y, rtol=1e-9, atol=1e-9) for c in curves)
    ctx.check(hit(d), "drawn:data", "the data are not drawn")
    fine = [c for c in curves if np.allclose(m.eval(params=r.params, bin_centers=c[0]), c[1], rtol=1e-6, atol=1e-6)] if len(curves) else []
    ctx.check(len(fine) >= 1, "drawn:fit", "the fit is not drawn")
    text = "\n".join(t.get_text() for t in ax.texts)
    for q in ("peak_ph", "fwhm"):
        v = r.params[q]
        ctx.check(q in text, "drawn:report", f"{q} is missing in {text!r}")
        nums = [ln for ln in text.splitlines() if ln.startswith(q)]
        ctx.check(len(nums) == 1, "drawn:report", text)
        body = nums[0][len(q):].split()[0]
        if body.endswith("None"):
            continue
        got, err = (float(b) for b in body.split("±"))
        ctx.check(abs(got - v.value) <= max(v.stderr, 1e-9 * abs(v.value)) and abs(err - v.stderr) <= .06 * v.stderr, "drawn:report", f"{nums[0]!r} for {v.value} +- {v.stderr}")
        ctx.count("reported")
    held = [ln for ln in text.splitlines() if "HELD" in ln]
    ctx.check(any(ln.startswith("dph_de") for ln in held) and not any(ln.startswith("peak_ph") for ln in held), "drawn:held", text)
    ctx.check(f"{r.redchi:.2g}" in text, "drawn:chi-squared", f"{text!r}: {r.redchi}")
    plt.close("all")
    ctx.nontrivial(name, given, hints, tuple(own))
    # a value or an uncertainty of exactly zero (a parameter at its bound, or one the data do not constrain)
    zv = ["bg_slope", "background", "integral", "fwhm"][int(rng.integers(4))]
    which = str(rng.choice(["value", "stderr", "both"]))
    ctx.case.update(zero=(zv, which))
    v = r.params[zv]
    v.set(min=-np.inf, vary=True)
    v.stderr = abs(v.value) / 7 + 1e-3
    if which in ("value", "both"):
        v.value = 0.
    if which in ("stderr", "both"):
        v.stderr = 0.
    plt.close("all")
    r.plotm()
    text = "\n".join(t.get_text() for t in plt.gca().texts)
    lines = [ln for ln in text.splitlines() if "±" in ln]
    nums = [tuple(float(b) for b in ln.replace("HELD", "").split()[1].split("±")) for ln in lines if "None" not in ln]
    ctx.check(any(abs(a - v.value) <= max(v.stderr, 1e-5 * abs(v.value)) and abs(b - v.stderr) <= .06 * v.stderr for a, b in nums), "drawn:zero", f"{zv} = {v.value} +- {v.stderr} is not in {text!r}")
    ctx.count("zeros")


@monitor(24, 300)
def coarse(ctx):
    """Bins too coarse for the width of the line are refused, exactly when they are."""
    import mass
    from mass.calibration import line_models
    rng = ctx.rng
    name, l, res, pk, gain, x, E = setting(ctx)
    ctx.need(len(x) < 1500 and np.ptp(l.energies) < 40 * res and l.nominal_peak_energy / 4e3 < res < l.nominal_peak_energy)
    two = bool(rng.random() < .4)
    kw = dict(fwhm=res, peak_ph=pk, dph_de=gain, integral=2e4)
    if two:
        other = mass.SpectralLine.quick_monochromatic_line("o", l.nominal_peak_energy, .001, 0)
        m = l.model(has_linear_background=True, prefix="a_") + other.model(has_linear_background=False, prefix="b_")
        wide = float(rng.choice([.5, 1, 3]))
        p = m.make_params(**{"a_" + k: v for k, v in kw.items()}, a_background=1., a_bg_slope=0.)
        for k, v in dict(kw, fwhm=res * wide, integral=1e4).items():
            p["b_" + k].set(value=v)
        parts = (("a_", l), ("b_", other))
    else:
        m = l.model(has_linear_background=True)
        p = m.make_params(**kw, background=1., bg_slope=0.)
        parts = (("", l),)
    d = rng.poisson(m.eval(params=p, bin_centers=x))
    ctx.need(d.max() > 5)
    for k, v in p.items():
        v.set(vary=k.endswith("integral"))   # widths are held, so the limit is known beforehand
    per = []
    for pre, spect in parts:
        g = np.hypot(p[pre + "fwhm"].value, spect.intrinsic_sigma * 2 * np.sqrt(2 * np.log(2)))
        # every line's width is its Gaussian and Lorentzian together (Olivero & Longbothum); narrowest counts
        lor = np.min(spect.lorentzian_fwhm) if len(np.atleast_1d(spect.lorentzian_fwhm)) else 0.
        w = .5346 * lor + np.sqrt(.2166 * lor**2 + g**2)
        quad = np.hypot(lor, g)
        per.append(sorted((w / ((x[1] - x[0]) / gain), quad / ((x[1] - x[0]) / gain))))
    lo, hi = min(q[0] for q in per), min(q[1] for q in per)
    # either formula for the combined width is right: limits between the two are not judged
    for lim, ok in ((lo * float(rng.choice([.99, .7, .3])), True), (hi * float(rng.choice([1.01, 1.3, 4])), False)):
        err = ctx.raises(lambda: m.fit(d, p, bin_centers=x, minimum_bins_per_fwhm=lim), ValueError) if not ok else None
        if ok:
            m.fit(d, p, bin_centers=x, minimum_bins_per_fwhm=lim)
        else:
            ctx.check(err is not None, "coarse:accepted", f"{lo:.4g}..{hi:.4g} bins per width, {lim:.4g} demanded")
        ctx.count("coarse" if not ok else "fine")
    if not two and np.ptp(l.energies) > .5 * res:
        # with everything free it is the fitted width and gain that count, not the guesses
        q = m.make_params(**dict(kw, fwhm=res * float(rng.choice([.7, 1.4])), dph_de=gain * float(rng.choice([.9, 1.1]))), background=1., bg_slope=0.)
        q["dph_de"].set(vary=True)
        ff = dict(bin_centers=x)
        r = m.fit(d, q, minimum_bins_per_fwhm=1e-9, **ff)
        if r.success and r.params["dph_de"].value > 0 and r.params["fwhm"].value > 0:
            g = np.hypot(r.params["fwhm"].value, l.intrinsic_sigma * 2 * np.sqrt(2 * np.log(2)))
            bw = (x[1] - x[0]) / r.params["dph_de"].value
            lor = np.min(l.lorentzian_fwhm)
            fl, fh = sorted(((.5346 * lor + np.sqrt(.2166 * lor**2 + g**2)) / bw, np.hypot(lor, g) / bw))
            m.fit(d, q, minimum_bins_per_fwhm=.999 * fl, **ff)
            ctx.check(ctx.raises(lambda: m.fit(d, q, minimum_bins_per_fwhm=1.001 * fh, **ff), ValueError) is not None, "coarse:accepted", f"{fl:.4g}..{fh:.4g} bins per fitted width")
            ctx.count("fitted widths")
    ctx.case.update(line=name, two=two, bins=(lo, hi))
    line_models.VALIDATE_BIN_SIZE = False
    try:
        m.fit(d, p, bin_centers=x, minimum_bins_per_fwhm=hi * 5)
        ctx.count("validation off")
    finally:
        line_models.VALIDATE_BIN_SIZE = True
    if 3 * (1 - 1e-6) <= lo:
        m.fit(d, p, bin_centers=x)
    elif hi < 3 * (1 - 1e-6):
        ctx.check(ctx.raises(lambda: m.fit(d, p, bin_centers=x), ValueError) is not None, "coarse:default", f"{hi} bins per width accepted by default")
    ctx.nontrivial(name, two)
