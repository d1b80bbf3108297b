"""C14: fluorescence lines are normalised, self-consistent spectra, found under each of their names."""
import contextlib
import os
import signal

import numpy as np
import scipy.special
import scipy.stats
import mass
from mass.calibration import fluorescence_lines as fl
from mass.calibration import nist_xray_database as nx
from mass.mathstat.special import voigt, voigt_approx_fwhm

from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case takes a registered line, a one-component line, or a line added on the spot with each kind of reference amplitude, and an instrumental resolution over six decades, and compares its density with scipy's Voigt profiles, its integral with one, "
        "its broadening with a numerical convolution, its random energies with its cumulative distribution and with a second generator of the same seed, its peak with a grid search, and its names with the registries and the data files. Non-trivial = several components or finite resolution.")
ASSUMPTIONS = ["positive-energy truncation of the random energies is part of the distribution (energies drawn at or below zero are drawn again)",
               "the nominal energy of a registered line is within half the narrowest component's width of the density's peak",
               "highly charged ion lines need a data file that is not in the repository, so they are not covered"]

LINES = list(mass.spectra)
F2S = np.sqrt(8 * np.log(2))


def some_line(ctx):
    """(line, its energies, fwhms, fractions computed apart from the line's own)"""
    rng = ctx.rng
    k = int(rng.integers(10))
    if k < 6:
        name = LINES[ctx.index % len(LINES)] if k < 4 else str(rng.choice(LINES))
        l = mass.spectra[name]
    elif k < 8:
        name = "quick"
        e = float(10**rng.uniform(1, 5))
        w = float(rng.choice([0, 1, 1])) * e * float(10**rng.uniform(-6, -2))
        s = float(rng.choice([0, 1, 1])) * e * float(10**rng.uniform(-6, -2))
        l = mass.SpectralLine.quick_monochromatic_line("q", e, w, s)
    else:
        name = "added"
        n = int(rng.integers(1, 8))
        e0 = float(10**rng.uniform(2, 4.5))
        en = e0 * (1 + .003 * rng.normal(size=n))
        fw = e0 * 10**rng.uniform(-4.5, -2.5, n)
        amp = rng.random(n) + .01
        typ = (fl.LORENTZIAN_PEAK_HEIGHT, fl.LORENTZIAN_INTEGRAL_INTENSITY, fl.VOIGT_PEAK_HEIGHT)[int(rng.integers(3))]
        ref = float(fw.min() * rng.uniform(.2, 3))
        sig = float(rng.choice([0, 0, .5])) * fw.min() if typ != fl.VOIGT_PEAK_HEIGHT else 0
        nm = f"Zz{ctx.index}"
        l = fl.addline(element=nm, material="vapor", linetype="KBeta", reference_short="Rough Estimate", reference_plot_instrument_gaussian_fwhm=ref, nominal_peak_energy=float(en[amp.argmax()]),
                       energies=en, lorentzian_fwhm=fw, reference_amplitude=amp, reference_amplitude_type=typ, intrinsic_sigma=sig, is_default_material=bool(rng.random() < .5))
        try:
            key = nm + "KBeta" + ("" if l.is_default_material else "_vapor")
            ctx.check(mass.spectra.get(key) is l and fl.spectrum_classes[key]() is l and getattr(fl, key) is l and l.shortname == key, "names:added", f"{key} is not found under its name")
            kw = dict(element=nm, material="vapor", linetype="KBeta", reference_short="Rough Estimate", reference_plot_instrument_gaussian_fwhm=ref, nominal_peak_energy=e0, energies=en[:1], lorentzian_fwhm=fw[:1],
                      reference_amplitude=amp[:1], reference_amplitude_type=fl.LORENTZIAN_PEAK_HEIGHT, is_default_material=l.is_default_material)
            ctx.check(ctx.raises(lambda: fl.addline(**kw), ValueError) is not None, "names:duplicate", "a second line of the same name is accepted")
            ctx.check(mass.spectra[key] is l, "names:duplicate kept", "a refused line replaced the old one")
            l2 = fl.addline(allow_replacement=True, **kw)
            ctx.check(mass.spectra[key] is l2 and fl.spectrum_classes[key]() is l2 and getattr(fl, key) is l2, "names:replaced", "a line added with allow_replacement is not the one found")
        finally:
            for d in (mass.spectra, fl.spectrum_classes, fl.__dict__):
                d.pop(nm + "KBeta", None)
                d.pop(nm + "KBeta_vapor", None)
            fl.__dict__.pop(nm + "KBetaFitter", None)
            fl.__dict__.pop(nm + "KBeta_vaporFitter", None)
        frac = {fl.LORENTZIAN_PEAK_HEIGHT: amp * fw, fl.LORENTZIAN_INTEGRAL_INTENSITY: amp,
                fl.VOIGT_PEAK_HEIGHT: amp / scipy.special.voigt_profile(0., ref / F2S, fw / 2)}[typ]
        return name, l, en, fw, frac / frac.sum(), sig
    en, fw = np.asarray(l.energies, float), np.asarray(l.lorentzian_fwhm, float)
    amp = np.asarray(l.reference_amplitude, float) if name != "quick" else np.ones(1)
    typ = l.reference_amplitude_type
    if typ == fl.LORENTZIAN_PEAK_HEIGHT:
        amp = amp * fw
    elif typ == fl.VOIGT_PEAK_HEIGHT:
        amp = amp / scipy.special.voigt_profile(0., l.reference_plot_instrument_gaussian_fwhm / F2S, fw / 2)
    sig = float(l.intrinsic_sigma) if name != "quick" else (s if (w > 0 or s > 0) else 1e-4)
    return name, l, en, fw, amp / amp.sum(), sig


def resolution(rng, fw):
    return float(rng.choice([0, 0, 1, 1, 1])) * float(max(fw.max(), 1e-3)) * float(10**rng.uniform(-2.5, 2))


def grid(en, sc):
    """Integration points and weights over the whole line, dense near each component (Gauss-Legendre on growing intervals)."""
    gx, gw = np.polynomial.legendre.leggauss(12)
    edges = np.unique(np.concatenate([e + s * np.sign(t) * np.abs(t)**3 for e, s in zip(en, sc) for t in [np.concatenate([np.linspace(-100, 100, 161), [0]])]]))
    edges = edges[np.concatenate([[True], np.diff(edges) > 1e-12 * np.abs(edges).max()])]
    h = np.diff(edges) / 2
    return ((edges[:-1] + h)[:, None] + h[:, None] * gx).ravel(), (h[:, None] * gw).ravel(), edges


@monitor(800, 8000)
def density(ctx):
    rng = ctx.rng
    name, l, en, fw, frac, sig0 = some_line(ctx)
    res = resolution(rng, fw)
    sig = float(np.hypot(res / F2S, sig0))
    ctx.case.update(line=name, n=len(en), res=res, sig0=sig0, en=[float(q) for q in en[:4]], fw=[float(q) for q in fw[:4]])
    sc = np.maximum(fw, sig)
    x = np.concatenate([en, (en[:, None] + sc[:, None] * rng.normal(size=(len(en), 12)) * 2).ravel(), en.mean() + (sc.max() + np.ptp(en)) * 10**rng.uniform(0, 3, 8) * rng.choice([-1, 1], 8)])
    p = np.asarray(l.pdf(x, res))
    want = sum(f * scipy.special.voigt_profile(x - e, sig, w / 2) for f, e, w in zip(frac, en, fw))
    ctx.count("densities", len(x))
    # pdf(x) = G(x/..) : rounding of x-e relative to the width
    tol = 1e-11 + 1e-15 * np.abs(x) / sc.min()
    ctx.check(np.all(p >= 0), "density:negative", "a density is negative")
    ctx.check(np.all(np.abs(p - want) <= tol * want * 20 + 1e-12 * want.max() * (1 + np.abs(x).max() * 1e-4 / sc.min())), "density:voigt sum", f"worst {np.max(np.abs(p - want) / want.max())}")
    ctx.same(np.asarray(l(x, res)), p, "density:call")
    ctx.same(np.asarray(l(x, instrument_gaussian_fwhm=res)), p, "density:call by name")
    comp = l.components(x, res)
    ctx.check(len(comp) == len(en), "density:number of components", f"{len(comp)} for {len(en)}")
    for c, f, e, w in zip(comp, frac, en, fw):
        v = f * scipy.special.voigt_profile(x - e, sig, w / 2)
        ctx.check(np.all(np.abs(c - v) <= 1e-11 * v.max() * (1 + np.abs(x).max() / sc.min() * 1e-3)), "density:component", f"component at {e}")
    ctx.close(np.sum(comp, axis=0), p, "density:sum of components", rtol=1e-12, atol=1e-300)
    # scalar, list, integers
    i = int(rng.integers(len(x)))
    ctx.close(float(l.pdf(float(x[i]), res)), p[i], "density:scalar", rtol=1e-13, atol=0)
    ctx.same(np.asarray(l.pdf(x.tolist(), res)), p, "density:list")
    xi = np.rint(x[:5]).astype(int)
    ctx.same(np.asarray(l.pdf(xi, res)), np.asarray(l.pdf(xi.astype(float), res)), "density:integers")
    # integral, with the tails beyond the grid from the Lorentzians
    u, q, edges = grid(en, sc)
    a, b = edges[0], edges[-1]
    tails = sum(f * (1 - (np.arctan((b - e) * 2 / w) - np.arctan((a - e) * 2 / w)) / np.pi) for f, e, w in zip(frac, en, fw) if w > 0)
    tot = float(np.sum(q * l.pdf(u, res)) + tails)
    ctx.close(tot, 1., "density:integral", rtol=0, atol=2e-6 + 1e-13 * np.abs(en).max() / sc.min())
    ctx.check(ctx.raises(lambda: l.pdf(x, -1.), (AssertionError, ValueError)) is not None, "density:negative resolution", "a negative resolution is accepted")
    ctx.close(float(l.minimum_fwhm(res)), float(np.sqrt(fw.min()**2 + res**2 + (sig0 * F2S)**2)), "density:minimum fwhm", rtol=1e-12, atol=0)
    if len(en) > 1 or res:
        ctx.nontrivial("density", name, res > 0)


@monitor(300, 3000)
def convolution(ctx):
    """Broadening by R then S is broadening by their quadrature sum, and is a convolution with a Gaussian."""
    rng = ctx.rng
    name, l, en, fw, frac, sig0 = some_line(ctx)
    base = float(max(fw.max(), sig0)) * float(10**rng.uniform(-1, 1)) * float(rng.random() < .7)
    add = float(max(fw.max(), sig0, base)) * float(10**rng.uniform(-1, 1))
    ctx.case.update(line=name, base=base, add=add)
    ctx.need(min(fw.min(), np.inf) > 0 or sig0 > 0 or base > 0)
    s = add / F2S
    x = np.concatenate([en[:3], en[0] + (add + fw.max()) * rng.normal(size=6)])
    # piecewise Gauss-Legendre of pdf(x-t) G(t), cut at the components
    gx, gw = np.polynomial.legendre.leggauss(10)
    narrow = max(float(np.hypot(base / F2S, sig0)), float(fw.min()), 1e-300)
    out = []
    for v in x:
        ed = [np.linspace(-9, 9, 73) * s]
        for e, w in zip(en, fw):
            h = max(w, float(np.hypot(base / F2S, sig0)))
            t = np.linspace(-30, 30, 61)
            ed.append((v - e) + h * np.sign(t) * np.abs(t)**1.8 / 4)
        ed = np.unique(np.clip(np.concatenate(ed), -9 * s, 9 * s))
        hh = np.diff(ed) / 2
        t = ((ed[:-1] + hh)[:, None] + hh[:, None] * gx).ravel()
        w8 = (hh[:, None] * gw).ravel()
        out.append(np.sum(w8 * l.pdf(v - t, base) * np.exp(-.5 * (t / s)**2) / (s * np.sqrt(2 * np.pi))))
    got = l.pdf(x, float(np.hypot(base, add)))
    ctx.count("convolutions", len(x))
    tol = 1e-5 + 1e-13 * np.abs(x).max() / narrow
    ctx.check(np.all(np.abs(np.array(out) - got) <= tol * got.max()), "convolution:gaussian", f"convolved {out[:4]}, reported {got[:4]}")
    ctx.nontrivial("convolution", name)


def cdf(x, en, fw, frac, sig):
    """Distribution of a Voigt sum at sorted x."""
    if sig == 0:
        return sum(f * (.5 + np.arctan((x - e) * 2 / w) / np.pi) for f, e, w in zip(frac, en, fw))
    gx, gw = np.polynomial.legendre.leggauss(8)
    sc = np.maximum(fw, sig)
    ed = [np.asarray(x)]
    t = np.linspace(-60, 60, 241)
    for e, s in zip(en, sc):
        ed.append(e + s * np.sign(t) * np.abs(t)**2 / 20)
    ed = np.unique(np.concatenate(ed))
    h = np.diff(ed) / 2
    u = (ed[:-1] + h)[:, None] + h[:, None] * gx
    p = sum(f * scipy.special.voigt_profile(u - e, sig, w / 2) for f, e, w in zip(frac, en, fw))
    left = sum(f * (.5 + np.arctan((ed[0] - e) * 2 / w) / np.pi) for f, e, w in zip(frac, en, fw) if w > 0)
    c = left + np.concatenate([[0], np.cumsum(np.sum(p * gw * h[:, None], axis=1))])
    return np.interp(x, ed, c)


@monitor(240, 3000)
def sampling(ctx):
    rng = ctx.rng
    name, l, en, fw, frac, sig0 = some_line(ctx)
    res = resolution(rng, fw)
    if name == "quick" and rng.random() < .7:   # negative energies are frequent
        e = float(10**rng.uniform(0, 2))
        fw = np.array([e * float(10**rng.uniform(-1, .5))])
        en, frac, sig0 = np.array([e]), np.ones(1), 0.
        l = mass.SpectralLine.quick_monochromatic_line("q", e, float(fw[0]), 0.)
        res = float(rng.choice([0, .5])) * e
    sig = float(np.hypot(res / F2S, sig0))
    n = int(rng.choice([1, 10, 1000, 20000, 20000]))
    shape = n if rng.random() < .7 else ((n // 10, 10) if n > 1 else (1, 1))
    ctx.case.update(line=name, n=n, res=res, shape=str(shape), en=float(en[0]), fw=float(fw[0]))
    seed = int(rng.integers(1 << 40))
    a = l.rvs(size=shape, instrument_gaussian_fwhm=res, rng=np.random.default_rng(seed))
    b = l.rvs(size=shape, instrument_gaussian_fwhm=res, rng=np.random.default_rng(seed))
    ctx.count("samples", n)
    ctx.check(a.shape == np.zeros(shape).shape, "sampling:shape", f"{a.shape}")
    ctx.check(np.all(a > 0) and np.all(np.isfinite(a)), "sampling:positive", "an energy is not positive and finite")
    ctx.same(a, b, "sampling:reproducible")
    c = l.rvs(size=shape, instrument_gaussian_fwhm=res, rng=np.random.default_rng(seed + 1))
    ctx.check(n < 5 or not np.array_equal(a, c), "sampling:seed", "different generators give the same energies")
    d = l.rvs(shape, res)
    ctx.check(np.all(d > 0) and d.shape == a.shape, "sampling:default generator", "without a generator, wrong shape or sign")
    if n >= 1000:
        x = np.sort(np.concatenate([a.ravel(), d.ravel()]))
        F0 = float(cdf(np.array([0.]), en, fw, frac, sig)[0])
        F = (cdf(x, en, fw, frac, sig) - F0) / (1 - F0)
        m = len(x)
        ks = max(np.max(np.arange(1, m + 1) / m - F), np.max(F - np.arange(m) / m))
        ctx.check(scipy.stats.kstwobign.sf(ks * np.sqrt(m)) > 1e-9, "sampling:distribution", f"Kolmogorov distance {ks:.4f} of {m} energies from the line's density")
        ctx.count("distributions")
        # rare components are drawn in proportion too: counts near each well-separated component
        ctx.nontrivial("sampling", name, res > 0, F0 > .001)


@monitor(300, 2000)
def peak(ctx):
    name, l, en, fw, frac, sig0 = some_line(ctx)
    ctx.need(fw.min() > 0 or sig0 > 0)
    sc = np.maximum(fw, sig0)
    ctx.case.update(line=name, en=[float(q) for q in en[:5]], fw=[float(q) for q in fw[:5]])
    x = np.unique(np.concatenate([e + s * np.linspace(-2, 2, 1601) for e, s in zip(en, sc)] + [np.linspace(en.min(), en.max(), 4001)]))
    y = sum(f * scipy.special.voigt_profile(x - e, sig0, w / 2) for f, e, w in zip(frac, en, fw))
    top = y.max()
    pk = float(l.peak_energy)
    at = float(sum(f * scipy.special.voigt_profile(pk - e, sig0, w / 2) for f, e, w in zip(frac, en, fw)))
    ctx.count("peaks")
    if name in mass.spectra:
        ctx.check(at >= top * (1 - 1e-4), "peak:highest", f"peak_energy {pk} has density {at}, but {x[y.argmax()]} has {top}")
        ctx.check(abs(l.nominal_peak_energy - x[y.argmax()]) < .5 * fw.min() + 1e-6, "peak:nominal", f"nominal {l.nominal_peak_energy}, densest at {x[y.argmax()]} (narrowest component {fw.min()})")
        ctx.nontrivial("peak", name)
    elif name == "quick":
        ctx.check(abs(pk - en[0]) <= 1e-6 * en[0] + 1e-3 * sc[0], "peak:quick", f"peak_energy {pk} of a line at {en[0]}")
        ctx.check(l.nominal_peak_energy == en[0], "peak:quick nominal", f"{l.nominal_peak_energy}")
        ctx.nontrivial("peak", "quick")
    ctx.check(float(l.peak_energy) == pk, "peak:stable", "peak_energy changes on a second look")


@monitor(72, 144)
def registry(ctx):
    name = LINES[ctx.index % len(LINES)]
    l = mass.spectra[name]
    ctx.case.update(line=name)
    full = l.element + l.linetype + ("" if l.is_default_material else "_" + l.material)
    ctx.check(l.shortname == name == full, "names:short", f"{l.shortname} is registered as {name}")
    ctx.check(fl.spectrum_classes[name]() is l and mass.spectrum_classes[name]() is l, "names:classes", "spectrum_classes has another line")
    ctx.check(getattr(fl, name) is l and getattr(mass, name) is l, "names:module", "the module attribute is another line")
    ctx.check(name in repr(l) and bool(l.reference), "names:text", "repr or reference lacks its text")
    m = l.model()
    ctx.check(m.spect is l and l.model(has_tails=True).spect is l, "names:model", "model() is of another line")
    ctx.check(mass.get_model(name).spect is l, "names:get_model", "get_model() is of another line")
    others = [k for k in LINES if mass.spectra[k] is l]
    ctx.check(others == [name], "names:unique", f"{others}")
    if l.is_default_material and name in mass.STANDARD_FEATURES:
        ctx.check(abs(mass.STANDARD_FEATURES[name] - l.nominal_peak_energy) < .5, "names:standard", f"{mass.STANDARD_FEATURES[name]} and {l.nominal_peak_energy}")
    if name.endswith("KAlpha") and hasattr(l, "ka12_energy_diff"):
        # Kalpha1 and Kalpha2 are the two biggest groups of components
        ctx.check(.05 < l.ka12_energy_diff < .03 * l.nominal_peak_energy, "names:ka12", f"{l.ka12_energy_diff}")
    ctx.count("lines")
    ctx.nontrivial("line", name)


@monitor(200, 3000)
def profiles(ctx):
    """voigt() itself against scipy's, its limits and its width."""
    rng = ctx.rng
    h = float(rng.choice([0, 1, 1, 1])) * float(10**rng.uniform(-4, 4))
    s = float(rng.choice([0, 1, 1, 1])) * float(10**rng.uniform(-4, 4)) * (h or 1)
    ctx.need(h > 0 or s > 0)
    c = float(rng.choice([0, 1])) * float(rng.normal()) * max(h, s) * 10
    x = c + max(h, s) * np.concatenate([[0], rng.normal(size=20) * 3, rng.choice([-1, 1], 6) * 10**rng.uniform(1, 5, 6)])
    ctx.case.update(h=h, s=s, c=c)
    v = voigt(x, c, h, s)
    w = scipy.special.voigt_profile(x - c, s, h)
    ctx.count("voigts", len(x))
    ctx.check(np.all(v >= 0), "voigt:negative", "negative")
    ctx.check(np.all(np.abs(v - w) <= 1e-11 * w + 1e-16 * w.max()), "voigt:value", f"{v[:3]} {w[:3]}")
    ctx.same(voigt(x.tolist(), c, h, s), v, "voigt:list")
    ctx.close(float(voigt(float(x[3]), c, h, s)), v[3], "voigt:scalar", rtol=1e-13, atol=0)
    ctx.close(voigt(2 * c - x, c, h, s), v, "voigt:symmetric", rtol=1e-9, atol=1e-16 * v.max())
    k = float(10**rng.uniform(-3, 3))
    ctx.close(voigt(x * k, c * k, h * k, s * k) * k, v, "voigt:scaling", rtol=1e-8, atol=1e-15 * v.max())
    F = float(voigt_approx_fwhm(2 * h, s * F2S))
    half = scipy.special.voigt_profile(0., s, h) / 2
    lo, hi = scipy.special.voigt_profile(F / 2 * .9995, s, h), scipy.special.voigt_profile(F / 2 * 1.0005, s, h)
    ctx.check(hi < half < lo, "voigt:width", f"approximate FWHM {F} is off by more than 0.05%")
    ctx.nontrivial("voigt", h > 0, s > 0)


_TABLE = None


def table():
    """The NIST data files, parsed apart from NISTXrayDBFile."""
    global _TABLE
    if _TABLE is None:
        _TABLE = {}
        for f in nx.NISTXrayDBFile.DEFAULT_FILENAMES:
            body = False
            for t in open(os.path.join(os.path.dirname(nx.__file__), f), encoding="utf-8"):
                if "Theory" in t and "Blend" in t:
                    body = True
                elif body:
                    el, tr = t[:4].strip(), t[9:16].strip()
                    try:
                        _TABLE[el, tr] = (float(t[44:59]), float(t[60:72]))
                    except ValueError:
                        pass
    return _TABLE


@contextlib.contextmanager
def deadline(seconds):
    """Raise TimeoutError if the body runs on."""
    def stop(*a):
        raise TimeoutError("no answer")
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


NICK = dict(KA1="KL3", KA2="KL2", KB1="KM3", KB3="KM2", KB5="KM5", LA1="L3M5", LA2="L3M4", LL="L3M1", LB3="L1M3", LB1="L2M4", LB2="L3N5", LG1="L2N4")


@monitor(120, 1200)
def database(ctx):
    rng = ctx.rng
    t = table()
    db = nx.NISTXrayDBFile()
    keys = sorted(t)
    back = {v: k for k, v in NICK.items()}
    for el, tr in [keys[i] for i in rng.integers(0, len(keys), 12)]:
        e, de = t[el, tr]
        names = [tr]
        if tr in back:
            nick = back[tr]
            names += [nick, nick.replace("A", "Alpha").replace("B", "Beta").replace("G", "Gamma")]
        ctx.case.update(el=el, tr=tr)
        for nm in names:
            for txt in (f"{el} {nm}", f"{el.lower()} {nm.lower()}", f"{el.upper()} {nm.upper()}"):
                try:
                    L = db[txt]
                except KeyError as x:
                    ctx.fail("database:lookup", f"{txt!r} is not found ({x})")
                    continue
                ctx.check(L.peak == e and L.peak_unc == de and L.element == el and L.transition == tr, "database:line", f"{txt!r} gives {L}")
                ctx.count("lookups")
            by = db.get_lines_by_type(nm)
            ctx.check([q.element for q in by] == [q for q in nx.ELEMENTS if (q, tr) in t] and all(q.transition == tr for q in by), "database:type", f"lines of type {nm}: {[q.element for q in by][:9]}")
            # and the dictionary of standard energies
            key = el + (nm if nm != "LL" else "Ll")
            short = [key] + ([key[:-1]] if nm != tr and nm.endswith("1") else [])
            for q in short:
                ctx.check(mass.STANDARD_FEATURES.get(q) == e, "database:standard", f"STANDARD_FEATURES[{q!r}] is {mass.STANDARD_FEATURES.get(q)}, the table says {e}")
        ctx.nontrivial("database", tr)
    ctx.check({tuple(k.split()) for k in db.lines} == set(t), "database:complete", f"{len(db.lines)} lines, {len(t)} in the files")
    ctx.check(ctx.raises(lambda: db["Mn KZ9"], KeyError) is not None, "database:unknown", "an unknown line is found")
    if ctx.index % 10 == 0:
        f = os.path.join(ctx.tmp, "odd.dat")
        open(f, "w").write("nothing here\n" * int(rng.integers(0, 5)))
        with deadline(10):
            d2 = nx.NISTXrayDBFile(f)
        ctx.check(len(d2.lines) == 0, "database:headerless", "lines found in a file without any")


@monitor(60, 400)
def drawn(ctx):
    """Plots of a line show its density and its components."""
    import matplotlib
    matplotlib.use("agg")
    import matplotlib.pyplot as plt
    rng = ctx.rng
    name, l, en, fw, frac, sig0 = some_line(ctx)
    ctx.need(fw.min() > 0)
    res = resolution(rng, fw)
    how = str(rng.choice(["plain", "axis", "axis", "x", "reference"]))
    parts = bool(rng.random() < .5)
    ctx.case.update(line=name, res=res, how=how, parts=parts)
    plt.close("all")
    fig, (a, b) = plt.subplots(1, 2)
    plt.sca(b)
    kw = {}
    if how == "axis":
        kw["axis"] = a
    if how == "x":
        kw["x"] = np.linspace(en.min() - 3 * fw.max(), en.max() + 2 * fw.max(), int(rng.integers(20, 300)))
    if how == "reference":
        ref = l.reference_plot_instrument_gaussian_fwhm
        ax = l.plot_like_reference(**(dict(axis=a) if rng.random() < .5 else {}))
        res, parts = (.001 if ref is None else ref), True
    else:
        ax = l.plot(instrument_gaussian_fwhm=res, components=parts, label="lab", setylim=bool(rng.random() < .5), **kw)
    ctx.count("plots")
    ctx.check(len(b.lines) == 0 and not b.get_title(), "drawn:other axis", "drawn on the current axis, not on the one given or on its own")
    ctx.check(how != "axis" or (ax is a and plt.get_fignums() == [fig.number]), "drawn:axis", "not drawn on the axis given")
    ctx.check(ax is a or len(plt.get_fignums()) == 2, "drawn:axis", "no figure of its own")
    ctx.check(len(ax.lines) == (len(en) if parts else 0) + 1, "drawn:curves", f"{len(ax.lines)} curves for {len(en)} components")
    sig = np.hypot(res / F2S, sig0)
    x = np.asarray(ax.lines[-1].get_xdata(), float)
    if how == "x":
        ctx.same(x, kw["x"], "drawn:x")
    else:
        ctx.check(x[0] < en.min() - fw.max() * .99 and x[-1] > en.max() + fw.max() * .99 and x[0] <= en.min() - sig and x[-1] >= en.max() + sig, "drawn:range", f"{x[0]}..{x[-1]} for components at {en.min()}..{en.max()}, width {fw.max()}, sigma {sig}")
    vals = [f * scipy.special.voigt_profile(x - e, sig, w / 2) for e, w, f in zip(en, fw, frac)]
    top = np.sum(vals, axis=0).max()
    ctx.close(np.asarray(ax.lines[-1].get_ydata()), np.sum(vals, axis=0), "drawn:density", rtol=1e-4, atol=1e-6 * top)
    if parts:
        for li, v in zip(ax.lines, vals):
            ctx.close(np.asarray(li.get_ydata()), v, "drawn:component", rtol=1e-4, atol=1e-6 * top)
    ctx.check(l.shortname in ax.get_title(), "drawn:title", ax.get_title())
    ctx.check(f"{float(x[1] - x[0]):.2}" in ax.get_ylabel(), "drawn:ylabel", ax.get_ylabel())
    plt.close("all")
    ctx.nontrivial(name, how, parts)
