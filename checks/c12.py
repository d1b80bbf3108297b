"""C12: energy calibration curves hit their anchors and are invertible."""
import numpy as np

from vlib import cal as vc
from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case makes random monotone calibration points (1-12 points; power-law, saturating or rolling-off gains; smooth or jagged; entered in random order), picks one of the six curve types and compares values and slopes on a dense grid "
        "with an independently built natural spline in that curve type's coordinates, with the anchors, with scalar evaluation and with curves entered in another order; inversion is judged where the independent curve is monotone. "
        "Approximating curves are fitted to points scattered by their uncertainties. Non-trivial = at least two points.")
ASSUMPTIONS = ["pulse heights exceed 1 (the Gaussian-process kernel and the clip of log(0) need it)", "inversion is claimed only where the curve itself is monotone over the whole range the class tabulates (0 to twice the largest anchor)",
               "energy2ph is documented as a spline of ~1% steps: it has to agree with the exact inverse to 0.2% of a pulse height between anchors; energy2ph_exact has to agree to 1e-8"]


def build(ctx, ph, e, curve, nonlin, order, approx=False, gpr=True, dph=None, de=None):
    from mass.calibration.energy_calibration import EnergyCalibration
    cal = EnergyCalibration(nonlin, curve, approx, gpr)
    for i in order:
        kw = {} if dph is None else dict(pht_error=float(dph[i]), e_error=float(de[i]))
        cal.add_cal_point(float(ph[i]), float(e[i]), name=f"p{i}", **kw)
        if ctx.rng.random() < .2:
            cal(float(ph[i]))  # evaluation in between must not matter
    return cal


def elementwise(ctx, f, x, mech):
    """f of scalars, lists, arrays of any length: the same numbers in the same shape."""
    rng = ctx.rng
    whole = np.asarray(f(x))
    ctx.check(whole.shape == x.shape, mech + " shape", f"{whole.shape} for {x.shape}")
    i = int(rng.integers(len(x)))
    for form, v in (("python float", float(x[i])), ("numpy scalar", np.float64(x[i]))):
        r = f(v)
        ctx.check(np.ndim(r) == 0 and np.isscalar(r), mech + " scalar kind", f"{form}: {type(r)}")
        ctx.close(r, whole[i], mech + " scalar equals array element", 1e-9)
    j = int(rng.integers(len(x)))
    lo, hi = min(i, j), max(i, j) + 1
    keep = x[lo:hi].copy()
    part = f(keep)
    ctx.check(isinstance(part, np.ndarray), mech + " array kind", str(type(part)))
    ctx.close(part, whole[lo:hi], mech + " slice equals array elements", 1e-9)
    ctx.same(keep, x[lo:hi], mech + " input modified")
    one = x[i:i + 1].copy()
    ctx.close(f(one), whole[i:i + 1], mech + " length-1 array", 1e-9)
    ctx.close(f(list(map(float, x[lo:hi]))), whole[lo:hi], mech + " list", 1e-9)


@monitor(500, 5000)
def exact(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 2, 3, 4, 5, 8, 12]))
    gentle = bool(rng.random() < .7)
    ph, e = vc.points(rng, n, gentle)
    curve = str(rng.choice(vc.CURVES))
    nonlin = float(rng.uniform(1.0, 1.3))
    order = rng.permutation(n)
    ctx.case = dict(curve=curve, ph=ph.tolist(), e=e.tolist(), order=order.tolist(), nonlin=nonlin)
    cal = build(ctx, ph, e, curve, nonlin, order)
    E, D = vc.oracle(curve, ph, e, nonlin)
    ctx.close(cal.ph2energy(ph), e, "anchor energies", 1e-9)
    for i in range(n):
        ctx.close(cal(float(ph[i])), e[i], "anchor energies", 1e-9)
    ctx.close(cal.cal_point_phs, ph, "anchors in order", 1e-12)
    ctx.close(cal.cal_point_energies, e, "anchors in order", 1e-12)
    g = vc.evalgrid(ph)
    want, slope = E(g), D(g)
    # keep clear of poles of the gain curve, and of points where rounding decides between two pieces
    fine = np.isfinite(want) & (np.abs(want) < 50 * e[-1]) & (want > -50 * e[-1])
    if curve == "gain":
        fine &= (g / want) > .05 * np.median(ph / e)
    ctx.close(cal.ph2energy(g)[fine], want[fine], "curve values", 1e-7, 1e-7 * e[-1])
    ctx.close(cal.ph2dedph(g)[fine], slope[fine], "slope", 1e-6, 1e-7 * e[-1] / ph[-1])
    ctx.close(cal.ph2energy(g, der=1)[fine], slope[fine], "slope", 1e-6, 1e-7 * e[-1] / ph[-1])
    elementwise(ctx, cal.ph2energy, g[fine], "ph2energy")
    elementwise(ctx, cal, g[fine], "call")
    elementwise(ctx, cal.ph2dedph, g[fine], "ph2dedph")
    other = build(ctx, ph, e, curve, nonlin, rng.permutation(n))
    ctx.same(other.ph2energy(g[fine]), cal.ph2energy(g[fine]), "order of entry")
    other.set_curvetype(str(rng.choice(vc.CURVES)))
    other(g[0])
    other.set_curvetype(curve if rng.random() < .5 else vc.CURVES.index(curve))
    ctx.same(other.ph2energy(g[fine]), cal.ph2energy(g[fine]), "switching curve types forth and back")
    ctx.check(other.curvename() == curve, "curve name", other.curvename())
    if fine.all() and n > 1:
        dense = np.linspace(0, 1.05 * ph[-1], 1001)[1:]
        mono = bool(np.all(np.diff(E(dense)) > 0))
        margin = np.min(np.abs(np.diff(E(dense)))) > 1e-9 * e[-1] and E(dense)[0] > 0
        if margin:
            ctx.check(bool(cal.ismonotonic) == mono, "ismonotonic", f"{cal.ismonotonic} vs {mono}")
    ctx.nontrivial(curve, n, gentle)
    invert(ctx, cal, E, D, ph, e)
    ctx.count("cases", 1)


def invert(ctx, cal, E, D, ph, e, coarse=2e-3):
    rng = ctx.rng
    tab = np.hstack([np.linspace(0, ph[0], 400)[1:], np.linspace(ph[0], ph[-1], 2000)[1:], np.linspace(ph[-1], 2 * ph[-1], 600)[1:]])
    et = E(tab)
    dt = np.diff(et) / np.diff(tab)
    if not (np.all(np.isfinite(et)) and np.all(dt > .15 * e[-1] / ph[-1]) and np.all(dt < 6 * e[-1] / ph[-1])):
        ctx.count("not monotone enough", 1)
        return
    p = np.sort(rng.uniform(ph[0], ph[-1] if len(ph) > 1 else 1.5 * ph[0], 40))
    en = E(p)
    got = cal.energy2ph(en)
    ctx.close(got, p, "energy2ph inverts ph2energy", coarse)
    ctx.close(cal.e2ph(en), got, "e2ph synonym", 0)
    ctx.close(cal.energy2ph(e), ph, "energy2ph of the anchors", coarse)
    elementwise(ctx, cal.energy2ph, en, "energy2ph")
    ctx.close(cal.energy2dedph(en), D(p), "energy2dedph", .05)
    ctx.close(cal.energy2dedph(en), cal.ph2dedph(got), "energy2dedph is the slope at energy2ph", 1e-12)
    k = int(rng.integers(1, 9))
    pe = rng.uniform(.2 * ph[0], 1.9 * ph[-1], k)
    ctx.close(cal.energy2ph_exact(E(pe)), pe, "energy2ph_exact", 1e-7)
    ctx.close(cal.energy2ph_exact(float(E(pe[0]))), pe[0], "energy2ph_exact scalar", 1e-7)
    if rng.random() < .4:
        pl = rng.uniform(ph[0], ph[-1] if len(ph) > 1 else 1.5 * ph[0], int(rng.choice([1024, 1025, 1500])))
        el = E(pl)
        keep = el.copy()
        ctx.close(cal.energy2ph_exact(el), pl, "energy2ph_exact of long input", 1e-6)
        ctx.same(el, keep, "energy2ph_exact modifies its input")
        ei = np.round(el).astype(int)
        ctx.close(E(np.asarray(cal.energy2ph_exact(ei))), ei, "energy2ph_exact of integers", 1e-6)
        ctx.count("long inversions", 1)
    ctx.count("inversions", 1)


@monitor(150, 1500)
def approximate(ctx):
    """Approximating curves: consistent with the points' uncertainties; all else as for exact ones."""
    rng = ctx.rng
    n = int(rng.choice([3, 4, 5, 7, 10]))
    ph, e = vc.points(rng, n)
    curve = str(rng.choice(vc.CURVES))
    gpr = bool(rng.random() < .6)
    rel = 10 ** rng.uniform(-4.5, -3)
    dph = ph * rel * rng.uniform(.5, 2, n)
    de = e * rel * rng.uniform(.1, 2, n)
    sig = np.sqrt((dph * np.gradient(e, ph)) ** 2 + de ** 2)
    en = e + rng.normal(size=n) * sig
    order = rng.permutation(n)
    ctx.case = dict(curve=curve, ph=ph.tolist(), e=en.tolist(), dph=dph.tolist(), de=de.tolist(), gpr=gpr, order=order.tolist())
    cal = build(ctx, ph, en, curve, 1.1, order, True, gpr, dph, de)
    g = vc.evalgrid(ph)
    g = g[(g > .5 * ph[0]) & (g < 1.3 * ph[-1])]
    vals = cal.ph2energy(g)
    pull = (cal.ph2energy(ph) - en) / sig
    chisq = float(np.sum(pull ** 2))
    ctx.case["chisq"] = chisq
    ctx.check(chisq < (1.4 * (n + (curve == "linear+0")) if not gpr else 8 * n + 20), "consistent with the uncertainties", f"chisq {chisq} for {n} points, {curve} gpr={gpr}")
    if curve == "linear+0":
        # the curve goes through the origin, to within a tenth of the best point's uncertainty
        s0 = .1 * np.hypot(dph.min() * np.gradient(e, ph).max(), de.min())
        zero = float(cal.ph2energy(np.array([1e-12 * ph[0]]))[0]) / s0
        ctx.check(abs(zero) < np.sqrt(1.4 * (n + 1) if not gpr else 8 * n + 20), "through the origin", f"energy at zero height is {zero} times its uncertainty {s0}")
        ctx.count("through_origin", 1)
    if not gpr and curve != "linear+0":
        # the smoothest curve that meets the budget uses all of it, unless a straight line meets it
        tx, ty, ts = dict(loglog=(np.log(ph), np.log(en), sig / e), linear=(ph, en, sig), gain=(ph, ph / en, ph / e**2 * sig),
                          invgain=(ph, en / ph, sig / ph), loggain=(ph, np.log(ph / en), sig / e))[curve]
        line = np.polyval(np.polyfit(tx, ty, 1, w=1 / ts), tx)
        if np.sum(((ty - line) / ts) ** 2) > 1.6 * n:
            ctx.check(chisq > .6 * n, "no less smooth than the uncertainties require", f"chisq {chisq} for {n} points, {curve}")
            ctx.count("budgets_used", 1)
    elementwise(ctx, cal.ph2energy, g, "ph2energy")
    elementwise(ctx, cal.ph2dedph, g, "ph2dedph")
    inside = g[(g > ph[0]) & (g < ph[-1])]
    h = 1e-4 * ph[0]
    num = (cal.ph2energy(inside + h) - cal.ph2energy(inside - h)) / (2 * h)
    ctx.close(cal.ph2dedph(inside), num, "slope is the derivative", 1e-3, 1e-4 * e[-1] / ph[-1])
    other = build(ctx, ph, en, curve, 1.1, rng.permutation(n), True, gpr, dph, de)
    ctx.close(other.ph2energy(g), vals, "order of entry", 1e-9)
    # an exact curve made of the same points, by switching approximation off
    other.set_use_approximation(False)
    E, D = vc.oracle(curve, ph, en, 1.1)
    w = E(g)
    ok = np.isfinite(w) & (np.abs(w) < 10 * e[-1])
    ctx.close(other.ph2energy(g)[ok], w[ok], "approximation switched off", 1e-7, 1e-7 * e[-1])
    ctx.check(ctx.raises(lambda: other.ph2uncertainty(g), ValueError), "no uncertainty of exact curves", "")
    other.set_use_approximation(True)
    ctx.close(other.ph2energy(g), vals, "approximation switched off and on", 1e-9)
    if gpr:
        unc = cal.ph2uncertainty(ph)
        r = unc / sig
        ctx.check(bool(np.all((r > .05) & (r < 1.7))), "uncertainty at the anchors", f"{curve}: curve uncertainty / anchor uncertainty = {r}")
        ctx.close(cal.energy2uncertainty(cal.ph2energy(ph)), unc, "energy2uncertainty", .05)
        mid = cal.ph2uncertainty(inside)
        ctx.check(bool(np.all(mid > 0)) and bool(np.all(np.isfinite(mid))), "uncertainty positive", "")
        # k times larger errors and scatter about the same straight line mean k times larger uncertainty
        ctx.count("uncertainties", 1)
    dense = np.linspace(ph[0] * .02, 2 * ph[-1], 2000)
    v = cal.ph2energy(dense)
    sl = np.diff(v) / np.diff(dense)
    if np.all(sl > .2 * e[-1] / ph[-1]) and np.all(sl < 5 * e[-1] / ph[-1]):
        ctx.close(cal.energy2ph(cal.ph2energy(inside)), inside, "energy2ph inverts ph2energy", 2e-3)
        k = inside[::80]
        ctx.close(cal.energy2ph_exact(cal.ph2energy(k)), k, "energy2ph_exact", 1e-7)
        ctx.count("inversions", 1)
    ctx.nontrivial(curve, gpr, n)


@monitor(100, 800)
def features(ctx):
    """Named features, drop-one errors."""
    from mass.calibration.energy_calibration import EnergyCalibration, STANDARD_FEATURES
    rng = ctx.rng
    pool = sorted(k for k, v in STANDARD_FEATURES.items() if 500 < v < 12000)
    names = []
    for _ in range(40):
        c = str(rng.choice(pool))
        if all(abs(STANDARD_FEATURES[c] - STANDARD_FEATURES[o]) > 60 for o in names):
            names.append(c)
        if len(names) == 7:
            break
    e = np.array([STANDARD_FEATURES[c] for c in names])
    ph = 3 * e ** .9
    curve = str(rng.choice(["loglog", "linear+0", "gain", "invgain", "loggain"]))
    ctx.case = dict(names=names, curve=curve)
    cal = EnergyCalibration(1.1, curve)
    for c, p in zip(names, ph):
        cal.add_cal_point(float(p), c)
    i = np.argsort(ph)
    cal(1.0)
    ctx.check(list(cal.cal_point_names) == [names[k] for k in i], "named points", f"{cal.cal_point_names}")
    ctx.same(np.asarray(cal.cal_point_energies), e[i], "energies of named points")
    ctx.close(cal.ph2energy(ph), e, "anchor energies", 1e-9)
    E, D = vc.oracle(curve, ph[i], e[i], 1.1)
    lo, hi = e.min(), e.max()
    for c in rng.choice(pool, 12):
        if lo < STANDARD_FEATURES[c] < hi:
            p = cal.name2ph(str(c))
            ctx.close(E(np.array([p]))[0], STANDARD_FEATURES[c], "name2ph", 2e-3)
    en, err = cal.drop_one_errors()
    want = []
    for k in i:
        keep = [j for j in i if j != k]
        f, _ = vc.oracle(curve, ph[keep], e[keep], 1.1)
        want.append(f(np.array([ph[k]]))[0] - e[k])
    ctx.same(np.asarray(en), e[i], "drop-one energies")
    ctx.close(np.asarray(err), np.array(want), "drop-one errors", 1e-6, 1e-6)
    ctx.close(cal.ph2energy(ph), e, "drop-one leaves the calibration alone", 1e-9)
    # points need no names of their own for it: here several have none
    cal = EnergyCalibration(1.1, curve)
    for j, (a, b) in enumerate(zip(ph, e)):
        cal.add_cal_point(float(a), float(b), name="" if rng.random() < .6 else f"own {j}")
    before = list(cal.cal_point_names)
    en, err = cal.drop_one_errors()
    ctx.same(np.asarray(en), e[i], "drop-one energies")
    ctx.close(np.asarray(err), np.array(want), "drop-one errors", 1e-6, 1e-6)
    ctx.check(list(cal.cal_point_names) == before, "drop-one leaves the names alone", f"{before} -> {cal.cal_point_names}")
    ctx.count("drop-one without names")
    ctx.nontrivial(curve, len(names))


@monitor(150, 1000)
def drawn(ctx):
    """Plots of a calibration show the curve and the points it has, in the coordinates asked for."""
    import matplotlib
    matplotlib.use("agg")
    import matplotlib.pyplot as plt
    rng = ctx.rng
    n = int(rng.choice([2, 3, 5, 8]))
    ph, e = vc.points(rng, n)
    if rng.random() < .4:
        e = e * 10 ** rng.uniform(0, 1.5)   # also gains (pulse height per eV) below 1
    curve = str(rng.choice(["loglog", "linear+0", "linear"]))
    nonlin = float(rng.uniform(1.0, 1.2))
    dph = ph * 10 ** rng.uniform(-3, -2, n)
    de = e * 10 ** rng.uniform(-4, -2, n)
    approx = bool(rng.random() < .6)
    kind = str(rng.choice(["linear", "gain", "invgain", "loggain", "loglog"]))
    kw = {}
    if kind == "linear" and rng.random() < .5:
        kw["ph_rescale_power"] = float(rng.uniform(.5, 1.5))
    if kind != "loglog" and rng.random() < .4:
        kw["energy_x"] = True
    if rng.random() < .4:
        kw["removeslope"] = True
    if rng.random() < .3:
        kw["showtext"] = False
    if rng.random() < .3:
        kw["showerrors"] = False
    ctx.case = dict(ph=ph.tolist(), e=e.tolist(), curve=curve, kind=kind, approx=approx, kw=kw)
    cal = build(ctx, ph, e, curve, nonlin, rng.permutation(n), approx, False, dph, de)
    g = np.linspace(.001 * ph[-1], 1.1 * ph[-1], 200)
    eg = cal(g)
    if not (np.all(np.isfinite(eg)) and np.all(eg > 0)):
        ctx.count("curve not positive", 1)
        return
    for bound in ("min_energy", "max_energy"):
        if rng.random() < .3 and cal.ismonotonic:
            kw[bound] = float(e[0] * 1.05 if bound == "min_energy" else e[-1] * .97)
    plt.close("all")
    fig, axes = plt.subplots(1, 2)
    given = rng.random() < .6
    short = {"gain": cal.plotgain, "invgain": cal.plotinvgain, "loggain": cal.plotloggain}
    if given:
        kw["axis"] = axes[0]
        plt.sca(axes[1])
    if kind in short and rng.random() < .5:
        short[kind](**kw)
    else:
        cal.plot(plottype=kind, **kw)
    if given:
        ctx.check(len(axes[1].lines) == 0 and axes[1].get_title() == "" and len(axes[1].texts) == 0, "drawn on another axis than given")
        ax = axes[0]
    else:
        ctx.check(len(plt.gcf().axes) == 1, "number of axes", str(len(plt.gcf().axes)))
        ax = plt.gcf().axes[0]
    power = kw.get("ph_rescale_power", 0.0)
    rel = np.sqrt((de / e) ** 2 + (dph / ph) ** 2)

    def coords(p, en):
        y = dict(linear=en / p ** power, gain=p / en, invgain=en / p, loggain=np.log(p / en), loglog=np.log(en))[kind]
        return np.log(p) if kind == "loglog" else en if kw.get("energy_x") else p, y

    x, y = coords(ph, e)
    xerr = dph / ph if kind == "loglog" else de if kw.get("energy_x") else dph
    yerr = rel if kind in ("loggain", "loglog") else rel * np.abs(y)
    slope = (y[-1] - y[0]) / (x[-1] - x[0]) if kw.get("removeslope") else 0.0
    yp = y - slope * x
    scale = np.max(np.abs(y))
    ctx.check(len(ax.containers) == 1, "one set of error bars", str(len(ax.containers)))
    mark, _, bars = ax.containers[0].lines
    ctx.close(np.asarray(mark.get_xdata()), x, "points drawn at", 1e-9)
    ctx.close(np.asarray(mark.get_ydata()), yp, "points drawn at", 1e-7, 1e-9 * scale)
    for col in bars:
        seg = np.array(col.get_segments())
        d = seg[:, 1] - seg[:, 0]
        if np.any(d[:, 1] != 0):
            ctx.close(np.abs(d[:, 1]) / 2, yerr, "error bars", 1e-6, 1e-9 * scale)
        else:
            ctx.close(np.abs(d[:, 0]) / 2, xerr, "pulse height bars", 1e-6, 1e-9 * np.max(np.abs(x)))
    ctx.check(len(bars) == 2, "error bars both ways", str(len(bars)))
    plain = [li for li in ax.lines if li is not mark]
    bands = approx and n >= 3 and kw.get("showerrors", True)
    ctx.check(len(plain) == (3 if bands else 1), "number of curves drawn", f"{len(plain)} approx={approx}")
    lx, ly = (np.asarray(v, float) for v in plain[0].get_data())
    # the curve drawn is the curve itself, over the range asked for
    lo = float(cal.energy2ph(kw["min_energy"])) if "min_energy" in kw else .001 * ph[-1]
    hi = float(cal.energy2ph(kw["max_energy"])) if "max_energy" in kw else 1.1 * ph[-1]
    p = np.linspace(lo, hi, len(lx))
    wx, wy = coords(p, cal(p))
    ctx.check(len(lx) >= 100, "curve too coarse", str(len(lx)))
    ctx.close(lx, wx, "curve drawn at", 1e-7)
    ctx.close(ly, wy - slope * wx, "curve drawn", 1e-6, 1e-8 * np.max(np.abs(wy)) + 1e-8 * abs(slope) * np.max(np.abs(wx)))
    if bands:
        sig = cal.ph2uncertainty(p)
        d = dict(linear=sig / p ** power, gain=sig / cal(p) * p / cal(p), invgain=sig / p, loggain=sig / cal(p), loglog=sig / cal(p))[kind]
        up, dn = (np.asarray(li.get_ydata()) for li in plain[1:])
        ctx.close(np.sort([up - ly, dn - ly], axis=0)[1], np.abs(d), "uncertainty band", 1e-5, 1e-8 * np.max(np.abs(wy)) + 1e-8 * abs(slope) * np.max(np.abs(wx)))
        ctx.close(up + dn, 2 * ly, "uncertainty band is about the curve", 1e-6, 1e-8 * np.max(np.abs(wy)))
        ctx.count("bands", 1)
    texts = sorted((t.get_text().strip(), t.get_position()[0], t.get_position()[1]) for t in ax.texts)
    if kw.get("showtext", True):
        want = sorted((str(nm), a, b) for nm, a, b in zip(cal.cal_point_names, x, yp))
        ctx.check([t[0] for t in texts] == [w[0] for w in want], "names drawn", f"{texts}")
        ctx.close(np.array([t[1:] for t in texts]), np.array([w[1:] for w in want]), "names drawn at", 1e-7, 1e-9 * max(scale, np.max(np.abs(x))))
    else:
        ctx.check(texts == [], "names drawn though not asked for")
    if approx and n < 3:
        # an exact curve has no uncertainty to tell, also if it had with more points
        ctx.check(ctx.raises(lambda: cal.ph2uncertainty(float(ph[0])), ValueError) is not None, "uncertainty of an exact curve")
        cal.add_cal_point(float(2 * ph[-1]), float(2 * e[-1]), name="more")
        cal.ph2uncertainty(float(ph[0]))
        cal.remove_cal_point_name("more")
        ctx.check(ctx.raises(lambda: cal.ph2uncertainty(float(ph[0])), ValueError) is not None, "uncertainty of an exact curve, once more")
    if np.any(ph < e):
        ctx.count("gains below 1", 1)
    plt.close("all")
    ctx.nontrivial(kind, curve, approx, bool(kw.get("removeslope")), bool(kw.get("energy_x")))


@monitor(4, 20)
def drawn_unknown(ctx):
    """An unknown kind of plot is refused."""
    import matplotlib
    matplotlib.use("agg")
    ph, e = vc.points(ctx.rng, 4)
    kind = str(ctx.rng.choice(["lin", "log", "GAIN", "loglin"]))
    ctx.case = dict(kind=kind)
    cal = build(ctx, ph, e, "loglog", 1.1, ctx.rng.permutation(4))
    ctx.check(ctx.raises(lambda: cal.plot(plottype=kind), ValueError) is not None, "unknown kind of plot", kind)
    ctx.nontrivial(kind)
