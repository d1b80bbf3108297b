"""C28: OFF channels are calibrated and aligned as planned, on the selected pulses only."""
import numpy as np

from vlib import off as vo
from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case writes OFF files with fluorescence and monochromatic lines seen through known, different gains, with decoy pulses in other states and in the cut set, runs the calibration plan, the alignment to a reference channel, the learned "
        "residual cut or the quality checks, and compares the outcome with the energies and gains the pulses were made from. Non-trivial = more than one channel or decoys present.")
ASSUMPTIONS = ["alignment (a heuristic) is judged for three lines and channels whose gains differ by at most 2%", "lines have at least 300 pulses, are well apart, and resolution is better than 1%; alignment histograms have several bins across each peak",
               "plan values are within 10 eV of the truth, so the fitting window of +-50 eV holds the line"]

LINES = ["CrKAlpha", "MnKAlpha", "FeKAlpha", "CoKAlpha", "NiKAlpha", "CuKAlpha"]


def cal_peak(mass, name):
    return mass.spectra[name].peak_energy


class Table:
    """A recipe function: the table's value for each pulse height."""

    def __init__(self, fv, e):
        self.t = dict(zip(np.asarray(fv).tolist(), np.asarray(e).tolist()))

    def __call__(self, filtValue):
        return np.array([self.t[float(v)] for v in filtValue])


class Gain:
    def __init__(self, rng, spread=.3):
        self.p = float(rng.uniform(.85, 1.)) if spread > .1 else float(rng.uniform(.95 - spread, .95 + spread))
        self.g = float(rng.uniform(1 - spread, 1 + spread)) * 6000**(1 - self.p)

    def __call__(self, e):
        return self.g * np.asarray(e, float)**self.p

    def inv(self, ph):
        return (np.asarray(ph, float) / self.g)**(1 / self.p)


def build(ctx, names, nchan, per, fwhm, spread=.3, decoys=True, tag="run", drift=0.):
    """OFF files with lines `names` in state B; decoys 6 eV higher in state C, and 5 eV lower among pulses with a large residualStdDev."""
    import os
    import mass
    rng = ctx.rng
    out = dict(paths=[], gain={}, recs={}, e={}, kind={}, line={})
    t0 = vo.T0
    for ch in sorted(int(c) for c in rng.choice(np.arange(1, 40), nchan, replace=False)):
        gain = Gain(rng, spread)
        e, kind, line = [], [], []
        for i, q in enumerate(names):
            x = mass.spectra[q].rvs(per, instrument_gaussian_fwhm=fwhm, rng=np.random.default_rng(int(rng.integers(1 << 40))))
            e.append(x)
            kind.append(np.zeros(per, int))
            line.append(np.full(per, i))
            if decoys:
                m = per // 2
                for k, d in ((1, 6.), (2, -5.)):
                    e.append(mass.spectra[q].rvs(m, instrument_gaussian_fwhm=fwhm, rng=np.random.default_rng(int(rng.integers(1 << 40)))) + d)
                    kind.append(np.full(m, k))
                    line.append(np.full(m, i))
        e, kind, line = np.concatenate(e), np.concatenate(kind), np.concatenate(line)
        p = rng.permutation(len(e))
        p = np.concatenate([p[kind[p] != 1], p[kind[p] == 1]])    # state C comes last
        e, kind, line = e[p], kind[p], line[p]
        n = len(e)
        r = vo.records(rng, n)
        r["unixnano"] = t0 + np.arange(n) * 1_000_000 + int(rng.integers(1000))
        r["residualStdDev"] = np.abs(rng.normal(10, 1, n)) + 200 * (kind == 2)
        r["filtValue"] = gain(e)
        nb = int((kind != 1).sum())
        path = os.path.join(ctx.tmp, f"{tag}_chan{ch}.off")
        vo.write(path, r)
        out["paths"].append(path)
        out["gain"][ch], out["recs"][ch], out["e"][ch], out["kind"][ch], out["line"][ch] = gain, r, e, kind, line
        split = t0 + nb * 1_000_000 - 500_000
    vo.states(os.path.join(ctx.tmp, f"{tag}_experiment_state.txt"), [(t0 - 1000, "START"), (t0 - 100, "B"), (split, "C")])
    return out


def opened(ctx, t):
    import mass
    data = mass.off.ChannelGroup(t["paths"], verbose=False)
    data.cutAdd("cutRes", lambda residualStdDev: residualStdDev < 100, setDefault=True, _rethrow=True)
    return data


@monitor(60, 600)
def plan(ctx):
    """Plan points, in any order, define a rough calibration through all of them."""
    import mass
    rng = ctx.rng
    t = vo.make(ctx, chans=(1, 2), n=int(rng.integers(20, 80)), nstates=2)
    data = mass.off.ChannelGroup(t["paths"], verbose=False)
    names = [str(s) for s in rng.choice(LINES + ["TiKBeta", "AlKAlpha", "CuKBeta", "ScKAlpha"], int(rng.integers(1, 6)), replace=False)]
    pts = []
    gain = Gain(rng)
    for q in names:
        if q in mass.spectra and rng.random() < .7:
            pts.append((q, None, mass.spectra[q].peak_energy))
        elif rng.random() < .4:   # a feature known by its energy alone
            feat = str(rng.choice([k for k, e in mass.STANDARD_FEATURES.items() if k not in mass.spectra and 500 < e < 12000 and all(abs(e - p[2]) > 1 for p in pts)]))
            pts.append((feat, None, float(mass.STANDARD_FEATURES[feat])))
        else:
            en = float(rng.uniform(1000, 9000))
            pts.append((f"line{len(pts)}", en, en))
    ctx.case.update(points=pts)
    for ds in data.values():
        ds.calibrationPlanInit("filtValue")
        order = rng.permutation(len(pts))
        seen = []
        for k in order:
            nm, en, E = pts[k]
            ph = float(gain(E))
            st = [None, "A", ["A", "B"]][int(rng.integers(3))]
            got = ds.calibrationPlanAddPoint(ph, nm, states=st, **({} if en is None else dict(energy=en)))
            seen.append((ph, E, nm if en is None and nm in mass.spectra else mass.SpectralLine.quick_monochromatic_line(nm, E, 0.001, 0).shortname, st))
            ctx.check(got is ds.calibrationPlan, "plan:returned", "another plan is returned")
            ctx.close(got.uncalibratedVals, [s[0] for s in seen], "plan:values", rtol=0, atol=0)
            ctx.close(got.energies, [s[1] for s in seen], "plan:energies", rtol=0, atol=1e-6)
            ctx.check(list(got.names) == [s[2] for s in seen] and list(got.states) == [s[3] for s in seen], "plan:names and states", f"{got.names} {got.states}, given {seen}")
            rough = ds.recipes["energyRough"].f
            for q in seen:
                ctx.close(rough(q[0]), q[1], "plan:rough", rtol=1e-8, atol=0)
            want = rough(ds.getAttr("filtValue", slice(None), "cutNone"))
            ctx.close(ds.getAttr("energyRough", slice(None), "cutNone"), want, "plan:recipe", rtol=0, atol=0)
        before = ds.calibrationPlan.uncalibratedVals.copy()
        ctx.check(ctx.raises(lambda: ds.calibrationPlanAddPoint(100., "no such line"), Exception) is not None, "plan:unknown", "an unknown line is accepted")
        ctx.same(ds.calibrationPlan.uncalibratedVals, before, "plan:unknown changed")
    a, b = data.values()
    grid = np.linspace(.5, 1.5, 21) * gain(5000.)
    if len(pts) > 0:
        ctx.close(a.recipes["energyRough"].f(grid), b.recipes["energyRough"].f(grid), "plan:order", rtol=1e-9, atol=0)
    ctx.nontrivial("plan", len(pts), tuple(order))


def follow_up(ctx, data, t, names, calibrated, fwhm, mech, bias=None):
    """The named recipe gives the true energies of the good pulses of every channel."""
    import mass
    for ch, ds in data.items():
        cal = ds.recipes[calibrated].f
        g = t["gain"][ch]
        got = np.array([float(ds.recipes[calibrated].f(float(g(cal_peak(mass, q)) * (1 if bias is None else bias)))) for q in names])
        true = np.array([cal_peak(mass, q) for q in names])
        errs = np.array([r.params["peak_ph"].stderr or .5 for r in cal.results])
        ctx.count("calibrated_lines", len(names))
        ctx.check(np.all(np.abs(got - true) < 6 * np.max(errs) + .15), mech, f"channel {ch}: lines at {true} are calibrated to {got}; fit errors {errs}")
        ctx.check(sorted(cal.cal_point_names) == sorted(mass.spectra[q].shortname for q in names), mech + " points", f"{cal.cal_point_names}")
        for r, q in zip(cal.results, names):
            f = r.params["fwhm"].value
            ctx.check(.5 * fwhm < f < 1.7 * fwhm, mech + " resolution", f"channel {ch} {q}: {f}, true {fwhm}")


@monitor(14, 140)
def follow(ctx):
    """Calibrating by a plan fits the pulses of the plan's states that pass the cut, and finds their energies."""
    import mass
    rng = ctx.rng
    names = [str(s) for s in rng.choice(LINES, int(rng.integers(2, 5)), replace=False)]
    fwhm = float(rng.uniform(3, 6))
    nchan = int(rng.integers(1, 3))
    t = build(ctx, names, nchan, int(rng.integers(400, 1200)), fwhm)
    data = opened(ctx, t)
    other = rng.random() < .4
    if other:
        data.cutAdd("cutOther", lambda residualStdDev: residualStdDev < 90, _rethrow=True)
    use = "filtValue"
    bias = 1.
    if rng.random() < .4:
        use, bias = "fv2", 1.0008
        for ds in data.values():
            ds.recipes.add("fv2", lambda filtValue: filtValue * bias)
    n_iter = int(rng.integers(1, 4))
    ctx.case.update(lines=names, fwhm=fwhm, gains={c: (g.g, g.p) for c, g in t["gain"].items()}, use=use, n_iter=n_iter)
    for ch, ds in data.items():
        ds.calibrationPlanInit("filtValue")
        for q in names:
            ds.calibrationPlanAddPoint(float(t["gain"][ch](cal_peak(mass, q) + rng.uniform(-8, 8))), q, states="B" if rng.random() < .5 else ["B"])
    curve = str(rng.choice(["gain", "gain", "loglog", "linear"])) if len(names) > 2 else "gain"
    if curve == "linear":
        curve = "gain+0" if "gain+0" in mass.EnergyCalibration.CURVETYPE else "gain"
    results = data.calibrateFollowingPlan(use, calibratedName="energy", curvetype=curve, n_iter=n_iter, binsize=float(rng.choice([.4, .6])), overwriteRecipe=True, cutRecipeName="cutOther" if other else None, _rethrow=True)
    for ch, ds in data.items():
        ctx.check(not ds.markedBadBool, "follow:bad", f"channel {ch}: {data.whyChanBad}")
        cal = ds.recipes["energy"].f
        ctx.check(len(cal.intermediate_calibrations) == n_iter - 1 and len(cal.results) == len(names), "follow:iterations", f"{len(cal.intermediate_calibrations)} intermediate calibrations, {len(cal.results)} results")
        ctx.check(cal.curvename() == curve and cal.uncalibratedName == use, "follow:curve", f"{cal.curvename()} of {cal.uncalibratedName}")
        start = cal.intermediate_calibrations[-1] if n_iter > 1 else ds.recipes["energyRough"].f
        v = start(np.asarray(ds.getAttr(use, "B", "cutOther" if other else None)))
        for r in cal.results:   # each pass fits the energies given by the one before
            x = np.asarray(r.userkws["bin_centers"])
            h = np.histogram(v, np.append(x - (x[1] - x[0]) / 2, x[-1] + (x[1] - x[0]) / 2))[0]
            ctx.check(np.abs(h - r.data).sum() <= 2 + .001 * h.sum(), "follow:fitted spectrum", f"channel {ch}: the fitted spectrum differs in {np.abs(h - r.data).sum()} counts of {h.sum()} from the energies of the previous pass")
        good = (t["kind"][ch] == 0)
        want = cal(np.asarray(t["recs"][ch]["filtValue"] * np.float32(1)) * bias)
        got = ds.getAttr("energy", "B")
        ctx.check(len(got) == good.sum(), "follow:selection", f"{len(got)} of {good.sum()} good pulses")
        ctx.close(got, np.asarray(want)[good], "follow:recipe", rtol=1e-6, atol=0)
        e = t["e"][ch][good]
        core = np.min(np.abs(e[:, None] - np.array([cal_peak(mass, q) for q in names])), axis=1) < 25   # not the far wings
        worst = np.max(np.abs(np.asarray(got)[core] - e[core]))
        ctx.check(worst < 5, "follow:pulses", f"channel {ch}: a pulse is {worst} eV off")
    if curve == "gain" or n_iter:
        follow_up(ctx, data, t, names, "energy", fwhm, "follow:energy", bias)
    ctx.nontrivial("follow", nchan, len(names), n_iter, use, curve)


def rel_same(a, b, tol):
    return np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= tol)


@monitor(10, 100)
def align(ctx):
    """Channels aligned to a reference have its peaks at the same place, and take over its plan."""
    import mass
    rng = ctx.rng
    names = sorted((str(s) for s in rng.choice(LINES, 3, replace=False)), key=lambda q: cal_peak(mass, q))   # (with an even number the medians, used to scale, lie between lines; with more, the warping found may skip one)
    fwhm = float(rng.uniform(3, 6))
    nchan = int(rng.integers(2, 4))
    t = build(ctx, names, nchan, int(rng.integers(500, 1200)), fwhm, spread=float(rng.choice([.01, .02])), decoys=False)
    data = mass.off.ChannelGroup(t["paths"], verbose=False)
    ref = data[int(rng.choice(list(data.keys())))]
    g = t["gain"][ref.channum]
    binw = float(rng.choice([3, 4, 6]))
    top = max(float(q(9500.)) for q in t["gain"].values())
    edges = np.arange(float(min(q(4000.) for q in t["gain"].values())) * .8, top * 1.2, binw)
    ctx.case.update(lines=names, fwhm=fwhm, gains={c: (q.g, q.p) for c, q in t["gain"].items()}, reference=ref.channum, bins=(edges[0], edges[-1], binw))
    if rng.random() < .5:   # a first plan, aligned to, then replaced
        ref.calibrationPlanInit("filtValue")
        for q in names[::-1]:
            ref.calibrationPlanAddPoint(float(g(cal_peak(mass, q))) * 1.001, q, states="B")
        data.alignToReferenceChannel(ref, "filtValue", edges, _rethrow=True)
    ref.calibrationPlanInit("filtValue")
    plan = []
    for q in names:
        ph = float(g(cal_peak(mass, q)))
        ref.calibrationPlanAddPoint(ph, q, states=["B"])
        plan.append(ph)
    data.alignToReferenceChannel(ref, "filtValue", edges, _rethrow=True)
    ctr = .5 * (edges[1:] + edges[:-1])
    for ch, ds in data.items():
        ctx.check(not ds.markedBadBool, "align:bad", f"{data.whyChanBad}")
        a = ds.aligner
        true = t["gain"][ch](np.array([cal_peak(mass, q) for q in names]))
        found = ctr[a.peak_inds_b]
        ctx.count("aligned_peaks", len(names))
        # (K-alpha lines are doublets some 12 eV apart)
        width = 14. * np.max(np.gradient(t["gain"][ch](np.arange(5000., 9000., 10.)), 10.)) + 3 * binw
        ctx.check(np.all(np.abs(found - true) < width), "align:peaks", f"channel {ch}: peaks at {true} found at {found} (allowed {width})")
        ctx.same(a.peak_inds_a, np.searchsorted(edges, plan) - 1, "align:reference peaks")
        ctx.close(a.cal_b_to_a(found), ctr[a.peak_inds_a], "align:calibration", rtol=1e-9, atol=0)
        fv = ds.getAttr("filtValue", slice(None), "cutNone")
        ctx.close(ds.getAttr("arbsInRefChannelUnits", slice(None), "cutNone"), a.cal_b_to_a.ph2energy(fv), "align:recipe", rtol=0, atol=0)
        ctx.check(list(ds.calibrationPlan.names) == [mass.spectra[q].shortname for q in names] and list(ds.calibrationPlan.states) == [["B"]] * len(names), "align:plan names", f"{ds.calibrationPlan}")
        if ds is ref:
            ctx.close(ds.calibrationPlan.uncalibratedVals, plan, "align:reference plan", rtol=0, atol=0)
            ctx.check(np.all(np.abs(a.peak_inds_b - a.peak_inds_a) <= 1), "align:itself", f"{a.peak_inds_b} for {a.peak_inds_a}")
        else:
            back = a.cal_b_to_a(ds.calibrationPlan.uncalibratedVals)
            ctx.check(np.all(np.abs(back - plan) < .02 * np.array(plan)), "align:plan values", f"{back}, reference {plan}")
        rough = ds.getAttr("energyRough", slice(None), "cutNone")
        worst = np.max(np.abs(ds.recipes["energyRough"].f(true) - np.array([cal_peak(mass, q) for q in names])))
        ctx.check(worst < 30, "align:rough energies", f"channel {ch}: {worst} eV off")
        ctx.close(rough, ds.recipes["energyRough"].f(fv), "align:rough recipe", rtol=0, atol=0)
    # pictures of the alignment
    import matplotlib.pyplot as plt
    from mass.off.channels import dtw_same_peaks
    ds = data[int(rng.choice(list(data.keys())))]
    a, ch = ds.aligner, ds.channum
    fa, fb = (np.asarray(t["recs"][c]["filtValue"]) for c in (ref.channum, ch))
    ha, hb = np.histogram(fa, edges)[0], np.histogram(fb, edges)[0]
    hc = np.histogram(a.cal_b_to_a(fb), edges)[0]
    for f, want, peaks in ((a.samePeaksPlot, hb, a.peak_inds_b), (a.samePeaksPlotWithAlignmentCal, hc, a.peak_inds_a)):
        plt.close("all")
        f()
        li = [(np.asarray(q.get_xdata()), np.asarray(q.get_ydata())) for q in plt.gca().lines]
        full = [q for q in li if len(q[0]) == len(ctr)]
        dots = [(float(q[0][0]), float(q[1][0])) for q in li if len(q[0]) == 1]
        if ctx.check(len(full) == 2 and len(dots) == 2 * len(names), "align:plot", f"{len(full)} spectra, {len(dots)} marks"):
            ctx.check(np.array_equal(full[0][1], ha) and np.array_equal(full[1][1], want) and all(np.allclose(q[0], ctr) for q in full), "align:plotted spectra", "other spectra are drawn")
            ctx.check(np.allclose(dots, [(ctr[i], ha[i]) for i in a.peak_inds_a] + [(ctr[i], want[i]) for i in peaks]), "align:plotted peaks", f"{dots}")
        texts = [x.get_text() for x in plt.gca().get_legend().get_texts()]
        ctx.check(texts == [f"a: channel {ref.channum}", f"b: channel {ch}"], "align:legend", f"{texts}")
    plt.close("all")
    got = dtw_same_peaks(edges, fa, fb, a.peak_inds_a, True, True, plot=bool(rng.random() < .3))
    plt.close("all")
    ctx.same(list(got), list(a.peak_inds_b), "align:warping again")
    if ch != ref.channum:   # gains that differ slightly are fine, a wildly curved one is not
        ctx.check(bool(a.testForGoodnessBasedOnCalCurvature(.3)), "align:goodness", f"{a.cal_b_to_a}")
        keep = a.cal_b_to_a
        wild = mass.EnergyCalibration(curvetype="gain")
        x = ctr[a.peak_inds_a]
        for xx, y in zip(x, [x[0], x[1] + .6 * (x[2] - x[1]), x[2] + .2 * (x[2] - x[1])]):
            wild.add_cal_point(xx, y)
        a.cal_b_to_a = wild
        d = wild.energy2dedph(wild._energies)
        thr = float(rng.uniform(.05, 2))
        r = max(d.max() / np.median(d), np.median(d) / d.min()) if d.min() > 0 else np.inf
        if abs(r - 1 - thr) > 1e-6:
            ctx.check(bool(a.testForGoodnessBasedOnCalCurvature(thr)) == (r < 1 + thr), "align:wild goodness", f"slopes {d}, threshold {thr}")
        a.cal_b_to_a = keep
    if rng.random() < .5:
        data.calibrateFollowingPlan("filtValue", n_iter=2, binsize=.5, overwriteRecipe=True, _rethrow=True)
        follow_up(ctx, data, t, names, "energy", fwhm, "align:energy")
    ctx.nontrivial("align", nchan, len(names))


@monitor(40, 400)
def residual(ctx):
    """The learned residual cut keeps ordinary pulses at every pulse height and removes gross outliers."""
    import os
    import mass
    rng = ctx.rng
    binsize = float(rng.choice([500, 1000, 2000]))
    peaks = np.sort(rng.choice(np.arange(600, 15000, 300), int(rng.integers(1, 5)), replace=False)).astype(float)
    n = int(rng.integers(200, 900))
    r = vo.records(rng, n)
    a = rng.choice(peaks, n) + rng.normal(0, 15, n)
    if rng.random() < .4:
        a[:n // 3] = rng.uniform(500, 15500, n // 3)
    sig = rng.uniform(.5, 2)
    med = rng.uniform(8, 20) + a * float(rng.choice([0, 0, 2e-4]))
    std = med + sig * np.clip(rng.standard_normal(n), -3, 3)
    bad = rng.random(n) < .05
    # (a range with few pulses has a poor threshold: not judged)
    edges = np.arange(0, np.amax(a), binsize)
    k = np.searchsorted(edges, a) - 1
    r["filtValue"], r["residualStdDev"] = a, np.where(bad, std + 400 * sig, std)
    a = r["filtValue"].astype(float)
    p = os.path.join(ctx.tmp, "run_chan1.off")
    vo.write(p, r)
    vo.states(os.path.join(ctx.tmp, "run_experiment_state.txt"), [(vo.T0 - 100, "START")])
    data = mass.off.ChannelGroup([p], verbose=False)
    ds = data[1]
    nb = np.bincount(np.maximum(k, 0), minlength=len(edges))
    full = nb[:max(len(edges) - 1, 0)]
    ctx.case.update(peaks=peaks.tolist(), binsize=binsize, n=n, bins=nb.tolist())
    ctx.need((full > 40).any())
    # every used range has enough pulses for its median and MAD, and outliers are rare in it
    ctx.need(np.all((full <= 4) | (full >= 25)))
    data.learnResidualStdDevCut(n_sigma_equiv=15, binSizeFv=binsize, newCutRecipeName="cutR", setDefault=bool(rng.random() < .5), plot=bool(rng.random() < .2 and np.min(r["residualStdDev"]) > 0), _rethrow=True)
    keep = ds.getAttr("cutR", slice(None), "cutNone")
    # the threshold that applies is that of the next range with enough pulses (or the last one)
    used = np.nonzero(full > 4)[0]
    mids = edges[used] + binsize / 2
    ordinary = ~bad & (a >= 150)
    if med.max() > med.min() + sig:    # thresholds follow the median from range to range: only pulses of well-filled ranges can be judged
        near = np.isin(k, used) | (a > mids[-1])
    else:
        near = np.ones(n, bool)
    ctx.count("judged_pulses", int((ordinary & near).sum() + bad.sum()))
    lost = ordinary & near & ~keep
    ctx.check(not lost.any(), "residual:ordinary pulses cut", f"{lost.sum()} of {ordinary.sum()} ordinary pulses are cut, e.g. filtValue {a[lost][:4]}, residual {r['residualStdDev'][lost][:4]}")
    ctx.check(not keep[bad].any(), "residual:outliers kept", f"{keep[bad].sum()} of {bad.sum()} outliers are kept")
    ctx.check(not keep[a < 150].any(), "residual:small pulses", "pulses below minFv are kept")
    # the limit: median + so many Gaussian-equivalent deviations of the pulses in each range, that of the next range's middle applying
    nsig = float(rng.choice([2, 4, 8]))
    least = float(rng.choice([100, 150, 600]))
    data.learnResidualStdDevCut(n_sigma_equiv=nsig, binSizeFv=binsize, minFv=least, newCutRecipeName="cutR2", overwriteRecipe=True, cutRecipeName="cutNone", _rethrow=True)
    keep = ds.getAttr("cutR2", slice(None), "cutNone")
    res = r["residualStdDev"].astype(float)
    lim = []
    for j in used:
        v = res[(a > edges[j]) & (a < edges[j + 1])]
        lim.append(np.median(v) + nsig * np.median(np.abs(v - np.median(v))) / .67449)
    x = np.append(least, mids)
    if np.all(np.diff(x) > 0):
        i = np.minimum(np.searchsorted(x, a), len(x) - 1)     # the next middle, or the last
        want = np.append(-1, lim)[i]
        want[a < least] = -1
        sure = np.abs(res - want) > 1e-4 * np.abs(want)
        ctx.count("exact_limits", int(sure.sum()))
        ctx.check(np.all((res < want)[sure] == keep[sure]), "residual:limit", f"{((res < want) != keep)[sure].sum()} of {sure.sum()} pulses on the wrong side of the limits {lim} at {mids}")
    ctx.nontrivial("residual", len(peaks), binsize, bool((full <= 4).any()))


@monitor(14, 140)
def quality(ctx):
    """Quality checks mark bad exactly the channels beyond the given tolerances."""
    import mass
    rng = ctx.rng
    line = str(rng.choice(LINES))
    fwhm = float(rng.uniform(3, 5))
    nchan = int(rng.integers(2, 5))
    t = build(ctx, [line], nchan, int(rng.integers(900, 1500)), fwhm)
    data = opened(ctx, t)
    shift, broad = {}, {}
    for ch, ds in data.items():
        s = shift[ch] = float(rng.choice([0, 0, 4., -4.]))
        b = broad[ch] = bool(rng.random() < .3)
        extra = rng.normal(0, 9 / 2.355, len(t["e"][ch])) if b else 0
        ds.recipes.add(f"energy_q{ctx.index}", Table(t["recs"][ch]["filtValue"], t["e"][ch] + s + extra), ["filtValue"])
    ctx.case.update(line=line, fwhm=fwhm, shift=shift, broad=broad)
    sel = dict(attr=f"energy_q{ctx.index}", states="B", resolutionPlot=False, binsize=.5)
    how = int(rng.integers(3))
    kw = [dict(positionToleranceAbsolute=2.), dict(worstAllowedFWHM=fwhm + 3.), dict(positionToleranceAbsolute=2., worstAllowedFWHM=fwhm + 3.)][how]
    pre = None
    if nchan > 2 and rng.random() < .4:
        pre = int(rng.choice(list(data.keys())))
        data[pre].markBad("before")
    results = data.qualityCheckLinefit(line, **kw, **sel)
    want = {ch for ch in shift if ch != pre and (("positionToleranceAbsolute" in kw and shift[ch] != 0) or ("worstAllowedFWHM" in kw and broad[ch]))}
    got = set(data.whyChanBad) - {pre}
    ctx.count("channels_judged", nchan)
    ctx.check(got == want, "quality:marked", f"{sorted(got)} marked bad, beyond the tolerance are {sorted(want)}: {data.whyChanBad}")
    ctx.check(pre is None or data.whyChanBad.get(pre) == "before", "quality:earlier reason", f"{data.whyChanBad}")
    ctx.check(set(results) == set(shift) - {pre}, "quality:results", f"results of {list(results)}")
    for ch, r in results.items():
        e = r.params["peak_ph"].stderr
        ctx.check(abs(r.params["peak_ph"].value - cal_peak(mass, line) - shift[ch]) < 6 * e + .1, "quality:position", f"channel {ch}: {r.params['peak_ph'].value}, true {cal_peak(mass, line) + shift[ch]}")
    data.markAllGood()
    ctx.check(list(data.keys()) == sorted(shift) and not data.whyChanBad, "quality:all good", f"{data.whyChanBad}")
    both = ctx.raises(lambda: list(data.values())[0].qualityCheckLinefit(line, positionToleranceAbsolute=1., positionToleranceFitSigma=1., attr=sel["attr"], states="B"), Exception)
    ctx.check(both is not None, "quality:two tolerances", "both tolerances accepted")
    data.markAllGood()
    # by the fit's own uncertainty
    data.qualityCheckLinefit(line, positionToleranceFitSigma=12., **sel)
    far = {ch for ch, r in results.items() if abs(r.params["peak_ph"].value - cal_peak(mass, line)) > 12 * r.params["peak_ph"].stderr * 1.02}
    close = {ch for ch, r in results.items() if abs(r.params["peak_ph"].value - cal_peak(mass, line)) < 12 * r.params["peak_ph"].stderr * .98}
    got = set(data.whyChanBad)
    ctx.check(far <= got and not (got & close), "quality:sigma", f"{sorted(got)} marked, {sorted(far)} are beyond")
    ctx.nontrivial("quality", how, nchan, tuple(sorted(shift.values())))


@monitor(40, 400)
def dropone(ctx):
    """The drop-one check marks channels whose calibration is not smooth."""
    import os
    import mass
    rng = ctx.rng
    t = vo.make(ctx, chans=(1, 2, 5), n=30, nstates=1)
    data = mass.off.ChannelGroup(t["paths"], verbose=False)
    names = sorted((str(s) for s in rng.choice(LINES, int(rng.integers(4, 7)), replace=False)), key=lambda q: cal_peak(mass, q))
    err = {}
    for ch, ds in data.items():
        gain = Gain(rng)
        cal = mass.EnergyCalibration(curvetype="gain", approximate=False)
        cal.uncalibratedName = "filtValue"
        k = int(rng.integers(len(names)))
        off = float(rng.choice([0, 0, 30., -30.]))
        for i, q in enumerate(names):
            cal.add_cal_point(float(gain(cal_peak(mass, q) + (off if i == k else 0))), cal_peak(mass, q), q)
        ds.recipes.add("energy", cal, ["filtValue"], overwrite=True)
        errors = []
        for i, q in enumerate(names):
            c2 = mass.EnergyCalibration(curvetype="gain", approximate=False)
            for j, p in enumerate(names):
                if i != j:
                    c2.add_cal_point(float(gain(cal_peak(mass, p) + (off if j == k else 0))), cal_peak(mass, p), p)
            errors.append(float(c2(float(gain(cal_peak(mass, q) + (off if i == k else 0))))) - cal_peak(mass, q))
        err[ch] = np.abs(errors)
    thr = float(rng.choice([1., 5., 10.]))
    ctx.case.update(lines=names, errors={c: e.tolist() for c, e in err.items()}, threshold=thr)
    ctx.need(all(abs(e.max() - thr) > 1e-3 for e in err.values()))
    data.qualityCheckDropOneErrors(thresholdAbsolute=thr, _rethrow=True)
    want = {ch for ch, e in err.items() if e.max() > thr}
    ctx.check(set(data.whyChanBad) == want, "dropone:absolute", f"{data.whyChanBad}, beyond {thr}: {sorted(want)}")
    data.markAllGood()
    k = float(rng.choice([2., 4., 8.]))
    data.qualityCheckDropOneErrors(thresholdSigmaFromMedianAbsoluteValue=k, _rethrow=True)
    ratio = {ch: e.max() / (1.4826 * np.median(e)) for ch, e in err.items()}
    got = set(data.whyChanBad)
    ctx.check({c for c, q in ratio.items() if q > k * 1.001} <= got and not got & {c for c, q in ratio.items() if q < k * .999}, "dropone:relative", f"{sorted(got)} marked, ratios {ratio}, threshold {k}")
    ctx.count("channels_judged", 6)
    ctx.nontrivial("dropone", len(names), thr, k)


@monitor(24, 240)
def spectra(ctx):
    """Fits and plots of spectra use the pulses selected, in the bins asked for, of the channels asked for."""
    import mass
    import pylab as plt
    rng = ctx.rng
    line = str(rng.choice(LINES))
    nchan = int(rng.integers(1, 4))
    t = build(ctx, [line], nchan, 500, 4.)
    data = opened(ctx, t)
    attr = f"energy_s{ctx.index}"
    E = {}
    for ch, ds in data.items():
        table = Table(t["recs"][ch]["filtValue"], t["e"][ch])
        ds.recipes.add(attr, table, ["filtValue"])
        E[ch] = table(t["recs"][ch]["filtValue"])
    st = [None, "B", "C", ["B", "C"], ["C"]][int(rng.integers(5))]
    cut = [None, "cutNone", "cutRes", "!cutRes"][int(rng.integers(4))]
    if cut == "!cutRes" and st in ("C", ["C"]):
        st = "B"
    dlo, dhi = float(rng.integers(30, 60)), float(rng.integers(30, 60))
    default = float(rng.choice([.5, 2.]))
    setdef = bool(rng.random() < .4)
    if setdef:
        data.setDefaultBinsize(default)
    binsize = None if rng.random() < .5 else float(rng.choice([.5, 1., 1.5]))
    width = binsize or (default if setdef else 1.)
    pe = cal_peak(mass, line)
    edges = np.arange(pe - dlo, pe + dhi, width)
    given = rng.random() < .4
    if given:
        edges = np.arange(pe - 40, pe + 45, float(rng.choice([.7, 1.3])))
    ctx.case.update(line=line, states=st, cut=cut, dlo=dlo, dhi=dhi, binsize=binsize, given=given, default=default if setdef else None)
    group = bool(rng.random() < .5)
    who = data if group else data[int(rng.choice(list(data.keys())))]

    def want(ch, edges, st=st, cut=cut):
        k = t["kind"][ch]
        m = np.ones(len(k), bool)
        if st is not None:
            lab = np.where(k == 1, "C", "B")
            m &= np.isin(lab, [st] if isinstance(st, str) else st)
        good = k != 2
        m &= good if cut in (None, "cutRes") else (~good if cut == "!cutRes" else True)
        return np.histogram(E[ch][m], edges)[0]
    chs = list(data.keys()) if group else [who.channum]
    counts = sum(want(c, edges) for c in chs)
    ctx.need(counts.sum() > 200)
    if cut == "!cutRes" and group:
        ctx.need(False)
    r = who.linefit(line, attr=attr, states=st, dlo=dlo, dhi=dhi, binsize=binsize, binEdges=edges if given else None, cutRecipeName=cut, plot=False, minimum_bins_per_fwhm=.1)
    ctx.same(np.asarray(r.data), counts, "spectra:fitted counts")
    ctx.close(r.userkws["bin_centers"], .5 * (edges[1:] + edges[:-1]), "spectra:fitted bins", rtol=0, atol=1e-9)
    ctx.check(r.params["dph_de"].value == 1 and not r.params["dph_de"].vary, "spectra:scale", "the energy scale of a fit in energies is free")
    x, y = who.hist(edges, attr, states=st, cutRecipeName=cut)
    ctx.same(y, counts, "spectra:hist")
    ctx.count("fits", 1)
    r.plotm()
    ax = plt.gcf().axes[0]
    ctx.check("(eV)" in ax.get_xlabel() and attr in ax.get_xlabel(), "spectra:label", f"{ax.get_xlabel()!r} for {attr} in eV")
    plt.close("all")
    # plots
    if rng.random() < .7:
        fig, ax = plt.subplots()
        s2 = st if st is not None else None
        ls = ["B", "C"] if st is None else ([st] if isinstance(st, str) else st)
        co = bool(rng.random() < .5)
        who.plotHist(edges, attr, axis=ax, states=(ls if s2 is not None else None), cutRecipeName=cut, coAddStates=co, labelLines=[line] if rng.random() < .3 else [])
        shown = [l for l in ax.lines if len(l.get_xdata()) == len(edges) - 1]
        labels = list(data.stateLabels) if st is None else ls
        if co:
            ref = [sum(want(c, edges, st=labels) for c in chs)]
        else:
            ref = [sum(want(c, edges, st=q) for c in chs) for q in labels]
        ctx.check(len(shown) == len(ref), "spectra:curves", f"{len(shown)} curves for {labels}")
        for l, w in zip(shown, ref):
            ctx.same(np.asarray(l.get_ydata()), w, "spectra:plotted counts")
            ctx.close(np.asarray(l.get_xdata()), .5 * (edges[1:] + edges[:-1]), "spectra:plotted bins", rtol=0, atol=1e-9)
        plt.close("all")
        fig, ax = plt.subplots()
        bad = None
        if nchan > 1 and rng.random() < .5:
            bad = chs[0] if group else list(data.keys())[0]
            data[bad].markBad("test")
        data.plotHists(edges, attr, axis=ax, states=labels, cutRecipeName=cut, maxChans=2)
        chosen = [c for c in data.keys()][:2]
        ctx.check([l.get_label() for l in ax.lines] == [str(c) for c in chosen], "spectra:channels", f"{[l.get_label() for l in ax.lines]}, good are {list(data.keys())}")
        for l, c in zip(ax.lines, chosen):
            ctx.same(np.asarray(l.get_ydata()), want(c, edges, st=labels), "spectra:channel counts")
        plt.close("all")
    ctx.check(ctx.raises(lambda: who.linefit(line, attr="filtValue", plot=False), Exception) is not None, "spectra:bins needed", "a fit in arbitrary units without bins is accepted")
    ctx.nontrivial("spectra", group, str(st), cut, given, setdef)


@monitor(40, 400)
def plots(ctx):
    """Plots of one quantity against another show the pulses of each state that pass the cut (and, if asked for, those that do not), on the axis given."""
    import mass
    import pylab as plt
    rng = ctx.rng
    t = build(ctx, ["MnKAlpha"], int(rng.integers(1, 3)), 120, 4.)
    data = opened(ctx, t)
    ch = int(rng.choice(list(data.keys())))
    ds, r, kind = data[ch], t["recs"][ch], t["kind"][ch]
    st = [None, "B", "C", ["B", "C"], ["C", "B"]][int(rng.integers(5))]
    cut = [None, "cutRes", "cutNone"][int(rng.integers(3))]
    names = ["filtValue", "residualStdDev", "pretriggerMean", "pretriggerDelta"]
    a, b, c = [str(s) for s in rng.permutation(names)[:3]]
    bad = bool(rng.random() < .5)
    ctx.case.update(states=st, cut=cut, names=(a, b, c), bad=bad)
    val = {q: np.asarray(ds.getAttr(q, slice(None), "cutNone")) for q in (a, b, c)}
    for q in (a, b, c):
        if q in r.dtype.names:
            ctx.same(val[q], r[q], "plots:stored values")
    state = np.where(kind == 1, "C", "B")
    labels = ["START", "B", "C"] if st is None else ([st] if isinstance(st, str) else st)
    good = (kind != 2) if cut != "cutNone" else np.ones(len(kind), bool)

    def expect(ynames, prefixed):
        out = []
        for y in ynames:
            for s in labels:
                m = state == s
                out.append(((y if prefixed else "") + s, val[a][m & good], val[y][m & good]))
                if bad:
                    out.append(((y if prefixed else "") + s + " bad", val[a][m & ~good], val[y][m & ~good]))
        return out

    def compare(ax, want, mech):
        ctx.check([ln.get_label() for ln in ax.lines] == [w[0] for w in want], mech + ":curves", f"{[ln.get_label() for ln in ax.lines]} for {[w[0] for w in want]}")
        for ln, w in zip(ax.lines, want):
            ctx.same(np.asarray(ln.get_xdata()), w[1], mech + ":x")
            ctx.same(np.asarray(ln.get_ydata()), w[2], mech + ":y")
            ctx.count("points", len(w[1]))
    ok = list(data.stateLabels)
    if st is None:
        labels = ok
    many = bool(rng.random() < .5)
    for use_given in (True, False):
        plt.close("all")
        fig, (ax, other) = plt.subplots(2)
        plt.sca(other)
        got = ds.plotAvsB(a, [b, c] if many else b, axis=ax if use_given else None, states=st, includeBad=bad, cutRecipeName=cut)
        ctx.check((got is ax) == use_given and not other.lines and not other.get_xlabel() and other.get_legend() is None and not other.get_title(), "plots:axis", "drawn or labelled elsewhere")
        compare(got, expect([b, c] if many else [b], many), "plots:A vs B")
        ctx.check(got.get_xlabel() == a and b in got.get_ylabel() and ds.shortName in got.get_title() and got.get_legend() is not None, "plots:labels", f"{got.get_xlabel()!r} {got.get_ylabel()!r} {got.get_title()!r}")
        # two-dimensional histogram
        ea = np.linspace(val[a].min(), val[a].max(), int(rng.integers(4, 12)))
        eb = np.linspace(val[b].min(), val[b].max(), int(rng.integers(4, 12)))
        plt.close("all")
        fig, (ax, other) = plt.subplots(2)
        plt.sca(other)
        got = ds.plotAvsB2d(a, b, [ea, eb], axis=ax if use_given else None, states=st, cutRecipeName=cut)
        ctx.check((got is ax) == use_given and not other.collections and not other.get_xlabel(), "plots:axis 2d", "drawn or labelled elsewhere")
        ctx.check(got.get_xlabel() == a and got.get_ylabel() == b and len(got.collections) > 0, "plots:labels 2d", f"{got.get_xlabel()!r} {got.get_ylabel()!r}")
    # drift correction
    pm = np.asarray(ds.getAttr("pretriggerMean", slice(None), "cutNone"))
    d = ds.learnDriftCorrection(states=st, cutRecipeName=cut)
    dc = np.asarray(ds.getAttr("filtValueDC", slice(None), "cutNone"))
    ctx.close(dc, d(pm, r["filtValue"]), "plots:drift corrected", rtol=1e-9, atol=0)
    plt.close("all")
    fig, (ax, other) = plt.subplots(2)
    plt.sca(other)
    got = ds.plotCompareDriftCorrect(axis=ax, states=st, cutRecipeName=cut, includeBad=bad)
    want = []
    for s in labels:
        m = state == s
        want += [(s, pm[m & good], r["filtValue"][m & good]), (s + " DC", pm[m & good], dc[m & good])]
        if bad:
            want += [(s + " bad", pm[m & ~good], r["filtValue"][m & ~good]), (s + " bad DC", pm[m & ~good], dc[m & ~good])]
    compare(ax, want, "plots:drift")
    ctx.check(got is ax and not other.lines and other.get_legend() is None and not other.get_xlabel() and ax.get_xlabel() == "pretriggerMean", "plots:axis drift", "labelled elsewhere")
    # histograms, with the names of lines
    plt.close("all")
    fig, (ax, other) = plt.subplots(2)
    other.set_yscale("log")
    other.set_ylim(1e-9, 1e9)
    plt.sca(other)
    edges = np.linspace(val[a].min(), val[a].max(), 30)
    known = [str(q) for q in rng.choice(LINES, int(rng.integers(0, 4)), replace=False)]
    (ds if rng.random() < .5 else data).plotHist(edges, a, axis=ax, states=st, cutRecipeName=cut, labelLines=known)
    leg = ax.get_legend()
    ctx.check(leg is not None and other.get_legend() is None and [x.get_text() for x in leg.get_texts()] == [", ".join(labels)], "plots:legend", f"{leg and [x.get_text() for x in leg.get_texts()]} for {labels}")
    texts = [x for x in ax.texts]
    ctx.check([x.get_text() for x in texts] == known and not other.texts, "plots:line names", f"{[x.get_text() for x in texts]}")
    top = ax.get_ylim()[1]
    for x, q in zip(texts, known):
        ctx.check(abs(x.xy[0] - mass.STANDARD_FEATURES[q]) < 1e-6 and 0 < x.xy[1] <= top, "plots:line places", f"{q} at {x.xy}, axis to {top}")
    plt.close("all")
    # several lines in two colors, by either package
    fig, (ax, other) = plt.subplots(2)
    logy = bool(rng.random() < .5)
    ax.set_yscale("log" if logy else "linear")
    ax.set_ylim(.5, float(10**rng.uniform(1, 5)))
    plt.sca(other)
    q = [str(k) for k in rng.permutation(LINES)]
    n1 = int(rng.integers(0, 4))
    f = mass.off.util.annotate_lines if rng.random() < .5 else mass.core.utilities.annotate_lines
    f(ax, q[:n1], q[n1:5])
    ctx.check([x.get_text() for x in ax.texts] == q[:5] and not other.texts, "plots:two colors", f"{[x.get_text() for x in ax.texts]}")
    ys = [x.xy[1] for x in ax.texts]
    ctx.check(all(.5 < y < ax.get_ylim()[1] for y in ys) and len(set(np.round(ys, 9))) == 5 and all(x.get_color() == ("k" if i < n1 else "r") for i, x in enumerate(ax.texts)), "plots:two heights", f"{ys} of {ax.get_ylim()}")
    plt.close("all")
    ctx.nontrivial("plots", str(st), cut, bad, many)


def counts_of(ax):
    """Heights of the bars of a histogram and their edges."""
    b = [p for p in ax.patches if hasattr(p, "get_height")]
    return np.array([p.get_height() for p in b]), np.array([p.get_x() for p in b] + [b[-1].get_x() + b[-1].get_width()])


@monitor(12, 120)
def reports(ctx):
    """Reports over channels draw and store the results of their fits; plans can be learned from the peaks themselves."""
    import h5py
    import os
    import matplotlib.pyplot as plt
    import mass
    rng = ctx.rng
    names = [str(s) for s in rng.permutation(LINES)[:int(rng.integers(2, 5))]]
    fwhm = float(rng.uniform(3, 6))
    nchan = int(rng.integers(1, 4))
    t = build(ctx, names, nchan, int(rng.integers(500, 1000)), fwhm)
    data = opened(ctx, t)
    learn = rng.random() < .5
    ctx.case.update(lines=names, fwhm=fwhm, gains={c: (g.g, g.p) for c, g in t["gain"].items()}, learn=learn)
    for ch, ds in data.items():
        g = t["gain"][ch]
        if learn:
            ds.learnCalibrationPlanFromEnergiesAndPeaks("filtValue", ["B"], float(g(6000.) - g(5985.)), names, .1)
            p = ds.calibrationPlan
            want = sorted(names, key=lambda q: cal_peak(mass, q))
            ctx.check([str(n) for n in p.names] == [mass.spectra[q].shortname for q in want] and all(s == ["B"] for s in p.states), "reports:learned plan", f"{p.names} {p.states}")
            true = np.array([float(g(cal_peak(mass, q))) for q in want])
            peaks = mass.algorithms.find_local_maxima(np.asarray(ds.getAttr("filtValue", ["B"])), float(g(6000.) - g(5985.)))[0]
            ctx.close(p.uncalibratedVals, mass.algorithms.find_opt_assignment(peaks, names, maxacc=.1)[2], "reports:learned peaks", rtol=1e-12)
            right = np.all(np.abs(p.uncalibratedVals - true) < .004 * true)
            ctx.count("learned_right", int(right))
        if not learn or not right:   # (the assignment ignores how high the peaks are: it may choose a maximum in a wing)
            ds.calibrationPlanInit("filtValue")
            for q in names:
                ds.calibrationPlanAddPoint(float(g(cal_peak(mass, q) + rng.uniform(-5, 5))), q, states="B")
    data.calibrateFollowingPlan("filtValue", n_iter=int(rng.integers(1, 3)), binsize=.5, overwriteRecipe=True, _rethrow=True)
    data.setDefaultBinsize(.5)
    # one channel's calibration
    ch = int(rng.choice(list(data.keys())))
    ds = data[ch]
    edges = np.arange(0, float(t["gain"][ch](9500.)), 8.)
    plt.close("all")
    ds.diagnoseCalibration("energy", filtValuePlotBinEdges=edges, **({} if rng.random() < .5 else dict(fig=7)))
    axes = plt.gcf().axes
    cal = ds.recipes["energy"].f
    if ctx.check(len(axes) == len(names) + 2, "reports:diagnosis", f"{len(axes)} axes for {len(names)} lines"):
        for ax, r in zip(axes, cal.results):
            ctx.check(any(len(li.get_ydata()) == len(r.data) and np.array_equal(np.asarray(li.get_ydata()), r.data) for li in ax.lines), "reports:diagnosis fits", "a fit's counts are not drawn")
            ctx.check(ax.get_title() == r.model.spect.shortname, "reports:diagnosis title", f"{ax.get_title()}")
        fv = np.asarray(t["recs"][ch]["filtValue"])
        good = t["kind"][ch] != 2
        want = {s: np.histogram(fv[good & sel], edges)[0] for s, sel in (("B", t["kind"][ch] != 1), ("C", t["kind"][ch] == 1))}
        lines = {li.get_label(): np.asarray(li.get_ydata()) for li in axes[-1].lines}
        ctx.count("spectra_drawn", len(lines))
        for s, w in want.items():
            ctx.check(s in lines and np.array_equal(lines[s], w), "reports:diagnosis spectrum", f"state {s}: {lines.keys()}")
        seg = [c.get_segments() for c in axes[-1].collections]
        x = sorted(float(s[0][0]) for c in seg for s in c)
        ctx.close(x, sorted(ds.calibrationPlan.uncalibratedVals), "reports:diagnosis plan", rtol=1e-12)
    # all channels
    line = str(rng.choice(names))
    sel = dict(states=[None, "B", ["B"]][int(rng.integers(1, 3))], binsize=.5)
    bad = None
    if nchan > 1 and rng.random() < .6:
        bad = int(rng.choice(list(data.keys())))
        data[bad].markBad("chosen")
    plt.close("all")
    p = os.path.join(ctx.tmp, "fits.hdf5")
    tight = rng.random() < .3
    kw = dict(worstAllowedFWHM=.1) if tight else {}
    with h5py.File(p, "w") as f:
        results = data.qualityCheckLinefit(line, hdf5Group=f, resolutionPlot=True, **kw, **sel)
    ctx.check(set(results) == set(t["gain"]) - {bad}, "reports:results", f"{list(results)}")
    fw = np.array([r.params["fwhm"].value for r in results.values()])
    n, e = counts_of(plt.gca())
    ctx.check(len(n) and np.array_equal(n, np.histogram(fw, e)[0]) and n.sum() == len(fw) and np.allclose(np.diff(e), .25), "reports:resolutions", f"{n} {e}, resolutions {fw}")
    with h5py.File(p, "r") as f:
        ctx.check(sorted(f) == sorted(str(c) for c in t["gain"]), "reports:stored channels", f"{list(f)}")
        for c in t["gain"]:
            grp = f[f"{c}/fits/{line}"]
            reason = {bad: "chosen"}.get(c, "worst" if tight else None)
            if reason:
                why = grp["markedBadReason"][()].decode() if "markedBadReason" in grp else None
                ctx.check(why is not None and (why == "chosen" if c == bad else "resolution" in why) and len(grp) == 1, "reports:stored reason", f"{why} {list(grp)}")
                continue
            r = results[c]
            ctx.check(grp["states"][()].decode() == str(sel["states"]), "reports:stored states", f"{grp['states'][()]}")
            for k, v in r.params.items():
                ctx.check(grp[k][()] == v.value and (grp[k + "_err"][()] == v.stderr or np.isnan(grp[k + "_err"][()])), "reports:stored fit", f"{k}")
                ctx.count("stored_parameters")
    if tight:
        ctx.check(set(data.whyChanBad) == set(t["gain"]), "reports:marked", f"{data.whyChanBad}")
        for c, d in t["gain"].items():
            if c != bad:
                with data.includeBad():
                    data[c].markGood()
    plt.close("all")
    data.resultPlot(line, **sel)
    axes = plt.gcf().axes
    if ctx.check(len(axes) == 4, "reports:result axes", f"{len(axes)}"):
        by = {ax.get_xlabel(): ax for ax in axes}
        pos = np.array([r.params["peak_ph"].value for r in results.values()])
        err = np.array([r.params["peak_ph"].stderr for r in results.values()])
        E = cal_peak(mass, line)
        for lab, v, at in (("resolution (eV fwhm)", fw, np.median(fw)), ("fit position (eV)", pos, E)):
            if not ctx.check(lab in by, "reports:result panel", f"{list(by)}"):
                continue
            n, e = counts_of(by[lab])
            ctx.check(abs(n.sum() - len(v)) < .5 and abs(e[0] - v.min()) <= .6 + 1e-3 and abs(e[-1] - v.max()) <= .6 + 1e-3, "reports:result histogram", f"{lab}: {n} {e}, values {v}")
            x = [float(s[0][0]) for c in by[lab].collections for s in c.get_segments()]
            ctx.close(x, [at], "reports:result mark", rtol=1e-6)
            txt = " ".join(a.get_text() for a in by[lab].texts)
            ctx.check(f"median = {np.median(v):.2f}" in txt and (at != E or f"{E:.3f}" in txt), "reports:result text", txt)
        ax = by.get("channel number")
        if ctx.check(ax is not None, "reports:result panel", f"{list(by)}"):
            y = [np.asarray(li.get_ydata()) for li in ax.lines if len(li.get_ydata()) == len(pos)]
            ctx.check(len(y) and np.allclose(y[0], pos, rtol=0, atol=1e-3), "reports:positions", f"{y}, {pos}")
            segs = [np.asarray(s) for c in ax.collections for s in c.get_segments() if len(s) == 2 and s[0][0] == s[1][0]]
            ctx.check(len(segs) == len(pos) and np.allclose(sorted(abs(s[1][1] - s[0][1]) / 2 for s in segs), sorted(err), rtol=.05, atol=1e-6), "reports:position errors", f"{segs} {err}")
        tot = sum(np.sum(r.data) for r in results.values())
        drawn = [np.sum(li.get_ydata()) for li in by["energy (eV)"].lines]
        ctx.check(any(d == tot for d in drawn), "reports:result fit", f"{drawn}, all channels have {tot}")
    plt.close("all")
    ctx.nontrivial("reports", nchan, len(names), learn, bad is None, tight)
