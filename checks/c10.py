"""C10: stored analysis results are reproducible, reusable and survive reopening."""
import os

import numpy as np
from scipy.optimize._optimize import BracketError

from vlib import group
from vlib.snap import compare_all, snap
from vlib.core import monitor

BUILD = "fast"
RULE = ("A case writes 1-3 channels of LJH pulse and noise files (pulses of 3 sizes, gain drift, occasional pile-up and noise bursts), then runs a random but fixed analysis plan (noise, summaries, cuts, average pulse, 5-lag or "
        "arrival-time-safe filter, filtering, drift, phase and time correction, calibration, marking bad) straight through, and again with the group closed and reopened at random points, with unforced and forced repetitions, in a "
        "fresh directory, or with other channels opened or in another order. Every stored array, cut bit, filter, curve and status must be bit-identical. Non-trivial = a compared quantity with computed (nonzero) content.")
ASSUMPTIONS = ["an identical sequence of steps in one process and numpy build is deterministic (measured: it is)",
               "the steps themselves are judged by C05-C09 and C12-C19; here only reproducibility"]

def plan(rng, ncal=True):
    """A list of (name, kwargs): a legal analysis of one channel."""
    steps = []
    if rng.random() < 0.8:
        steps.append(("compute_noise", {}))
    else:
        steps.append(("assume_white_noise", dict(noise_variance=float(rng.choice([1., 16.])))))
    sk = {}
    if rng.random() < 0.4:
        sk = dict(pretrigger_ignore_microsec=float(rng.choice([20, 55, 80])))
    if rng.random() < 0.3:
        sk["peak_time_microsec"] = float(rng.choice([60, 120]))
    if rng.random() < 0.3:
        sk.update(cut_pre=int(rng.integers(0, 6)), cut_post=int(rng.integers(0, 8)))
    if rng.random() < 0.2:
        sk["use_cython"] = False
    steps.append(("summarize_data", sk))
    if rng.random() < 0.3:
        steps.insert(0, steps.pop())
    c = rng.random()
    if c < 0.5:
        steps.append(("auto_cuts", dict(nsigma_pt_rms=float(rng.choice([5., 8., 20.])))))
    elif c < 0.7:
        steps.append(("smart_cuts", dict(n_trainings=int(rng.choice([60, 10000])))))
    elif c < 0.9:
        steps.append(("categorical", {}))
    if rng.random() < 0.4:
        steps.append(("mycut", {}))
    steps.append(("avg_pulses_auto_masks", dict(max_pulses_to_use=int(rng.choice([10, 7000])))))
    fk = dict(cut_pre=int(rng.integers(0, 5)), cut_post=int(rng.integers(0, 5))) if rng.random() < 0.5 else {}
    if rng.random() < 0.3:
        fk["f_3db"] = 20000.
    elif rng.random() < 0.3:
        fk["fmax"] = 30000.
    if rng.random() < 0.5:
        steps.append(("compute_5lag_filter", fk))
    else:
        if rng.random() < 0.5:
            fk["shift1"] = False
        fk["optimize_dp_dt"] = bool(rng.random() < 0.2)
        steps.append(("compute_ats_filter", fk))
    steps.append(("filter_data", {}))
    if rng.random() < 0.8:
        steps.append(("drift_correct", {}))
        if rng.random() < 0.5:
            steps.append(("phase_correct", dict(ph_peaks=None)))
        if rng.random() < 0.3:
            steps.append(("time_drift_correct", dict(attr="p_filt_value_dc", pulses_per_degree=int(rng.choice([40, 2000])))))
    if rng.random() < 0.7:
        steps.append(("setcal", dict(attr="p_filt_value", kind=str(rng.choice(["linear", "loglog", "gain", "invgain", "loggain"])), approx=bool(rng.integers(0, 2)), dup=bool(rng.random() < 0.3))))
    if rng.random() < 0.2:
        steps.append(("flux", dict(quant=4096.)))
    if rng.random() < 0.3:
        steps.append(("bad", dict(why=["noisy", "näh"][int(rng.integers(0, 2))])))
    return steps


def do(mass, g, ds, name, kw, force=None):
    kw = dict(kw)
    if name in ("mycut",):
        ds.cuts.cut("smart_cuts", np.asarray(ds.p_timestamp[:] * 1e6).astype(np.int64) % 7 == 3)
        return
    if name == "categorical":
        try:
            g.register_categorical_cut_field("kind", ["a", "b"])
        except ValueError:
            pass
        ds.cuts.cut_categorical("kind", {"a": np.arange(ds.nPulses) % 3 == 0, "b": np.arange(ds.nPulses) % 6 == 1})
        return
    if name == "flux":
        ds.correct_flux_jumps(kw["quant"])
        return
    if name == "bad":
        g.set_chan_bad(ds.channum, kw["why"])
        return
    if name == "setcal":
        cal = mass.EnergyCalibration(curvetype=kw["kind"])
        cal.set_use_approximation(kw["approx"])
        for ph, e in ((3000 + ds.channum, 4000.), (5000., 6500.25), (6500., 8100.5)):
            cal.add_cal_point(ph, e, name=f"L{e:.0f}", pht_error=0.3, e_error=0.05)
        ds.calibration[kw["attr"]] = cal
        cal.save_to_hdf5(ds.hdf5_group.require_group("calibration"), kw["attr"])
        if kw["dup"]:   # again, over itself
            cal.save_to_hdf5(ds.hdf5_group["calibration"], kw["attr"])
        ds.convert_to_energy(kw["attr"])
        return
    if force is not None and name not in ("clear_cuts",):
        kw["forceNew"] = force
    if name == "phase_correct":
        v = ds.p_filt_value_dc[:][ds.good()]
        top = np.median(v[v > 0.85 * v.max()])
        low = v[v < 0.7 * v.max()]
        kw["ph_peaks"] = [top, np.median(low)] if len(low) > 20 else [top]
    try:
        r = getattr(ds, name)(**kw)
    except (BracketError, IndexError):  # the entropy minimisation may fail on poor data: then it must do so every time
        if name not in ("phase_correct", "time_drift_correct", "compute_ats_filter"):
            raise
        ds._failed = getattr(ds, "_failed", 0) + 1
        return
    if hasattr(r, "__next__"):
        list(r)


def workload(ctx, nch=None, n=None):
    rng = ctx.rng
    nch = nch or int(rng.integers(1, 4))
    chans = sorted(int(x) for x in rng.choice([1, 2, 3, 7, 12, 30], nch, replace=False))
    n = n or int(rng.integers(90, 240))
    ns = int(rng.choice([60, 100]))
    f = group.make_files(ctx, chans, n={c: n + 10 * i for i, c in enumerate(chans)}, nnoise=30, ns=ns, npre=20, drift=float(rng.choice([0, 20., 60.])), noise=6.0)
    return chans, f


def run(ctx, mass, f, pl, chans, hdf5, reopen=(), repeat=0.0, force_repeat=0.0, never=None):
    """Do the plan, channel by channel in each step, closing and reopening before the steps in `reopen`."""
    g = group.open_group(f, hdf5)
    nreopen = 0
    for i, (name, kw) in enumerate(pl):
        if i in reopen:
            group.close_group(g)
            g = group.open_group(f, hdf5)
            nreopen += 1
        for ds in g.iter_channels(include_badchan=True):
            do(mass, g, ds, name, kw)
    ctx.count("close/reopen in mid analysis", nreopen)
    return g


def shots(g):
    return {ds.channum: snap(g, ds) for ds in g.iter_channels(include_badchan=True)}


@monitor(30, 220)
def reopen(ctx):
    """Closing and reopening reproduces everything; a straight run and one reopened at any steps agree."""
    import mass
    chans, f = workload(ctx)
    pl = plan(ctx.rng)
    ctx.case["plan"] = [f"{a} {k}" for a, k in pl]
    h = os.path.join(ctx.tmp, "a.hdf5")
    g = run(ctx, mass, f, pl, chans, h)
    a = shots(g)
    group.close_group(g)
    g = group.open_group(f, h)
    compare_all(ctx, a, shots(g), "reopen", "after closing and reopening")
    group.close_group(g)
    # also by RestoreTESGroup
    from mass.core.channel_group import RestoreTESGroup
    g = RestoreTESGroup(h, h.replace(".hdf5", "_noise.hdf5"))
    compare_all(ctx, a, shots(g), "restore", "after RestoreTESGroup")
    group.close_group(g)
    k = ctx.rng.random(len(pl)) < ctx.rng.choice([0.3, 1.0])
    k[0] = False
    g = run(ctx, mass, f, pl, chans, os.path.join(ctx.tmp, "b.hdf5"), reopen=set(np.flatnonzero(k)))
    compare_all(ctx, a, shots(g), "interrupted", f"analysis reopened before steps {[pl[i][0] for i in np.flatnonzero(k)]}")
    group.close_group(g)


@monitor(24, 160)
def repeat(ctx):
    """Unforced repetition changes nothing (also of results marked by hand); forced repetition and a fresh analysis reproduce."""
    import mass
    rng = ctx.rng
    chans, f = workload(ctx)
    pl = plan(rng)
    ctx.case["plan"] = [f"{a} {k}" for a, k in pl]
    h = os.path.join(ctx.tmp, "a.hdf5")
    g = run(ctx, mass, f, pl, chans, h)
    a = shots(g)
    reop = rng.random() < 0.5
    if reop:
        group.close_group(g)
        g = group.open_group(f, h)
    unforceable = {"bad", "flux", "mycut", "setcal", "categorical"}
    order = [i for i in range(len(pl)) if pl[i][0] not in unforceable]
    if rng.random() < 0.5:
        rng.shuffle(order)
    for i in order:
        for ds in g.iter_channels(include_badchan=True):
            do(mass, g, ds, pl[i][0], pl[i][1], force=False if rng.random() < 0.5 or pl[i][0] == "apply_cuts" else None)
        ctx.count("unforced repetitions")
    compare_all(ctx, a, shots(g), "unforced", f"unforced repetition of {[pl[i][0] for i in order]} {'after reopening' if reop else ''}")
    # results marked by hand must survive an unforced repetition: nothing is recomputed
    marks = dict(summarize_data=("p_pulse_rms", "p_peak_value"), filter_data=("p_filt_phase", "p_filt_value"), compute_noise=("noise_autocorr", "noise_psd"), avg_pulses_auto_masks=("average_pulse",),
                 drift_correct=("p_filt_value_dc",), phase_correct=("p_filt_value_phc",), time_drift_correct=("p_filt_value_tdc",))
    for name, kw in pl:
        for m in marks.get(name, ()):
            for ds in g.iter_channels(include_badchan=True):
                v = getattr(ds, m)
                old = v[5]
                v[5] = old + 17
                do(mass, g, ds, name, kw, force=False)
                ctx.check(v[5] == np.asarray(old + 17).astype(v.dtype), "recomputed " + name, f"unforced {name} recomputed {m}")
                v[5] = old
    compare_all(ctx, a, shots(g), "marked", "after unforced repetitions with marked values")
    # forced: redo the whole plan with forceNew
    if "flux" not in [x[0] for x in pl]:
        for name, kw in pl:
            if name in ("mycut", "bad"):
                continue
            for ds in g.iter_channels(include_badchan=True):
                if name in ("auto_cuts",):
                    do(mass, g, ds, name, kw, force=True)
                    if any(x[0] == "mycut" for x in pl):
                        do(mass, g, ds, "mycut", {})
                elif name == "smart_cuts":
                    do(mass, g, ds, name, kw, force=True)
                    if any(x[0] == "mycut" for x in pl):
                        do(mass, g, ds, "mycut", {})
                else:
                    do(mass, g, ds, name, kw, force=True)
            ctx.count("forced repetitions")
        compare_all(ctx, a, shots(g), "forced", "forced repetition of the whole analysis")
    group.close_group(g)
    g = run(ctx, mass, f, pl, chans, os.path.join(ctx.tmp, "fresh.hdf5"))
    compare_all(ctx, a, shots(g), "fresh", "fresh analysis")
    group.close_group(g)


@monitor(20, 150)
def companions(ctx):
    """A channel's results do not depend on which other channels are open, their order or their failures."""
    import mass
    rng = ctx.rng
    chans, f = workload(ctx, nch=int(rng.integers(2, 5)), n=int(rng.integers(90, 160)))
    pl = [x for x in plan(rng) if x[0] != "bad"]
    ctx.case["plan"] = [f"{a} {k}" for a, k in pl]
    g = run(ctx, mass, f, pl, chans, os.path.join(ctx.tmp, "a.hdf5"))
    a = shots(g)
    group.close_group(g)
    for k in range(2):
        sub = [int(c) for c in rng.choice(chans, int(rng.integers(1, len(chans) + 1)), replace=False)]
        f2 = dict(f, pulse=[f["pulse"][chans.index(c)] for c in sub], noise=[f["noise"][chans.index(c)] for c in sub])
        rng.shuffle(f2["noise"])
        mode = rng.integers(0, 2)
        g = group.open_group(f2, os.path.join(ctx.tmp, f"s{k}.hdf5"))
        # group-wise or channel-wise ordering of the work
        if mode == 0:
            for ds in g.iter_channels(include_badchan=True):
                for name, kw in pl:
                    do(mass, g, ds, name, kw)
        else:
            for name, kw in pl:
                dss = list(g.iter_channels(include_badchan=True))
                for ds in dss[::-1]:
                    do(mass, g, ds, name, kw)
        b = shots(g)
        group.close_group(g)
        ctx.check(set(b) == set(sub), "subset channels", f"opened {sub}, got {sorted(b)}")
        compare_all(ctx, {c: a[c] for c in sub}, b, "subset", f"channels {sub} opened of {chans}")
        ctx.count("subsets and orders")
    # adding channels to an existing file later
    sub = chans[:1]
    f2 = dict(f, pulse=f["pulse"][:1], noise=f["noise"][:1])
    h = os.path.join(ctx.tmp, "grow.hdf5")
    g = run(ctx, mass, f2, pl, sub, h)
    group.close_group(g)
    g = run(ctx, mass, f, pl, chans, h)
    compare_all(ctx, a, shots(g), "grown", f"file analysed with {sub} then with all of {chans}")
    group.close_group(g)


@monitor(16, 90)
def noise_only(ctx):
    """Noise-only analyses survive reopening, including the channel status."""
    import mass
    rng = ctx.rng
    chans, f = workload(ctx, nch=int(rng.integers(1, 4)), n=20)
    h = os.path.join(ctx.tmp, "n.hdf5")

    def op():
        return mass.TESGroup(list(f["noise"]), noise_only=True, hdf5_noisefilename=h, noise_is_continuous=bool(cont))

    def sn(g):
        out = {}
        for ds in g.iter_channels(include_badchan=True):
            out[ds.channum] = dict(ac=np.array(ds.noise_autocorr[:]), psd=np.array(ds.noise_psd[:]), df=np.array([ds.noise_psd.attrs.get("delta_f", -1)]),
                                   status=np.array([str(ds.channum in g.good_channels), str(g.why_chan_bad.get(ds.channum))]))
        return out
    cont = rng.random() < 0.5
    g = op()
    g.compute_noise()
    if rng.random() < 0.7:
        g.set_chan_bad(chans[-1], "because", "of noise")
    a = sn(g)
    g.hdf5_noisefile.close()
    g = op()
    compare_all(ctx, a, sn(g), "noise reopen", "reopened noise-only group")
    g.compute_noise()
    compare_all(ctx, a, sn(g), "noise unforced", "unforced noise")
    g.compute_noise(forceNew=True)
    compare_all(ctx, a, sn(g), "noise forced", "forced noise")
    g.hdf5_noisefile.close()


@monitor(24, 160)
def redo(ctx):
    """Analysing again with other choices leaves exactly what those choices give in a fresh file: nothing of the first remains."""
    import mass
    rng = ctx.rng
    chans, f = workload(ctx)
    first = [x for x in plan(rng) if x[0] not in ("bad", "flux", "mycut", "categorical", "smart_cuts")]
    if not any(x[0] == "auto_cuts" for x in first):
        i = [x[0] for x in first].index("avg_pulses_auto_masks")
        first.insert(i, ("auto_cuts", dict(nsigma_pt_rms=8.)))
    second = []
    for name, kw in first:
        kw = dict(kw)
        if name == "auto_cuts":
            kw = dict(nsigma_pt_rms=float(rng.choice([4., 6., 30.])))
        elif name == "summarize_data":
            kw.pop("pretrigger_ignore_microsec", None)
            kw["pretrigger_ignore_microsec"] = float(rng.choice([20, 55, 80]))
        elif name == "avg_pulses_auto_masks":
            kw = dict(max_pulses_to_use=int(rng.choice([5, 20, 7000])))
        elif name in ("compute_5lag_filter", "compute_ats_filter") and rng.random() < .5:
            kw = dict(cut_pre=int(rng.integers(0, 5)), cut_post=int(rng.integers(0, 5)))
            name = str(rng.choice(["compute_5lag_filter", "compute_ats_filter"]))
            kw.update([{}, dict(f_3db=20000.), dict(fmax=25000.)][int(rng.integers(3))])
        elif name == "setcal":
            kw = dict(kw, kind=str(rng.choice(["linear", "loglog", "gain", "invgain", "loggain"])), approx=bool(rng.integers(0, 2)))
        second.append((name, kw))
    ctx.case["plan"] = [f"{a} {k}" for a, k in first]
    ctx.case["again"] = [f"{a} {k}" for a, k in second]
    h = os.path.join(ctx.tmp, "a.hdf5")
    g = run(ctx, mass, f, first, chans, h)
    if rng.random() < .5:
        group.close_group(g)
        g = group.open_group(f, h)
    for name, kw in second:
        for ds in g.iter_channels(include_badchan=True):
            do(mass, g, ds, name, kw, force=True)
        ctx.count("steps redone with other choices")
    a = shots(g)
    group.close_group(g)
    g = run(ctx, mass, f, second, chans, os.path.join(ctx.tmp, "b.hdf5"))
    compare_all(ctx, shots(g), a, "redone", "after redoing the analysis with other choices, against those choices alone")
    group.close_group(g)
