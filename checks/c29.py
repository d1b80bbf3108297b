"""C29: group summaries, averages, plots and exports show exactly the selected pulses."""
import contextlib
import glob
import io
import os
import re

import numpy as np

from vlib import group as vg
from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case opens a group of LJH channels with a random history of cuts, categories, bad channels and channels with no good pulse, asks for averages, masks, rates, reports, plots or exported files, and compares every number written or drawn "
        "(read back from matplotlib's artists, standard output and files) with a brute-force selection of the records. Non-trivial = some pulses cut and some kept.")
ASSUMPTIONS = ["plots are judged by the data in their artists, not by pixels", "histogram and scatter panels show the values in the stored (single) precision"]


def opened(ctx, nmax=4, npulses=None, noise=False, cuts=True, bad=True, ns=None, invert=False, empty=False):
    rng = ctx.rng
    nchan = int(rng.integers(1, nmax + 1))
    chans = sorted(int(c) for c in rng.choice(np.arange(1, 200), nchan, replace=False))
    ns = ns or int(rng.choice([40, 64, 75]))
    n = {c: int(npulses or rng.integers(3, 70)) for c in chans}
    f = vg.make_files(ctx, chans=chans, n=n, nnoise=30 if noise else 0, ns=ns, npre=ns // 3, invert=invert)
    g = vg.open_group(f, noise=noise)
    g.summarize_data()
    keep = {}
    for ds in g:
        k = np.ones(ds.nPulses, bool)
        if cuts:
            k = rng.random(ds.nPulses) < float(rng.choice([.2, .7, .95, 1.]))
            if rng.random() < .1 and empty:
                k[:] = False
            ds.cuts.cut("pretrigger_rms" if rng.random() < .5 else "postpeak_deriv", ~k)
        keep[ds.channum] = k
    notbad = list(chans)
    if bad and nchan > 1 and rng.random() < .5:
        b = int(rng.choice(chans))
        g.set_chan_bad(b, "test")
        notbad.remove(b)
    ctx.case.update(chans=chans, n=n, good={c: int(k.sum()) for c, k in keep.items()}, notbad=notbad, ns=ns)
    if any(k.any() and not k.all() for k in keep.values()):
        ctx.nontrivial(nchan, len(notbad), ns)
    return f, g, keep, notbad


def raw(f, c, inverted=False):
    x = f["truth"][c]["data"]
    return ~x if inverted else x


@contextlib.contextmanager
def figures():
    import pylab as plt
    plt.close("all")
    try:
        yield plt
    finally:
        plt.close("all")


@monitor(60, 800)
def averages(ctx):
    """Masks select by range and cuts; averages are means of the masked records."""
    rng = ctx.rng
    inv = bool(rng.random() < .3)
    f, g, keep, notbad = opened(ctx, invert=inv)
    if inv:
        for ds in g.datasets:
            ds.invert_data = True
        g.summarize_data(forceNew=True)
    kind = str(rng.choice(["pulse_avg_range", "pulse_peak_range", "pulse_rms_range"]))
    attr = {"pulse_avg_range": "p_pulse_average", "pulse_peak_range": "p_peak_value", "pulse_rms_range": "p_pulse_rms"}[kind]
    allv = np.hstack([getattr(ds, attr)[:] for ds in g])
    lo, hi = np.sort(rng.choice(allv, 2)) if rng.random() < .5 else (float(np.min(allv)) - 1, float(np.max(allv)) + 1)
    gains = None if rng.random() < .6 else rng.uniform(.8, 1.2, len(g.datasets))
    masks = g.make_masks(**{kind: (lo, hi)}, gains=gains)
    ctx.check(len(masks) == len(g.datasets), "masks:one per channel", f"{len(masks)}")
    for i, (ds, m) in enumerate(zip(g.datasets, masks)):
        v = getattr(ds, attr)[:].astype(float) / (1 if gains is None else gains[i])
        eps = 1e-6 * (abs(hi) + abs(lo))
        sure = keep[ds.channum] & (v >= lo + eps) & (v <= hi - eps)
        never = ~keep[ds.channum] | (v < lo - eps) | (v > hi + eps)
        ctx.check(np.asarray(m)[sure].all() and not np.asarray(m)[never].any(), "masks:selection", f"channel {ds.channum}: {np.asarray(m).sum()} selected, {sure.sum()} qualify")
        ctx.count("masked_pulses", int(np.sum(m)))
    sub = bool(rng.random() < .6)
    use = [np.asarray(m).copy() for m in masks]
    for m in use:
        if not m.any():
            m[int(rng.integers(len(m)))] = True
    g.compute_average_pulse(use, subtract_mean=sub)
    npre = f["npre"]
    for ds, m in zip(g.datasets, use):
        a = np.asarray(ds.average_pulse[:], float)
        if ds.channum not in notbad:
            ctx.check(not a.any(), "average:bad channel", f"channel {ds.channum} is bad but was averaged")
            continue
        w = raw(f, ds.channum, inv)[m].astype(float).mean(axis=0)
        if sub:
            w = w - w[:npre - ds.pretrigger_ignore_samples].mean()
        ctx.close(a, w, "average:mean of records", rtol=1e-6, atol=2e-2 if sub else 1e-2)
    # another mask without forcing keeps the average; forcing replaces it
    old = {ds.channum: ds.average_pulse[:].copy() for ds in g}
    other = [np.roll(m, 1) for m in use]
    g.compute_average_pulse(other, subtract_mean=sub)
    for ds in g:
        ctx.same(ds.average_pulse[:], old[ds.channum], "average:kept")
    g.compute_average_pulse(other, subtract_mean=sub, forceNew=True)
    for ds, m in zip(g.datasets, other):
        if ds.channum in notbad:
            w = raw(f, ds.channum, inv)[m].astype(float).mean(axis=0)
            if sub:
                w = w - w[:npre - ds.pretrigger_ignore_samples].mean()
            ctx.close(ds.average_pulse[:], w, "average:forced", rtol=1e-6, atol=2e-2 if sub else 1e-2)
    ctx.check(ctx.raises(lambda: g.compute_average_pulse(use[:-1]), ValueError) is not None, "average:too few masks", "accepted")
    # the automatic selection: the first good records within 5% of the median size
    most = int(rng.choice([1, 3, 10, 7000]))
    for ds in list(g):
        v = ds.p_pulse_average[:].astype(float)
        off = np.abs(v / np.median(v[keep[ds.channum]]) - 1) if keep[ds.channum].any() else np.ones(ds.nPulses)
        use = np.nonzero(keep[ds.channum] & (off < .05))[0][:most]
        if np.any(np.abs(off - .05) < 1e-5) or not len(use):
            continue
        ds.avg_pulses_auto_masks(max_pulses_to_use=most, subtract_mean=sub, forceNew=True)
        w = raw(f, ds.channum, inv)[use].astype(float).mean(axis=0)
        if sub:
            w = w - w[:npre - ds.pretrigger_ignore_samples].mean()
        ctx.close(ds.average_pulse[:], w, "average:automatic", rtol=1e-6, atol=2e-2 if sub else 1e-2)
        ctx.count("automatic_averages")
    with figures() as plt:
        fig, (ax, other_ax) = plt.subplots(2)
        given = bool(rng.random() < .5)
        plt.sca(other_ax)
        g.plot_average_pulses(axis=ax if given else None)
        ax = ax if given else plt.gcf().axes[0]
        t = (np.arange(f["ns"]) - npre) * g.timebase * 1e3
        ctx.check([ln.get_label() for ln in ax.lines] == [f"Chan {c}" for c in notbad], "average:plot channels", f"{[ln.get_label() for ln in ax.lines]} for {notbad}")
        for ln, ds in zip(ax.lines, g):
            ctx.close(ln.get_xdata(), t, "average:plot times", rtol=1e-9, atol=1e-12)
            ctx.same(np.asarray(ln.get_ydata(), float), ds.average_pulse[:].astype(float), "average:plotted")
    # the records themselves
    for ds in g:
        x = raw(f, ds.channum, inv)
        i = int(rng.integers(ds.nPulses))
        ctx.same(np.asarray(ds.read_trace(i)), x[i], "traces:read_trace")
        ctx.same(np.asarray(g.read_trace(i, channum=ds.channum)), x[i], "traces:group")
        k = int(rng.integers(0, ds.nPulses + 2))
        d, idx = ds.first_n_good_pulses(k)
        w = np.nonzero(keep[ds.channum])[0][:k]
        ctx.same(np.asarray(idx), w, "traces:first good")
        ctx.same(np.asarray(d), x[w], "traces:first good data")
    vg.close_group(g)


@monitor(50, 600)
def traces(ctx):
    """Plotted traces are the records asked for, modified as asked for."""
    rng = ctx.rng
    f, g, keep, notbad = opened(ctx, nmax=2, bad=False)
    ds = list(g)[int(rng.integers(len(notbad)))]
    x = raw(f, ds.channum).astype(float)
    k = keep[ds.channum]
    nums = rng.choice(ds.nPulses, int(rng.integers(1, min(8, ds.nPulses + 1))), replace=False)
    if rng.random() < .2:
        nums = [int(nums[0])]
    which = [None, "valid", "cut"][int(rng.integers(3))]
    mode = str(rng.choice(["raw", "baseline", "lowpass", "residual", "shift1"]))
    if mode == "shift1":
        ds.p_shift1[:] = rng.random(ds.nPulses) < .5
    if mode == "residual":
        ds.compute_average_pulse(np.ones(ds.nPulses, bool))
        ds.p_filt_value[:] = ds.p_peak_value[:]
    kw = {"raw": {}, "baseline": dict(subtract_baseline=True), "lowpass": dict(fcut=float(rng.uniform(5e3, 6e4))), "residual": dict(residual=True), "shift1": dict(shift1=True)}[mode]
    want = [i for i in nums if which is None or k[i] == (which == "valid")]
    with figures() as plt:
        fig, (ax, other_ax) = plt.subplots(2)
        arg = int(nums[0]) if len(nums) == 1 else (list(nums) if rng.random() < .5 else np.asarray(nums))
        if mode in ("raw", "residual", "shift1") and rng.random() < .5:
            g.plot_traces(arg, channum=ds.channum, axis=ax, valid_status=which, **kw)
        else:
            ds.plot_traces(arg, axis=ax, valid_status=which, pulse_summary=bool(rng.random() < .5), **kw)
        ctx.check(len(ax.lines) == len(want) and not other_ax.lines, "traces:number", f"{len(ax.lines)} traces for {len(want)} of {which}")
        t = (np.arange(f["ns"]) - f["npre"]) * g.timebase * 1e3
        for ln, i in zip(ax.lines, want):
            w = x[i].copy()
            if mode == "baseline":
                w -= w[:f["npre"] - ds.pretrigger_ignore_samples].mean()
            elif mode == "lowpass":
                q = np.fft.rfft(w)
                fr = np.fft.rfftfreq(len(w), g.timebase)
                if np.min(np.abs(fr - kw["fcut"])) < 1e-6 * kw["fcut"]:
                    continue
                q[fr >= kw["fcut"]] = 0
                w = np.fft.irfft(q, len(w))
            elif mode == "residual":
                a = ds.average_pulse[:].astype(float)
                w -= float(ds.p_filt_value[i]) * a / a.max()
            elif mode == "shift1" and ds.p_shift1[i]:
                w = np.r_[w[0], w[:-1]]
            ctx.close(ln.get_xdata(), t, "traces:times", rtol=1e-9, atol=1e-12)
            ctx.close(np.asarray(ln.get_ydata(), float), w, "traces:" + mode, rtol=1e-6, atol=2e-2)
            ctx.check((ln.get_linestyle() == "--") == (which is None and not k[i]), "traces:cut ones dashed", f"{ln.get_linestyle()}")
            ctx.count("traces")
    vg.close_group(g)


@monitor(60, 800)
def reports(ctx):
    """Rates, counts of cut pulses, reports and exported energies count the right pulses."""
    rng = ctx.rng
    f, g, keep, notbad = opened(ctx, empty=True)
    E = {}
    for ds in g.datasets:
        ds.p_energy[:] = rng.uniform(0, 10000, ds.nPulses)
        E[ds.channum] = ds.p_energy[:].copy()
    os.chdir(ctx.tmp)
    g.save_pulse_energies_ascii(os.path.join(ctx.tmp, "out"))
    got = np.loadtxt(os.path.join(ctx.tmp, "out.energies"), ndmin=1)
    want = np.hstack([E[c][keep[c]] for c in notbad] or [[]])
    ctx.check(len(got) == len(want), "energies:number", f"{len(got)} energies for {len(want)} good pulses of good channels")
    ctx.close(got, want, "energies:values", rtol=2e-7, atol=0)
    # report: one line per channel
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        g.report()
    lines = out.getvalue().strip().split("\n")
    ctx.check(len(lines) == len(g.datasets), "report:lines", f"{lines}")
    for ln, ds in zip(lines, g.datasets):
        k = np.nonzero(keep[ds.channum])[0]
        ctx.check(int(re.match(r"chan +(\d+)", ln)[1]) == ds.channum, "report:channel", ln)
        if len(k) > 1:
            m = re.match(r"chan +\d+ +(\d+) pulses \( *([\d.]+) Hz over *([\d.]+) hr\) *([\d.]+)% good", ln)
            ctx.check(m is not None, "report:format", ln)
            ts = f["truth"][ds.channum]["usec"] / 1e6
            span = k[-1] - k[0] + 1
            dt = ts[k[-1]] - ts[k[0]]
            ctx.check(int(m[1]) == span and abs(float(m[2]) - (span - 1) / dt) < 2e-3 + 1e-4 * (span - 1) / dt and abs(float(m[3]) - dt / 3600) < 1e-4 and abs(float(m[4]) - 100 * len(k) / span) < 1e-2, "report:numbers", f"{ln}: {len(k)} good of {span} in {dt} s")
        ctx.count("report_lines")
    # cut summary
    ds = list(g)[0]
    extra = rng.random(ds.nPulses) < .3
    ds.cuts.cut("timestamp_sec", extra)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ds.cut_summary()
    names = [nm.decode() for nm, _ in g.boolean_cut_desc if nm]
    badof = {nm: np.asarray(ds.cuts.bad(nm)) for nm in names}
    txt = out.getvalue()
    for a in names:
        m = re.search(rf"^ *(\d+) pulses cut by {a.upper()}$", txt, re.M)
        ctx.check(m and int(m[1]) == badof[a].sum(), "cut_summary:one", f"{a}: {m and m[0]}, cut are {badof[a].sum()}")
        for b in names:
            if a != b:
                m = re.search(rf"^ *(\d+) \(and\) *%? *(\d+) \(or\) pulses cut by \[{a.upper()} and/or {b.upper()}\]$", txt, re.M)
                ctx.check(m and int(m[1]) == (badof[a] & badof[b]).sum() and int(m[2]) == (badof[a] | badof[b]).sum(), "cut_summary:two", f"{a}, {b}: {m and m[0]}")
    ctx.check(re.search(rf"^ *{ds.nPulses} pulses total$", txt, re.M) is not None, "cut_summary:total", txt[-60:])
    keep[ds.channum] = keep[ds.channum] & ~extra
    # rates
    for ds in g:
        k, ts = keep[ds.channum], f["truth"][ds.channum]["usec"] / 1e6
        goodonly = bool(rng.random() < .5)
        if k.sum() < 2:
            continue
        use = ts[k] if goodonly else ts
        w = float(rng.uniform(.05, .6)) * (use[-1] - use[0])
        given = rng.random() < .5
        edges = np.arange(use[0], use[-1], w) if not given else np.linspace(ts[0] - 1, ts[-1] + .5, int(rng.integers(2, 9)))
        if given and len(edges) > 2 and rng.random() < .6:      # edges of one's own need not be equally spaced
            edges[1:-1] += rng.uniform(-.4, .4, len(edges) - 2) * (edges[1] - edges[0])
            ctx.count("unequal bins")
        ctx.need(np.min(np.abs(edges[:, None] - ts[None, :])[1 if not given else 0:]) > 1e-5)
        x, rate = ds.count_rate(goodonly, edges if given else w)
        cnt = np.array([((use >= a) & (use < b)).sum() for a, b in zip(edges[:-1], edges[1:])])
        if len(edges) > 1:
            last = (use == edges[-1]).sum()
            ctx.close(rate, (cnt + np.r_[np.zeros(len(cnt) - 1), last]) / np.diff(edges), "rate", rtol=1e-4, atol=1e-9)
            ctx.close(x, .5 * (edges[1:] + edges[:-1]), "rate:centers", rtol=0, atol=1e-5 * w + 1e-6)
            ctx.count("rates", len(rate))
    # phases out of range
    for ds in g:
        ds.p_filt_phase[:] = rng.normal(0, 2, ds.nPulses)
    g.sanitize_p_filt_phase()
    for ds in g:
        ctx.same(np.asarray(ds.cuts.bad("filt_phase")), np.abs(ds.p_filt_phase[:]) > 2, "sanitize")
        ctx.same(np.asarray(ds.good()), keep[ds.channum] & ~(np.abs(ds.p_filt_phase[:]) > 2), "sanitize:only adds")
    vg.close_group(g)


QUANT = [("p_pulse_rms", "Pulse RMS", 1, None), ("p_pulse_average", "Pulse Avg", 1, (0, 5000)), ("p_peak_value", "Peak Value", 1, None), ("p_pretrig_rms", "Pretrig RMS", 1, (0, 4000)), ("p_pretrig_mean", "Pretrig Mean", 1, None),
         ("p_postpeak_deriv", "Max PostPk deriv", 1, (0, 700)), ("p_rise_time", "Rise time (ms)", 1e3, (0, 12)), ("p_peak_time", "Peak time (ms)", 1e3, (-3, 9)), ("p_peak_index", "Peak index", 1, (600, 800))]


def bars(ax):
    """Total of a stepfilled or bar histogram drawn on ax."""
    tot = 0
    for p in ax.patches:
        if hasattr(p, "get_xy") and np.ndim(p.get_xy()) == 2:
            v = np.asarray(p.get_xy())
            tot += v[1:-1:2, 1].sum() if len(v) > 3 else 0
        else:
            tot += p.get_height()
    return tot


@monitor(40, 500)
def summaries(ctx):
    """Summary plots of the group and of one channel show the pulses asked for."""
    rng = ctx.rng
    f, g, keep, notbad = opened(ctx, nmax=4, npulses=int(rng.integers(3, 60)) if rng.random() < .5 else None, empty=True)
    mode = ["uncut", "cut", None, "all"][int(rng.integers(4))]
    q = int(rng.integers(9))
    attr, label, fac, lim = QUANT[q]
    down = None if rng.random() < .5 else int(rng.integers(1, 4))
    who = [None, "numbers", "sets"][int(rng.integers(3))]
    chs = list(notbad)
    kw = {}
    if who == "numbers":
        chs = [int(c) for c in rng.permutation(notbad)[:int(rng.integers(1, len(notbad) + 1))]]
        kw = dict(channel_numbers=chs)
    elif who == "sets":
        ii = [int(i) for i in rng.permutation(len(g.datasets))[:int(rng.integers(1, len(g.datasets) + 1))]]
        chs = [g.datasets[i].channum for i in ii]
        kw = dict(dataset_numbers=ii)
    hl = None
    if rng.random() < .4:
        v = np.hstack([getattr(ds, attr)[:] * fac for ds in g])
        hl = (float(np.min(v)) - 1, float(np.median(v)) + .0123 * float(np.ptp(v)) + 1e-3)
        ctx.need(not np.any(np.abs(v - hl[1]) < 1e-5 * (1 + abs(hl[1]))) or len(v) == 0)
        kw["hist_limits"] = hl
    ctx.case.update(mode=mode, quantity=label, down=down, who=who, limits=hl)

    def sel(c):
        return keep[c] if mode == "uncut" else (~keep[c] if mode == "cut" else np.ones(len(keep[c]), bool))
    byname = rng.random() < .5 and q not in (5,)
    arg = q if not byname else (label if rng.random() < .5 else label.lower().replace(" ", ""))
    last = max(f["truth"][c]["usec"][-1] for c in notbad) / 1e6
    hour0 = (last - last % 86400) / 3600
    for c in chs:  # (histograms of values that differ by roundings only cannot be binned)
        v = getattr(g.channel[c], attr)[:][sel(c)].astype(float) * fac
        ctx.need(len(v) == 0 or np.ptp(v) == 0 or np.ptp(v) > 1e-3 * np.abs(v).max())
    with figures() as plt:
        g.plot_summaries(arg, valid=mode, downsample=down, **kw)
        axes = plt.gcf().axes
        ctx.check(len(axes) == 2 * len(chs), "summaries:panels", f"{len(axes)} panels for {chs}")
        for c, a, b in zip(chs, axes[::2], axes[1::2]):
            ds = g.channel[c]
            m = sel(c)
            v = getattr(ds, attr)[:][m].astype(float) * fac
            ts = ds.p_timestamp[:][m] / 3600 - hour0
            ctx.check(a.get_ylabel() == f"Ch {c}", "summaries:channel", a.get_ylabel())
            if len(v) == 0:
                ctx.check(not a.lines, "summaries:empty", "something is drawn for no pulses")
                continue
            d = down or 1
            ctx.close(np.asarray(a.lines[0].get_ydata(), float), v[::d], "summaries:values", rtol=1e-6, atol=1e-9)
            ctx.close(np.asarray(a.lines[0].get_xdata(), float), ts[::d], "summaries:hours", rtol=0, atol=1e-9 * abs(hour0))
            L = hl or lim
            inside = np.ones(len(v), bool) if L is None else (v > L[0]) & (v < L[1])
            ctx.check(abs(bars(b) - inside.sum()) < .5, "summaries:histogram", f"channel {c}: {bars(b)} in the histogram, {inside.sum()} values")
            ctx.count("panels")
    ds = g.channel[int(rng.choice(list(keep)))]
    m = sel(ds.channum)
    with figures() as plt:
        tight = [np.ptp(v) for v in (getattr(ds, q_[0])[:][m] * q_[2] for q_ in QUANT) if len(v) and 0 < np.ptp(v) <= 1e-3 * np.abs(v).max()]
        if m.any() and not tight:
            arr = rng.random() < .3
            ds.plot_summaries(valid=m if arr else mode, downsample=down)
            axes = plt.gcf().axes
            ctx.check(len(axes) == 16, "summaries:one channel", f"{len(axes)} panels")
            for (attr, label, fac, _), a, b in zip(QUANT, axes[::2], axes[1::2]):
                v = getattr(ds, attr)[:][m].astype(float) * fac
                ctx.close(np.asarray(a.lines[0].get_ydata(), float), v[::down or 1], "summaries:one channel values", rtol=1e-6, atol=1e-9)
    ctx.check(ctx.raises(lambda: g.plot_summaries("no such quantity"), ValueError) is not None, "summaries:unknown", "accepted")
    vg.close_group(g)


@monitor(24, 240)
def pages(ctx):
    """Multi-page plots hold every good channel once, its good pulses and, in grey, its cut pulses."""
    import mass
    rng = ctx.rng
    f, g, keep, notbad = opened(ctx, nmax=6, empty=False)
    ctx.need(all(keep[c].any() for c in notbad))
    os.chdir(ctx.tmp)
    shape = (int(rng.integers(1, 3)), int(rng.integers(1, 3)))
    per = shape[0] * shape[1]
    hist = bool(rng.random() < .5)
    down = int(rng.integers(1, 4))
    xa, ya = [str(s) for s in rng.choice(["p_timestamp", "p_pulse_rms", "p_pretrig_mean", "p_peak_value"], 2, replace=False)]
    bins = int(rng.integers(5, 30))
    v = np.hstack([getattr(ds, ya)[:] for ds in g]).astype(float)
    vr = (float(v.min()), float(np.median(v)) + 1)
    lines = {c: [float(x) for x in rng.uniform(1, 5, int(rng.integers(0, 3)))] for c in keep} if rng.random() < .4 else None
    fmt = str(rng.choice(["png", "svg"]))
    ctx.case.update(shape=shape, hist=hist, x=xa, y=ya, down=down)
    saved = []
    with figures() as plt:
        real = plt.savefig

        def record(fn, *a, **k):
            fig = plt.gcf()
            page = []
            for ax in fig.axes:
                page.append(dict(title=ax.get_title(), lines=[(np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float), ln.get_color(), ln.get_linestyle()) for ln in ax.lines],
                                 bars=[(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches]))
            saved.append((str(fn), page))
            return real(fn, *a, **k)
        import mass.core.utilities as mu
        mu.plt.savefig = record
        try:
            if hist:
                g.plot_histogram_pages(ya, vr, bins, subplot_shape=shape, lines=lines, fileformat=fmt, suffix="sfx" if rng.random() < .5 else None)
            else:
                g.plot_summary_pages(xa, ya, subplot_shape=shape, down=down, lines=lines, fileformat=fmt, suffix="sfx" if rng.random() < .5 else None)
        finally:
            mu.plt.savefig = real
    npages = -(-len(notbad) // per)
    names = [s[0] for s in saved]
    ctx.check(len(names) == len(set(names)) == npages and all(os.path.isfile(os.path.join(ctx.tmp, s)) and s.endswith("." + fmt) for s in names), "pages:files", f"{names} for {len(notbad)} channels on pages of {shape}")
    ctx.check(sorted(glob.glob(os.path.join(ctx.tmp, "*." + fmt))) == sorted(os.path.join(ctx.tmp, s) for s in names), "pages:other files", f"{os.listdir(ctx.tmp)}")
    ctx.check(len(names) == len(set(names)) and names == sorted(names), "pages:order", f"{names}")
    panels = [p for s in saved for p in s[1]]
    ctx.check([int(re.search(r"\d+$", p["title"])[0]) for p in panels] == notbad, "pages:channels", f"{[p['title'] for p in panels]} for {notbad}")
    for c, p in zip(notbad, panels):
        ds = g.channel[c]
        k = keep[c]
        ctx.count("panels")
        if hist:
            w, e = np.histogram(getattr(ds, ya)[:][k], bins, vr)
            ctx.check([b[2] for b in p["bars"]] == list(w), "pages:histogram", f"channel {c}: {[b[2] for b in p['bars']]} for {w}")
            ctx.close([b[0] for b in p["bars"]], e[:-1], "pages:bins", rtol=1e-5, atol=1e-5 * (vr[1] - vr[0]))
            continue
        X, Y = getattr(ds, xa)[:].astype(float), getattr(ds, ya)[:].astype(float)
        if xa == "p_timestamp":
            X = (X - X[0]) / 3600
        if ya == "p_timestamp":
            Y = getattr(ds, ya)[:]
        for m, col in ((~k, "gray"), (k, "blue")):
            hit = [q for q in p["lines"] if q[2] == col]
            ctx.check(len(hit) == 1, "pages:colors", f"{[q[2] for q in p['lines']]}")
            ctx.close(hit[0][0], X[m][::down], "pages:x", rtol=1e-6, atol=1e-9)
            ctx.close(hit[0][1], Y[m][::down], "pages:y", rtol=1e-6, atol=1e-9)
        if lines is not None:
            ctx.check(sorted(q[1][0] for q in p["lines"] if q[3] == "--") == sorted(lines[c]), "pages:lines", f"channel {c}")
    vg.close_group(g)


@monitor(30, 300)
def noise(ctx):
    """Plots of noise spectra, autocorrelations, filters and rates show the stored results, scaled as asked for, on the axes given."""
    rng = ctx.rng
    f, g, keep, notbad = opened(ctx, noise=True, cuts=bool(rng.random() < .5), npulses=40, ns=int(rng.choice([40, 64, 80])))
    g.compute_noise()
    ctx.need(all(keep[c].sum() > 5 for c in notbad))
    with figures() as plt:
        fig, (ax, other_ax) = plt.subplots(2)
        plt.sca(other_ax)
        s, root, dc, incl = float(rng.choice([1., .25, 3.])), bool(rng.random() < .5), bool(rng.random() < .5), bool(rng.random() < .5)
        chosen = None if rng.random() < .6 else [int(c) for c in rng.permutation(notbad)[:1]]
        g.plot_noise(axis=ax, channels=chosen, scale_factor=s, sqrt_psd=root, include_dc=dc, include_badchan=incl)
        every = [ds for ds in g.datasets if ds.channum in notbad or incl] if chosen is None else [g.channel[c] for c in chosen]
        every = [ds for ds in every if np.any(np.asarray(ds.noise_psd[:]))]  # (the noise of bad channels is not computed)
        ctx.check([ln.get_label() for ln in ax.lines] == [f"Chan {ds.channum}" for ds in every] and not other_ax.lines, "noise:channels", f"{[ln.get_label() for ln in ax.lines]}")
        for ln, ds in zip(ax.lines, every):
            p = ds.noise_psd[:].astype(float) * s**2
            p = np.sqrt(p) if root else p
            fr = np.arange(len(p)) / (2 * (len(p) - 1) * g.timebase)
            fr[0] = .1 * fr[1]
            a = 0 if dc else 1
            ctx.close(np.asarray(ln.get_ydata(), float), p[a:], "noise:spectrum", rtol=1e-6, atol=0)
            ctx.close(np.asarray(ln.get_xdata(), float), fr[a:], "noise:frequencies", rtol=1e-6, atol=0)
            lo, hi = ax.get_xlim()
            ctx.check(lo <= fr[a] and hi >= fr[-1], "noise:range", f"{(lo, hi)} for {fr[a]} to {fr[-1]}")
        ctx.check(("1/2" in ax.get_ylabel() or "0.5" in ax.get_ylabel()) == root and ("Scaled" in ax.get_ylabel()) == (s != 1), "noise:label", ax.get_ylabel())
        ctx.check(ax.get_legend() is not None and other_ax.get_legend() is None, "noise:legend", "legend on other axes")
    with figures() as plt:
        fig, (ax, other_ax) = plt.subplots(2)
        plt.sca(other_ax)
        g.plot_noise_autocorrelation(axis=ax)
        shown = [ln for ln in ax.lines if ln.get_label().startswith("Chan")]
        for ln in shown:
            ds = g.channel[int(ln.get_label().split()[1])]
            ac = ds.noise_records.autocorrelation[:].astype(float)
            if np.any(np.asarray(ds.noise_autocorr[:])):
                ctx.close(np.asarray(ds.noise_autocorr[:], float), ac[:len(ds.noise_autocorr)], "autocorrelation:dataset", rtol=1e-6, atol=0)
            ctx.close(np.asarray(ln.get_ydata(), float), ac, "autocorrelation:values", rtol=1e-6, atol=0)
            ctx.close(np.asarray(ln.get_xdata(), float), np.arange(len(ac)) * g.timebase * 1e3, "autocorrelation:lags", rtol=1e-9, atol=0)
        ctx.check(sorted(int(ln.get_label().split()[1]) for ln in shown) == sorted(keep), "autocorrelation:channels", f"{len(shown)}")
        ctx.check(not other_ax.lines and other_ax.get_legend() is None, "autocorrelation:axes", "drawn on other axes")
    ds = list(g)[0]
    with figures() as plt:
        fig, (ax, other_ax) = plt.subplots(2)
        plt.sca(other_ax)
        s, root = float(rng.choice([1., .5])), bool(rng.random() < .5)
        ds.noise_records.plot_power_spectrum(axis=ax, scale=s, sqrt_psd=root)
        p = ds.noise_records.noise_psd[1:].astype(float) * s**2
        ctx.close(np.asarray(ax.lines[0].get_ydata(), float), np.sqrt(p) if root else p, "spectrum:values", rtol=1e-6, atol=0)
        ctx.close(np.asarray(ax.lines[0].get_xdata(), float), np.arange(1, len(p) + 1) / (2 * len(p) * g.timebase), "spectrum:frequencies", rtol=1e-9, atol=0)
        ctx.check(ax.get_xscale() == ax.get_yscale() == "log" and other_ax.get_xscale() == "linear", "spectrum:scales", "the other axes were made logarithmic")
    g.compute_average_pulse([keep[d.channum] for d in g.datasets], forceNew=True)
    done = g.compute_filters()
    with figures() as plt:
        fig, (ax, other_ax) = plt.subplots(2)
        plt.sca(other_ax)
        g.plot_filters(axis=ax)
        have = [c for c in sorted(keep) if g.channel[c].filter is not None]
        ctx.check([ln.get_label() for ln in ax.lines] == [f"Chan {c}" for c in have] and not other_ax.lines, "filters:channels", f"{[ln.get_label() for ln in ax.lines]} for {have}")
        for ln, c in zip(ax.lines, have):
            ctx.close(np.asarray(ln.get_ydata(), float), np.asarray(g.channel[c].filter.values, float), "filters:values", rtol=1e-9, atol=0)
    # rates of the array
    left = [ds.channum for ds in g]
    if left:
        with figures() as plt:
            t0 = {c: f["truth"][c]["usec"] / 1e6 for c in left}
            first = t0[left[0]]
            w = (first[-1] - first[0]) / float(rng.uniform(2.2, 7.7))
            g.plot_count_rate(bin_s=w)
            edges = np.arange(first[0], first.max(), w)
            figs = [plt.figure(i) for i in plt.get_fignums()]
            ctx.need(len(edges) > 1 and all(np.min(np.abs(edges[1:, None] - t[None, :])) > 1e-5 for t in t0.values()))
            axs = figs[0].axes
            ra = {c: np.histogram(t0[c], edges)[0] / w for c in left}
            rg = {c: np.histogram(t0[c][np.asarray(g.channel[c].good())], edges)[0] / w for c in left}
            # (an event at the first edge may round to either side)
            for ax, r in ((axs[0], ra), (axs[1], rg)):
                for ln, c in zip(ax.lines, left):
                    ctx.close(np.asarray(ln.get_ydata(), float), r[c], "rates:channel", rtol=1e-4, atol=1.01 / w if c != left[0] and abs(t0[c][0] - edges[0]) < 1e-5 else 1e-6)
            ctx.close(np.asarray(axs[2].lines[0].get_ydata(), float), sum(ra.values()), "rates:array", rtol=1e-4, atol=1e-6)
            two = figs[1].axes[0].lines
            for ln, r in zip(two, (ra, rg)):
                ctx.check(list(ln.get_xdata()) == left, "rates:channel numbers", f"{ln.get_xdata()}")
                ctx.close(np.asarray(ln.get_ydata(), float), [r[c].mean() for c in left], "rates:mean", rtol=1e-4, atol=1e-6)
    vg.close_group(g)


@monitor(24, 240)
def linefit(ctx):
    """Fits of lines by channel or group use the good pulses of the selection, in the bins asked for."""
    import mass
    rng = ctx.rng
    f, g, keep, notbad = opened(ctx, nmax=3, npulses=int(rng.integers(150, 400)))
    line = str(rng.choice(["MnKAlpha", "CuKAlpha", "FeKAlpha"]))
    g.register_categorical_cut_field("side", ["A", "B"])
    side = {}
    pe = mass.spectra[line].nominal_peak_energy
    for ds in g.datasets:
        ds.p_energy[:] = mass.spectra[line].rvs(ds.nPulses, instrument_gaussian_fwhm=4., rng=np.random.default_rng(int(rng.integers(1 << 40))))
        if rng.random() < .3:
            ds.p_energy[int(rng.integers(ds.nPulses))] = np.nan
        side[ds.channum] = np.where(rng.random(ds.nPulses) < .5, "A", "B")
        ds.cuts.cut_categorical("side", {"A": side[ds.channum] == "A", "B": side[ds.channum] == "B"})
    cat = {} if rng.random() < .5 else {"side": str(rng.choice(["A", "B"]))}
    ts = {c: f["truth"][c]["usec"] / 1e6 for c in keep}
    lo, hi = (0, 1e20)
    if rng.random() < .4:
        t = ts[notbad[0]]
        lo, hi = float(t[len(t) // 5]) + 1e-4, float(t[-len(t) // 5]) + 1e-4
    gf = None
    if rng.random() < .4:
        odd = {c: rng.random(len(k)) < .8 for c, k in keep.items()}
        gf = lambda ds: odd[ds.channum]  # noqa
    dlo, dhi, bs = float(rng.integers(25, 60)), float(rng.integers(25, 60)), float(rng.choice([.25, .5]))
    edges = np.arange(pe - dlo, pe + dhi, bs)
    given = rng.random() < .3
    if given:
        edges = np.linspace(pe - 30, pe + 35, 140)
    ctx.case.update(line=line, category=cat, t=(lo, hi), given=given)
    group = bool(rng.random() < .5)
    who = g if group else g.channel[int(rng.choice(notbad))]
    w = np.zeros(len(edges) - 1, int)
    for c in (notbad if group else [who.channum]):
        e = g.channel[c].p_energy[:]
        m = keep[c] & (ts[c] > lo) & (ts[c] < hi) & ~np.isnan(e)
        if cat:
            m &= side[c] == cat["side"]
        if gf is not None:
            m &= odd[c]
        w += np.histogram(e[m], edges)[0]
    ctx.need(w.sum() > 60)
    with figures() as plt:
        r = who.linefit(line, t0=lo, tlast=hi, dlo=dlo, dhi=dhi, binsize=bs, bin_edges=edges if given else None, category=cat, g_func=gf, plot=bool(rng.random() < .3))
        ctx.same(np.asarray(r.data), w, "linefit:counts")
        ctx.close(r.userkws["bin_centers"], .5 * (edges[1:] + edges[:-1]), "linefit:bins", rtol=0, atol=1e-9)
        ctx.check(r.params["dph_de"].value == 1 and not r.params["dph_de"].vary, "linefit:scale", "free energy scale")
        # (an error bar means nothing in sparse spectra, but the line must be found)
        e = r.params["peak_ph"].stderr
        if w.sum() > 150 and e:
            ctx.check(abs(r.params["peak_ph"].value - mass.spectra[line].peak_energy) < 6 * e + 1.5, "linefit:position", f"{r.params['peak_ph'].value} +- {e} for {mass.spectra[line].peak_energy}")
        ctx.count("fits")
    if not group:
        with figures() as plt:
            fig, (ax, other_ax) = plt.subplots(2)
            who.plot_hist(edges, axis=ax, category=cat, g_func=gf, label_lines=[line] if rng.random() < .3 else [])
            x, y = who.hist(edges, category=cat, g_func=gf)
            ctx.same(np.asarray(ax.lines[0].get_ydata()), y, "linefit:plot_hist")
            ctx.close(np.asarray(ax.lines[0].get_xdata()), .5 * (edges[1:] + edges[:-1]), "linefit:plot_hist bins", rtol=0, atol=1e-9)
    vg.close_group(g)


def plt_():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    return plt


def xy(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]


VEC = ["p_pulse_rms", "p_pulse_average", "p_peak_value", "p_pretrig_rms", "p_pretrig_mean", "p_postpeak_deriv", "p_rise_time", "p_peak_time", "p_peak_index"]


def make(ctx, nchan=None, summaries=True, ns=None):
    """A group with known values in every channel: returns (group, {chan: values}, {chan: good mask}, files)."""
    os.chdir(ctx.tmp)
    rng = ctx.rng
    nchan = nchan or int(rng.integers(1, 5))
    chans = [int(c) for c in rng.choice(np.arange(1, 60), nchan, replace=False)]
    n = {c: int(rng.integers(12, 60)) for c in chans}
    f = vg.make_files(ctx, chans=chans, n=n, nnoise=20, ns=ns or int(rng.choice([50, 64, 101])), npre=20, timebase=float(rng.choice([1e-5, 9.6e-6])), period=int(rng.choice([20000, 3_000_000])))
    # noise powers that differ from channel to channel
    g = vg.open_group(f)
    val, good = {}, {}
    g.register_boolean_cut_fields("mine", "yours")
    for c in chans:
        ds = g.channel[c]
        m = ds.nPulses
        v = val[c] = {k: np.asarray(rng.uniform(1, 5000, m), np.float32) for k in VEC}
        v["p_postpeak_deriv"] = np.asarray(rng.uniform(-100, 900, m), np.float32)
        v["p_rise_time"] = np.asarray(rng.uniform(0, .015, m), np.float32)
        v["p_peak_index"] = rng.integers(0, 900, m).astype(np.uint16)
        if summaries:
            for k in VEC:
                if k == "p_peak_time":
                    continue
                getattr(ds, k)[:] = v[k].astype(getattr(ds, k).dtype)
                v[k] = getattr(ds, k)[:].copy()
        v["p_peak_time"] = (v["p_peak_index"].astype(float) - f["npre"]) * g.timebase
        v["ts"] = f["truth"][c]["usec"] * 1e-6
        ds.p_timestamp[:] = v["ts"]
        v["ts"] = ds.p_timestamp[:].copy()
        a = rng.random(m) < rng.choice([0, .3, .3, 1, .6])
        b = rng.random(m) < .1
        ds.cuts.cut("mine", a)
        ds.cuts.cut("yours", b)
        v["a"], v["b"] = a, b
        good[c] = ~(a | b)
    bad = []
    if nchan > 1 and rng.random() < .5:
        bad = [chans[int(rng.integers(nchan))]]
        g.set_chan_bad(bad[0], "test")
    ctx.case = dict(chans=chans, n=[n[c] for c in chans], good=[int(good[c].sum()) for c in chans], bad=bad)
    order = [ds.channum for ds in g.datasets]
    return g, val, good, f, order, [c for c in order if c not in bad]


@monitor(70, 900)
def traces2(ctx):
    """plot_traces and read_trace show the raw records (or what is asked for) of the channel and records named."""
    plt = plt_()
    rng = ctx.rng
    g, val, good, f, order, usable = make(ctx)
    c = order[int(rng.integers(len(order)))]
    ds = g.channel[c]
    raw = f["truth"][c]["data"].astype(float)
    ns, npre = f["ns"], f["npre"]
    m = ds.nPulses
    ap = rng.uniform(0, 1, ns)
    ds.average_pulse[:] = ap
    fv = rng.uniform(100, 4000, m).astype(np.float32)
    ds.p_filt_value[:] = fv
    sh = rng.random(m) < .5
    ds.p_shift1[:] = sh
    i = int(rng.integers(m))
    ctx.same(np.asarray(ds.read_trace(i), float), raw[i], "read_trace of a channel")
    ctx.same(np.asarray(g.read_trace(i, channum=c), float), raw[i], "read_trace by channel number")
    ctx.same(np.asarray(g.read_trace(i, dataset_num=order.index(c)), float), raw[i], "read_trace by dataset number")
    ctx.same(np.asarray(g.read_trace(i, dataset_num=order.index(c), channum=999), float), raw[i], "read_trace of an unknown channel number")
    other = order[-1 - order.index(c)]
    ctx.same(np.asarray(g.read_trace(1, dataset_num=order.index(c), channum=other), float), f["truth"][other]["data"][1].astype(float), "channel number comes before dataset number")
    kind = str(rng.choice(["list", "array", "int", "npint", "range"]))
    k = int(rng.integers(1, 8))
    which = dict(list=lambda: [int(v) for v in rng.choice(m, k, replace=False)], array=lambda: rng.choice(m, k, replace=False), int=lambda: int(rng.integers(m)),
                 npint=lambda: np.int64(rng.integers(m)), range=lambda: range(2, 2 + k))[kind]()
    nums = np.atleast_1d(np.asarray(which))
    kw = {}
    mode = str(rng.choice(["raw", "difference", "residual"]))
    if mode != "raw":
        kw[mode] = True
    vs = [None, "valid", "cut"][int(rng.integers(3))]
    if vs or rng.random() < .5:
        kw["valid_status"] = vs
    shift = bool(rng.random() < .4)
    if shift:
        kw["shift1"] = True
    if rng.random() < .3:
        kw["pulse_summary"] = False
    viagroup = bool(rng.random() < .5)
    sub = bool(rng.random() < .4) and not viagroup
    if sub:
        kw["subtract_baseline"] = True
    ctx.case.update(kind=kind, nums=nums.tolist(), kw=str(kw), viagroup=viagroup, chan=c)
    fig, (a, b) = plt.subplots(1, 2)
    plt.sca(b)
    if viagroup:
        how = dict(channum=c) if rng.random() < .6 else dict(dataset_num=order.index(c))
        g.plot_traces(which, axis=a, **how, **kw)
    else:
        ds.plot_traces(which, axis=a, **kw)
    ctx.check(not b.lines and not b.texts, "other axes are left alone", "")
    want, cutmark = [], []
    for p in nums:
        if vs == "valid" and not good[c][p] or vs == "cut" and good[c][p]:
            continue
        x = raw[p]
        if mode == "difference":
            d = np.hstack([0, np.diff(x)])
            x = d + np.roll(d, 1) + np.roll(d, -1)
            x[0] = 0
        elif mode == "residual":
            x = x - fv[p] * ap / ap.max()
        if shift and sh[p]:
            x = np.hstack([x[0], x[:-1]])
        if sub:
            x = x - x[:npre - ds.pretrigger_ignore_samples].mean()
        want.append(x)
        cutmark.append(not good[c][p])
    got = xy(a)
    ctx.check(len(got) == len(want), "one curve for each record asked for", f"{len(got)} {len(want)}")
    t = (np.arange(ns) - npre) * ds.timebase * 1e3
    for (x, y), w in zip(got, want):
        ctx.close(x, t, "times of a trace in milliseconds", rtol=1e-9, atol=1e-12)
        ctx.close(y, w, "trace drawn", rtol=1e-6, atol=2e-3)
    if vs is None:
        ctx.check([l.get_linestyle() == "--" for l in a.lines] == cutmark, "cut records are dashed", str(cutmark))
    shown = [v for v in nums if not (vs == "valid" and not good[c][v] or vs == "cut" and good[c][v])]
    rows = [q.get_text() for q in a.texts[2:]]
    if kw.get("pulse_summary", True):
        ctx.check(len(rows) == len(shown), "a line of summary for each record", f"{len(rows)} {len(shown)}")
        v = val[c]
        for r, p in zip(rows, shown):
            w = f"{p:6d}: {v['p_pretrig_mean'][p]:5.0f} {v['p_pretrig_rms'][p]:7.2f} {v['p_postpeak_deriv'][p]:6.1f} {v['p_rise_time'][p] * 1e6:5.0f} {v['p_peak_value'][p]:5.0f} {v['p_pulse_average'][p]:7.1f}"
            ctx.check(r[1:] == w and (r[0] == "X") == (vs is None and not good[c][p]), "summary of a record", f"{r!r} {w!r}")
    else:
        ctx.check(not a.texts, "no summary when not wanted", "")
    ctx.check(ctx.raises(lambda: ds.plot_traces([0], axis=b, residual=True, difference=True), ValueError) is not None, "residual and difference exclude each other", "")
    ctx.check(ctx.raises(lambda: ds.plot_traces([0], axis=b, valid_status="bad"), ValueError) is not None, "unknown status is an error", "")
    ctx.nontrivial(mode, kind, vs, shift, sub, viagroup, len(want))
    ctx.count("traces drawn", len(want))
    plt.close("all")
    vg.close_group(g)


NAMES = ["Pulse RMS", "Pulse Avg", "Peak Value", "Pretrig RMS", "Pretrig Mean", "Max PT Deriv", "Rise Time", "Peak Time", "Peak Index"]
GLIM = [None, (0, 5000), None, (0, 4000), None, (0, 700), (0, 12), (-3, 9), (600, 800)]
CLIM = [None, None, None, (0, 4000), None, (0, 700), (0, 12), (-3, 9)]


@monitor(60, 700)
def summaries2(ctx):
    """plot_summaries, of a channel or group: each panel shows the quantity, channel and pulses it says."""
    plt = plt_()
    rng = ctx.rng
    g, val, good, f, order, usable = make(ctx)
    choice = [None, "uncut", "CUT", "cut", "all", "Uncut"][int(rng.integers(6))]
    down = [None, 1, 3][int(rng.integers(3))]
    log = bool(rng.random() < .3)

    def sel(c):
        if choice is None or choice == "all":
            return np.ones(len(good[c]), bool)
        return good[c] if "uncut" in choice.lower() else ~good[c]
    kw = dict(valid=choice) if choice != "uncut" or rng.random() < .5 else {}
    if down is not None:
        kw["downsample"] = down
    if log:
        kw["log"] = True
    if rng.random() < .6:
        q = int(rng.integers(9))
        nm = NAMES[q]
        arg = [q, nm, nm.upper(), nm.replace(" ", "").lower()][int(rng.integers(4))]
        lim = GLIM[q]
        if rng.random() < .3:
            lim = (100., 2500.) if q not in {6, 7} else (1., 8.)
            kw["hist_limits"] = lim
        show = usable
        r = rng.random()
        if r < .3:
            show = [int(c) for c in rng.permutation(order)[:2]]
            kw["channel_numbers"] = show
        elif r < .5:
            ix = [int(i) for i in rng.permutation(len(order))[:2]]
            show = [order[i] for i in ix]
            kw["dataset_numbers"] = ix
        ctx.case.update(what="group", quantity=str(arg), kw=str(kw))
        g.plot_summaries(arg, **kw)
        panels = [(c, q, lim) for c in show]
        last = max(val[c]["ts"][-1] for c in usable)
        label = lambda i, c: f"Ch {c}"  # noqa
    else:
        c = order[int(rng.integers(len(order)))]
        s0 = choice
        if rng.random() < .3:
            kw["valid"] = choice = rng.random(len(good[c])) < .5
            use = choice
        else:
            use = sel(c)
        ctx.case.update(what=f"channel {c}", kw=str(kw))
        if not use.any():
            vg.close_group(g)
            return
        g.channel[c].plot_summaries(**kw)
        panels = [(c, q, CLIM[q]) for q in range(8)]
        last = val[c]["ts"].max()
        sel = lambda c: use  # noqa
        label = None
    axs = plt.gcf().axes
    ctx.check(len(axs) == 2 * len(panels), "two panels for each", f"{len(axs)} {len(panels)}")
    mid = last - last % 86400
    n = 0
    for i, (c, q, lim) in enumerate(panels):
        use = sel(c)
        v = np.asarray(val[c][VEC[q]], float) * (1e3 if q in {6, 7} else 1)
        v, t = v[use], val[c]["ts"][use]
        d = down or 1
        L, R = axs[2 * i], axs[2 * i + 1]
        if label:
            ctx.check(L.get_ylabel() == label(i, c), "panel of a channel", L.get_ylabel())
        if len(v):
            (x, y), = xy(L)
            ctx.close(y, v[::d], "values in the scatter plot", rtol=1e-5, atol=1e-9)
            ctx.close(x, (t[::d] - mid) / 3600, "hours in the scatter plot", rtol=0, atol=1e-6)
            ctx.check((np.asarray(x) <= 24.0001).all(), "hours since the last midnight", "")
        else:
            ctx.check(not L.lines and [a.get_text() for a in L.texts] == ["empty"], "empty scatter panel", "")
        w = v if lim is None else v[(v > lim[0]) & (v < lim[1])]
        if not len(w) and label:
            ctx.check([a.get_text() for a in R.texts] == ["empty"], "empty histogram panel", "")
        else:
            hist_log_ok(ctx, R, w, log)
        n += len(w)
    if n:
        ctx.nontrivial(tuple(ctx.case["n"]), str(kw), ctx.case["what"])
    ctx.count("summary panels", len(panels))
    plt.close("all")
    vg.close_group(g)


def hist_log_ok(ctx, ax, w, log):
    if log:
        ctx.check(ax.get_yscale() == "log" or not len(w), "histogram on a log scale", ax.get_yscale())
    if not len(w):
        return
    cts, edges = np.histogram(np.asarray(w, np.float32), 200)
    v = ax.patches[0].get_xy()
    ctx.close([v[:, 0].min(), v[:, 0].max()], [edges[0], edges[-1]], "histogram range", rtol=1e-4, atol=1e-6)
    ctx.check(len(ax.patches) == 1, "one histogram", "")
    if log:
        ctx.close(v[:, 1].max(), cts.max(), "highest bin", rtol=1e-9, atol=1)
        return
    if edges[-1] - edges[0] < 1e-2 * np.abs(edges).max():
        ctx.close(v[:, 1].max(), cts.max(), "highest bin", rtol=1e-9, atol=1)
        return
    # area under the outline = number of values
    x, y = v[:, 0], v[:, 1]
    area = abs(.5 * np.sum(x * np.roll(y, -1) - y * np.roll(x, -1)))
    wid = (edges[-1] - edges[0]) / 200
    ctx.close(area / wid if wid else len(w), len(w), "number of values in the histogram", rtol=1e-3, atol=1e-3)


@monitor(50, 600)
def curves(ctx):
    """Group plots of average pulses, filters, noise: one curve for each channel, with that channel's numbers."""
    plt = plt_()
    rng = ctx.rng
    g, val, good, f, order, usable = make(ctx)
    ns, npre = f["ns"], f["npre"]
    dt = g.timebase
    ap, psd, ac = {}, {}, {}
    has = {c: bool(rng.random() < .8) for c in order}
    df = {}
    for c in order:
        ds = g.channel[c]
        ap[c] = rng.uniform(0, 4000, ns)
        ds.average_pulse[:] = ap[c]
        psd[c] = rng.uniform(.1, 5, 1 + ns // 2)
        ds.noise_psd[:] = psd[c]
        df[c] = 1 / (2 * (ns // 2) * dt) * rng.uniform(.5, 2)
        if has[c]:
            ds.noise_psd.attrs["delta_f"] = df[c]
        elif "delta_f" in ds.noise_psd.attrs:
            del ds.noise_psd.attrs["delta_f"]
        ac[c] = rng.normal(0, 5, ns)
        ds.noise_records.autocorrelation[:] = ac[c]
        ds.filter = type("F", (), dict(values=rng.normal(0, 1, ns - 1)))() if has[c] else None
    sub = None
    if rng.random() < .4:
        sub = [int(c) for c in rng.permutation(order)[:max(1, len(order) - 1)]]

    def both(fn, **kw):
        fig, (a, b) = plt.subplots(1, 2)
        plt.sca(b)
        given = rng.random() < .7
        fn(axis=a if given else None, **kw)
        if given:
            ctx.check(not b.lines, "other axes are left alone", "")
        return a if given else plt.gcf().axes[0]

    def legend(ax, want, on):
        le = ax.get_legend()
        names = [t.get_text() for t in le.get_texts()] if le is not None else []
        ctx.check(names == ([f"Chan {c}" for c in want] if on else []), "legend names the channels", f"{names} {want}")
    lg = bool(rng.random() < .7)
    kw = {} if lg else dict(legend=False)
    if sub:
        kw["channels"] = sub
    ib = bool(rng.random() < .4)
    k2 = dict(kw, include_badchan=True) if ib else kw
    alldone = sub or (order if ib else usable)
    # average pulses
    fc = None
    if rng.random() < .3:
        fc = .1 / dt
        k2 = dict(k2, fcut=fc)
    ax = both(g.plot_average_pulses, **k2)
    k2.pop("fcut", None)
    got = xy(ax)
    ctx.check(len(got) == len(alldone), "one average pulse for each channel", f"{len(got)} {len(alldone)}")
    for c, (x, y) in zip(alldone, got):
        ctx.close(x, (np.arange(ns) - npre) * dt * 1e3, "times of average pulses", rtol=1e-9, atol=1e-12)
        if fc is None:
            ctx.close(y, ap[c], "average pulse drawn", rtol=1e-6, atol=1e-6)
        else:
            ctx.check(np.std(np.diff(y)) < .7 * np.std(np.diff(ap[c])) and abs(y.mean() - ap[c].mean()) < .2 * ap[c].mean(), "filtered average pulse is smoother", "")
        ctx.same(g.channel[c].average_pulse[:], ap[c].astype(g.channel[c].average_pulse.dtype), "plotting leaves the average pulse alone")
    legend(ax, alldone, lg)
    # filters
    ax = both(g.plot_filters, **kw)
    show = [c for c in (sub or sorted(order)) if has[c]]
    got = xy(ax)
    ctx.check(len(got) == len(show), "one filter for each channel that has one", f"{len(got)} {len(show)}")
    for c, (x, y) in zip(show, got):
        ctx.close(y, g.channel[c].filter.values, "filter drawn", rtol=1e-9, atol=0)
    if show:
        legend(ax, show, lg)
    # noise
    sq, scl, dc = bool(rng.random() < .5), float(rng.choice([1, 1, .02, 3])), bool(rng.random() < .4)
    kk = dict(k2)
    if sq:
        kk["sqrt_psd"] = True
    if scl != 1:
        kk["scale_factor"] = scl
    if dc:
        kk["include_dc"] = True
    show = [c for c in alldone if has[c]]
    ctx.case.update(sub=sub, ib=ib, kk=str(kk), has=[has[c] for c in order])
    if show:
        ax = both(g.plot_noise, **kk)
        got = xy(ax)
        ctx.check(len(got) == len(show), "one noise curve for each channel", f"{len(got)} {len(show)}")
        for c, (x, y) in zip(show, got):
            w = psd[c] * scl**2
            w = np.sqrt(w) if sq else w
            fr = np.arange(len(w)) * df[c]
            if dc:
                ctx.check(0 < x[0] < fr[1], "zero frequency is drawn left of the others", "")
                x = np.hstack([0, x[1:]])
            else:
                w, fr = w[1:], fr[1:]
            ctx.close(x, fr, "noise frequencies", rtol=1e-9, atol=1e-12)
            ctx.close(y, w, "noise drawn", rtol=1e-9, atol=0)
            lo, hi = ax.get_xlim()
            ctx.check(lo <= x[x > 0].min() and hi >= x.max(), "all frequencies are in view", f"{lo} {hi}")
        ctx.check(ax.get_xscale() == ax.get_yscale() == "log", "noise on log scales", "")
        ctx.check(("1/2" in ax.get_ylabel()) == sq and ("Scaled" in ax.get_ylabel()) == (scl != 1), "noise axis label", ax.get_ylabel())
        legend(ax, show, lg)
    elif alldone:
        ctx.check(ctx.raises(lambda: both(g.plot_noise, **kk), ValueError) is not None, "nothing to plot is an error", "")
    # autocorrelation
    ax = both(g.plot_noise_autocorrelation, **kw)
    show = sub or sorted(order)
    got = xy(ax)
    ctx.check(len(got) == 2 * len(show), "one autocorrelation for each channel", f"{len(got)} {len(show)}")
    for c, (x, y), (x0, y0) in zip(show, got[::2], got[1::2]):
        ctx.close(x, np.arange(ns) * dt * 1e3, "lags in milliseconds", rtol=1e-9, atol=0)
        ctx.close(y, ac[c], "autocorrelation drawn", rtol=1e-9, atol=0)
        ctx.close([x0[0], y0[0]], [0, ac[c][0]], "zero lag marked", rtol=1e-9, atol=0)
    legend(ax, show, lg)
    ctx.nontrivial(len(order), str(sub), ib, sq, scl, dc)
    ctx.count("curves", len(order))
    plt.close("all")
    vg.close_group(g)


@monitor(50, 600)
def reports2(ctx):
    """Tables, reports, rates, masks and files of a group count what they say."""
    plt = plt_()
    rng = ctx.rng
    g, val, good, f, order, usable = make(ctx)

    def said(fn):
        o = io.StringIO()
        with contextlib.redirect_stdout(o):
            fn()
        return o.getvalue()
    # report: every dataset
    with np.errstate(all="ignore"):
        rows = said(g.report).strip().splitlines()
    ctx.check(len(rows) == len(order), "a line for each channel", f"{len(rows)}")
    for c, r in zip(order, rows):
        ix = np.nonzero(good[c])[0]
        if not len(ix):
            ctx.check(r == f"chan {c:3d}      0 good pulses", "report of a channel with no good pulses", r)
            continue
        if len(ix) < 2:
            continue
        span = ix[-1] - ix[0] + 1
        t = val[c]["ts"][ix[-1]] - val[c]["ts"][ix[0]]
        nums = [float(q) for q in re.findall(r"-?[\d.]+", r)]
        ctx.close(nums, [c, span, (span - 1) / t, t / 3600, 100 * len(ix) / span], "report of a channel", rtol=1e-3, atol=6e-4)
    # cut summary
    c = order[int(rng.integers(len(order)))]
    ds = g.channel[c]
    txt = said(ds.cut_summary)
    fields = [nm.decode() for nm, _ in g.boolean_cut_desc if nm]
    flags = {nm: np.zeros(ds.nPulses, bool) for nm in fields}
    flags["mine"], flags["yours"] = val[c]["a"], val[c]["b"]
    for nm in fields:
        ctx.check(f"{flags[nm].sum():6d} pulses cut by {nm.upper()}\n" in txt, "pulses cut by a field", f"{nm} {flags[nm].sum()}")
    a, b = ("mine", "yours") if rng.random() < .5 else ("yours", "mine")
    w = f"{(flags[a] & flags[b]).sum():6d} (and) %{(flags[a] | flags[b]).sum():6d} (or) pulses cut by [{a.upper()} and/or {b.upper()}]"
    ctx.check(w in txt, "pulses cut by two fields", w)
    ctx.check(f"{ds.nPulses:6d} pulses total" in txt, "number of pulses", "")
    ctx.check(len(txt.splitlines()) == len(fields) * (len(fields) - 1) + 1 + len(fields) + 1, "lines of the cut summary", "")
    # count rates
    ts = val[c]["ts"]
    for gd in (False, True):
        t = ts[good[c]] if gd else ts
        if len(t) < 3:
            continue
        bs = float((t[-1] - t[0]) / rng.uniform(1.2, 9))
        x = int(rng.integers(4))
        if x == 0:
            arg = bs
        elif x == 1:
            arg = np.float64(bs)
        elif x == 2 and bs > 2:
            arg = np.int64(bs)
            bs = float(arg)
        else:
            arg = np.arange(ts[0] - 1, ts[-1] + bs, bs)
        e = np.asarray(arg) if np.ndim(arg) else np.arange(t[0], t[-1], bs)
        if len(e) < 2:
            continue
        n = np.array([((t >= lo) & ((t < hi) if j < len(e) - 2 else (t <= hi))).sum() for j, (lo, hi) in enumerate(zip(e[:-1], e[1:]))])
        xx, rr = ds.count_rate(gd, arg)
        ctx.close(xx, (e[1:] + e[:-1]) / 2, "middles of rate bins", rtol=1e-12, atol=1e-5)
        ctx.close(rr, n / bs, "count rates", rtol=1e-3, atol=1e-12)
    # rates of the group
    fg = usable[0]
    t0, t1 = val[fg]["ts"][0], val[fg]["ts"].max()
    bs = (t1 - t0) / rng.uniform(2.5, 9)
    g.plot_count_rate(bs)
    e = np.arange(t0, t1, bs)
    cnt = {c: (np.histogram(val[c]["ts"], e)[0], np.histogram(val[c]["ts"][good[c]], e)[0]) for c in usable}
    f1, f2 = plt.figure(plt.get_fignums()[-2]), plt.figure(plt.get_fignums()[-1])
    for k in (0, 1):
        got = xy(f1.axes[k])
        ctx.check(len(got) == len(usable), "a rate curve for each channel", "")
        for c2, (x, y) in zip(usable, got):
            ctx.close(y, cnt[c2][k] / bs, "rate curve of a channel", rtol=1e-3, atol=1e-9)
            ctx.close(x, (e[1:] + e[:-1]) / 2, "times of rate curves", rtol=1e-12, atol=1e-5)
        x, y = xy(f2.axes[0])[k]
        ctx.same(x, np.asarray(usable, float), "channel numbers")
        ctx.close(y, [np.mean(cnt[c2][k]) / bs for c2 in usable], "average rate of each channel", rtol=1e-3, atol=1e-9)
    ctx.close(xy(f1.axes[2])[0][1], sum(cnt[c2][0] for c2 in usable) / bs, "rate of the array", rtol=1e-3, atol=1e-9)
    plt.close("all")
    # masks by pulse size, and averages of the pulses they choose
    names = dict(pulse_avg_range="p_pulse_average", pulse_peak_range="p_peak_value", pulse_rms_range="p_pulse_rms")
    key = list(names)[int(rng.integers(3))]
    lo, hi = sorted(float(q) for q in rng.uniform(0, 5000, 2))
    gains = None if rng.random() < .5 else rng.uniform(.5, 2, len(order))
    masks = g.make_masks(**{key: (lo, hi) if rng.random() < .7 else (hi, lo)}, gains=gains)
    ctx.check(len(masks) == len(order), "a mask for each channel", f"{len(masks)}")
    for j, c2 in enumerate(order):
        v = val[c2][names[key]].astype(float) / (1 if gains is None else gains[j])
        far = (np.abs(v - lo) > .01) & (np.abs(v - hi) > .01)
        ctx.same(masks[j][far], ((v >= lo) & (v <= hi) & good[c2])[far], "mask by pulse size")
    ctx.check(ctx.raises(lambda: g.make_masks(), ValueError) is not None, "no range is an error", "")
    # energies to a text file: of good channels and pulses
    en = {c2: rng.uniform(500, 9000, len(good[c2])).astype(np.float32) for c2 in order}
    for c2 in order:
        g.channel[c2].p_energy[:] = en[c2]
    p = os.path.join(ctx.tmp, "out")
    g.save_pulse_energies_ascii(p)
    want = np.hstack([en[c2][good[c2]] for c2 in usable])
    with open(p + ".energies") as fh:
        got = [float(q) for q in fh.read().split()]
    ctx.close(got, want, "energies in a text file", rtol=1e-9, atol=0) if len(want) else ctx.check(not got, "energies in a text file", "")
    # names
    for c2 in order:
        d2 = g.channel[c2]
        for o in (d2, d2.pulse_records):
            ctx.check(os.path.basename(d2.filename) in repr(o) and f"{d2.nSamples} samples ({d2.nPresamples} " in str(o), "description of a channel", str(o))
            ctx.check(f"{1e6 * g.timebase:.2f}" in str(o), "sample time in the description", str(o))
    ctx.check(g.shortname == f"run, {len(usable)} chans", "short name of a group", g.shortname)
    ctx.check(g.num_good_channels == len(usable) and g.good_channels == usable, "good channels", "")
    ctx.check(g.first_good_dataset.channum == usable[0], "first good dataset", "")
    offs = {g.channel[c2].timestamp_offset for c2 in usable}
    ctx.check(g.timestamp_offset == (offs.pop() if len(offs) == 1 else None), "time stamp offset of a group", "")
    if any(good[c2].any() and not good[c2].all() for c2 in order):
        ctx.nontrivial(tuple(ctx.case["chans"]), tuple(ctx.case["good"]))
    ctx.count("channels reported", len(order))
    vg.close_group(g)


@monitor(40, 400)
def pages2(ctx):
    """Pages of scatter plots and histograms hold every good channel once, in files named for the page."""
    plt = plt_()
    rng = ctx.rng
    g, val, good, f, order, usable = make(ctx, nchan=int(rng.integers(1, 8)))
    shape = [(1, 1), (2, 1), (2, 2), (1, 3), (3, 4)][int(rng.integers(5))]
    per = shape[0] * shape[1]
    seen = []
    files = []
    from matplotlib.figure import Figure
    real = Figure.savefig

    def grab(fig, name, *a, **k):
        whole = not isinstance(name, str)
        files.append("one file" if whole else os.path.basename(name))
        seen.append([(ax.get_title(), xy(ax), [(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches], ax.get_xlabel(), ax.get_ylabel(), ax.get_xlim(), ax.get_ylim()) for ax in fig.axes])
        if whole:
            return real(fig, name, *a, **k)
        with open(name, "w") as fh:
            fh.write("page")
    hist = bool(rng.random() < .5)
    lines = {c: [float(q) for q in rng.uniform(0, 5000, int(rng.integers(0, 3)))] for c in order} if rng.random() < .4 else None
    suf = None if rng.random() < .5 else "abc"
    fm = "png" if rng.random() < .7 else "pdf"
    ctx.case.update(shape=shape, hist=hist, lines=lines is not None, suffix=suf, fmt=fm)
    if hist and lines is not None and any(not good[c].any() for c in usable):
        lines = None
    one = fm == "pdf" and bool(rng.random() < .4)
    kw = dict(subplot_shape=shape, fileformat=fm)
    if one:
        kw["one_file"] = True
    if suf:
        kw["suffix"] = suf
    if lines is not None:
        kw["lines"] = lines
    os.chdir(ctx.tmp)
    Figure.savefig = grab
    try:
        if hist:
            q = VEC[int(rng.integers(5))]
            nb = int(rng.integers(2, 30))
            vr = (float(rng.uniform(0, 1000)), float(rng.uniform(2000, 5000)))
            g.plot_histogram_pages(q, vr, nb, **kw)
            stem = f"{q}-hist-"
        else:
            xa, ya = ["p_timestamp", "p_pretrig_mean"][int(rng.integers(2))], VEC[int(rng.integers(4))]
            down = int(rng.choice([1, 2, 10]))
            if down != 10:
                kw["down"] = down
            rg = (10., 4000.) if rng.random() < .4 else None
            if rg:
                kw["y_range"] = rg
                if xa != "p_timestamp":
                    kw["x_range"] = (5., 3000.)
            g.plot_summary_pages(xa, ya, **kw)
            stem = f"{ya}.vs.{xa}-"
    finally:
        Figure.savefig = real
        os.chdir("/")
    npages = -(-len(usable) // per)
    suff = suf or "run_chan%d.ljh" % order[0]
    if one:
        ctx.check(files == ["one file"] * npages, "every page is in the one file", f"{files}")
        ctx.check([q for q in os.listdir(ctx.tmp) if q.endswith(".pdf")] == [f"{stem}{suff[:15]}.pdf"], "name of the one file", "")
    else:
        ctx.check(files == [f"{stem}{suff[:15]}-{i + 1:03d}.{fm}" for i in range(npages)], "a file for each page", f"{files}")
    panels = [p for pg in seen for p in pg]
    ctx.check([len(pg) for pg in seen] == [min(per, len(usable) - i * per) for i in range(npages)], "panels on each page", f"{[len(pg) for pg in seen]}")
    for c, (title, got, bars, xl, yl, xlim, ylim) in zip(usable, panels):
        ctx.check(title.endswith(str(c)) and not title[:-len(str(c))][-1].isdigit(), "panel names its channel", title)
        gm = good[c]
        extra = lines[c] if lines is not None else []
        if hist:
            v = val[c][q].astype(float)[gm]
            n, e = np.histogram(np.asarray(v, np.float32), nb, range=vr)
            ctx.close([b[2] for b in bars], n, "bars of the histogram", rtol=0, atol=0)
            ctx.close([b[0] for b in bars], e[:-1], "bins of the histogram", rtol=1e-6, atol=1e-6)
            ctx.check(xl == q, "what is on the axis", xl)
            ctx.check(len(got) == len(extra), "reference lines", f"{len(got)}")
            rest = got
        else:
            T = (val[c]["ts"] - val[c]["ts"][0]) / 3600 if xa == "p_timestamp" else val[c][xa].astype(float)
            Y = val[c][ya].astype(float)
            ctx.check(len(got) == 2 + len(extra), "cut and good pulses, and reference lines", f"{len(got)}")
            for (x, y), m in zip(got, (~gm, gm)):
                ctx.close(x, T[m][::down], "x values on a page", rtol=1e-6, atol=1e-6)
                ctx.close(y, Y[m][::down], "y values on a page", rtol=1e-6, atol=1e-6)
            ctx.check(yl == ya and xl == ("Time (hours)" if xa == "p_timestamp" else xa), "what is on the axes", xl + yl)
            if rg:
                ctx.close(ylim, rg, "y limits", rtol=1e-9, atol=0)
                if xa != "p_timestamp":
                    ctx.close(xlim, (5., 3000.), "x limits", rtol=1e-9, atol=0)
            rest = got[2:]
        for (x, y), w in zip(rest, extra):
            ctx.close(y, [w, w], "reference line", rtol=1e-9, atol=0)
    ctx.nontrivial(len(usable), shape, hist, fm)
    ctx.count("pages", npages)
    plt.close("all")
    vg.close_group(g)
