"""C11: one bad channel never affects the others, and counts are conserved."""
import os
from collections import OrderedDict

import numpy as np

from vlib import group, ljh, off, snap as c10
from vlib.core import monitor

BUILD = "fast"
RULE = ("Cases: random histories of marking channels good/bad (with reopening) against a model; group-wide analysis steps on generated LJH or OFF files in which a random subset of channels fails at a random point "
        "(poisoned attribute raising any kind of exception, or pathological files) compared bit for bit with the same channels analysed without them; histograms of adversarial values (NaN, inf, on edges) against a "
        "counting loop, for channels and groups. Non-trivial = a distinct history, failure or histogram.")
ASSUMPTIONS = ["the group loop swallows a channel's exceptions by default outside pytest (documented: `_rethrow`)", "histogram bins follow numpy: half open, the last one closed"]


class Boom(Exception):
    pass


EXC = [lambda: ValueError("no µ-pulses"), lambda: KeyError("x"), lambda: ZeroDivisionError(), lambda: Boom("boom\nline 2"), lambda: AssertionError(), lambda: OSError(5, "disk"), lambda: np.linalg.LinAlgError("singular"),
       lambda: MemoryError(), lambda: RuntimeError("näh"), lambda: NotImplementedError(), lambda: UnicodeDecodeError("ascii", b"\xff", 0, 1, "bad")]


@monitor(120, 1200)
def marks(ctx):
    """Random set_chan_bad/set_chan_good histories of a TESGroup against a model."""
    import mass
    rng = ctx.rng
    chans = sorted(int(x) for x in rng.choice(np.arange(1, 40), int(rng.integers(1, 6)), replace=False))
    f = group.make_files(ctx, chans, n={c: int(rng.integers(1, 9)) for c in chans}, nnoise=2, ns=20, npre=5)
    npulses = {c: len(f["truth"][c]["data"]) for c in chans}
    allchans = list(chans)
    if len(chans) > 1 and rng.random() < 0.25:  # a file without records makes no channel
        c = int(rng.choice(chans))
        i = chans.index(c)
        with open(f["pulse"][i], "rb") as fp:
            raw = fp.read()
        with open(f["pulse"][i], "wb") as fp:
            fp.write(raw[:raw.index(b"#End of Header") + 15])
        chans = [x for x in chans if x != c]
        npulses.pop(c)
        ctx.count("empty_files")
    perm = list(rng.permutation(len(allchans)))
    if rng.random() < 0.5:
        f["pulse"] = [f["pulse"][i] for i in perm]
    noise = rng.random() < 0.5
    g = group.open_group(f, noise=noise)
    order = [ds.channum for ds in g.datasets]
    ctx.check(sorted(order) == chans, "channels", f"{order} vs {chans}")
    ctx.check([ds.nPulses for ds in g.datasets] == [npulses[c] for c in order] and g.nPulses == max(npulses.values()), "nPulses", f"{g.nPulses} for {npulses}")
    e = ctx.raises(lambda: g.set_chan_bad([chans[0], 77], "why"), KeyError)
    ctx.check(e is not None and not g.why_chan_bad and g.good_channels == order, "unknown channel", f"marked bad: {g.why_chan_bad}")
    bad = OrderedDict()
    log = []
    for step in range(int(rng.integers(3, 14))):
        op = rng.choice(["bad", "bad", "badlist", "good", "goodlist", "allgood", "reopen", "compute"])
        pick = [int(c) for c in rng.choice(chans, int(rng.integers(1, len(chans) + 1)), replace=False)]
        why = str(rng.choice(["noisy", "", "hot pixel", "µ", "a, b", "x" * 300]))
        if op == "bad":
            g.set_chan_bad(pick[0], why)
            bad[pick[0]] = bad.get(pick[0], []) + [why]
        elif op == "badlist":
            form = rng.integers(0, 4)
            args = [[pick, why], [why, pick], [*pick, why], [set(pick[:1]), np.array(pick), why]][form]
            g.set_chan_bad(*args)
            for c in pick:
                bad[c] = bad.get(c, []) + [why]
        elif op == "good":
            g.set_chan_good(pick[0])
            bad.pop(pick[0], None)
        elif op == "goodlist":
            g.set_chan_good(*pick) if rng.random() < 0.5 else g.set_chan_good(pick)
            for c in pick:
                bad.pop(c, None)
        elif op == "allgood":
            g.set_all_chan_good()
            bad.clear()
        elif op == "reopen":
            group.close_group(g)
            g = group.open_group(f, noise=noise)
        elif op == "compute":
            g.assume_white_noise(noise_variance=float(step + 1), forceNew=True)
            for ds in g.datasets:
                ctx.check((ds.noise_autocorr[0] == step + 1) == (ds.channum not in bad), "visits", f"group step visited chan {ds.channum}: {ds.channum in bad} bad")
        log.append(op)
        good = [c for c in order if c not in bad]
        ctx.check(g.good_channels == good, "good_channels", f"{log}: {g.good_channels} != {good}")
        ctx.check([ds.channum for ds in g] == good, "iter", f"{log}")
        ctx.check([ds.channum for ds in g.iter_channels()] == good and [ds.channum for ds in g.iter_channels(include_badchan=True)] == order, "iter_channels", f"{log}")
        ctx.check(list(g.iter_channel_numbers()) == good and list(g.iter_channel_numbers(include_badchan=True)) == order, "iter_channel_numbers", f"{log}")
        ctx.check(g.num_good_channels == len(good) and g.n_good_channels() == len(good), "num_good", f"{log}")
        ctx.check({k: [x.rstrip("\0") for x in v] for k, v in g.why_chan_bad.items()} == dict(bad), "why_chan_bad", f"{log}: {g.why_chan_bad} != {dict(bad)}")
        w = g.why_chan_bad
        w.clear()
        ctx.check(len(g.why_chan_bad) == len(bad), "why_chan_bad copy", "clearing the returned dict cleared the group's")
        ctx.check(set(g.channel) == set(chans) and all(g.channel[c].channum == c for c in chans), "channel dict", f"{log}")
        if good:
            ctx.check(g.first_good_dataset.channum == good[0], "first_good", f"{log}")
        else:
            ctx.raises(lambda: g.first_good_dataset, IndexError)
        ctx.count("marking steps")
    ctx.nontrivial(tuple(log), tuple(order))
    group.close_group(g)


def poison(ds, names, k, exc):
    """After k accesses to any of the named attributes of ds, raise."""
    base = type(ds)
    left = [k]

    class Poisoned(base):
        def __getattribute__(self, name):
            if name in names:
                left[0] -= 1
                if left[0] < 0:
                    raise exc()
            return base.__getattribute__(self, name)
    ds.__class__ = Poisoned
    return left


NAMES = {"noise_records", "noise_autocorr", "noise_psd", "nPulses", "cuts", "p_pulse_average", "data", "p_filt_value", "p_filt_value_dc", "p_pretrig_mean", "p_timestamp", "calibration", "average_pulse", "p_pulse_rms",
         "p_promptness", "filter", "nPresamples", "timebase", "p_peak_index", "saved_auto_cuts", "p_energy", "p_filt_phase", "pulse_records"}


def groupsteps(rng):
    s = [("compute_noise", {}), ("summarize_data", {}), ("auto_cuts", {}), ("avg_pulses_auto_masks", {})]
    s.append(("compute_5lag_filter", {}) if rng.random() < 0.5 else ("compute_ats_filter", dict(optimize_dp_dt=False)))
    s += [("filter_data", {}), ("drift_correct", {})]
    if rng.random() < 0.4:
        s.append(("time_drift_correct", dict(attr="p_filt_value_dc")))
    if rng.random() < 0.5:
        s.append(("smart_cuts", {}))
    if rng.random() < 0.5:
        s.append(("correct_flux_jumps", dict(flux_quant=4096)))
    if rng.random() < 0.5:
        s.insert(3, ("apply_cuts", dict(controls=None)))
    return s


def rungroup(g, steps, hook=lambda i: None):
    for i, (name, kw) in enumerate(steps):
        hook(i)
        kw = dict(kw)
        if name == "apply_cuts":
            import mass
            kw["controls"] = mass.AnalysisControl(pulse_average=(0, None))
        getattr(g, name)(**kw)


@monitor(40, 300)
def failing_step(ctx):
    """A step that fails on some channels marks exactly those and leaves the others as if alone."""
    import mass
    rng = ctx.rng
    chans = sorted(int(x) for x in rng.choice(np.arange(1, 30), int(rng.integers(2, 5)), replace=False))
    f = group.make_files(ctx, chans, n=int(rng.integers(60, 110)), nnoise=20, ns=60, npre=20, noise=6.0)
    steps = groupsteps(rng)
    victims = {int(c): (int(rng.integers(0, len(steps))), int(rng.integers(0, 6))) for c in rng.choice(chans, int(rng.integers(1, len(chans))), replace=False)}
    excs = {c: EXC[int(rng.integers(0, len(EXC)))] for c in victims}
    ctx.case.update(chans=chans, victims=victims, steps=[s[0] for s in steps])
    g = group.open_group(f, os.path.join(ctx.tmp, "a.hdf5"))
    left = {}
    failed_at = {}
    before = {}

    def hook(i):
        for c, (at, k) in victims.items():
            if c in left and left[c][0] < 0 and c not in failed_at:
                failed_at[c] = i - 1
                ctx.check(c in g.why_chan_bad, "not marked", f"chan {c} failed in {steps[i - 1][0]} but is not marked bad")
            if at == i:
                left[c] = poison(g.channel[c], NAMES, k, excs[c])
        before[i] = [c for c in chans if c not in g.why_chan_bad]
    rungroup(g, steps, hook)
    hook_end = {c for c in left if left[c][0] < 0}
    ok = [c for c in chans if c not in victims]
    marked = sorted(g.why_chan_bad)
    ctx.check(hook_end == {c for c in marked if c in victims and (c in hook_end or c in left and left[c][0] < 0)} and hook_end <= set(marked), "marked", f"marked bad {marked}, failed {sorted(hook_end)}")
    for c in hook_end:
        msg = str(excs[c]())
        ctx.check(any(msg in w or "flux jumps" in w for w in g.why_chan_bad[c]), "reason", f"chan {c}: {msg!r} not in {g.why_chan_bad[c]!r:.300}")
        ctx.nontrivial(tuple(x[0] for x in steps), victims[c], type(excs[c]()).__name__)
        ctx.count("channel failures")
    okbad = {c: g.why_chan_bad[c][-1].splitlines()[-1] for c in ok if c in g.why_chan_bad}
    a = {c: c10.snap(g, g.channel[c]) for c in ok}
    group.close_group(g)
    # the same without the victims
    f2 = dict(f, pulse=[p for p, c in zip(f["pulse"], chans) if c in ok], noise=[p for p, c in zip(f["noise"], chans) if c in ok])
    g = group.open_group(f2, os.path.join(ctx.tmp, "b.hdf5"))
    rungroup(g, steps)
    b = {c: c10.snap(g, g.channel[c]) for c in ok}
    okbad2 = {c: g.why_chan_bad[c][-1].splitlines()[-1] for c in ok if c in g.why_chan_bad}
    ctx.check(set(okbad) == set(okbad2), "healthy marked", f"channels that do not fail alone: marked bad {okbad}, alone {okbad2}")
    group.close_group(g)
    c10.compare_all(ctx, a, b, "isolation", "compared with an analysis without the failing channels")
    # bad status and reason persist
    g = group.open_group(f, os.path.join(ctx.tmp, "a.hdf5"))
    ctx.check(sorted(g.why_chan_bad) == marked, "marked persist", f"after reopening {sorted(g.why_chan_bad)}, before {marked}")
    group.close_group(g)


@monitor(30, 250)
def pathological(ctx):
    """Channels with hostile files among healthy ones."""
    import mass
    rng = ctx.rng
    chans = sorted(int(x) for x in rng.choice(np.arange(1, 30), int(rng.integers(2, 4)), replace=False))
    f = group.make_files(ctx, chans, n=int(rng.integers(60, 110)), nnoise=20, ns=60, npre=20, noise=6.0)
    steps = groupsteps(rng)
    badch = [int(c) + 50 for c in rng.choice(np.arange(1, 20), int(rng.integers(1, 3)), replace=False)]
    kinds = []
    for c in badch:
        kind = str(rng.choice(["zeros", "saturated", "one record", "empty", "noise only", "two", "constant", "short noise"]))
        kinds.append(kind)
        n = {"one record": 1, "empty": 0, "two": 2}.get(kind, 40)
        x = np.zeros((n, 60), np.uint16)
        if kind == "saturated":
            x[:] = 65535
        elif kind in ("noise only", "one record", "two", "short noise"):
            x[:] = 1000 + rng.integers(-5, 6, size=x.shape)
        elif kind == "constant":
            x[:] = 777
        p = os.path.join(ctx.tmp, f"run_chan{c}.ljh")
        ljh.write22(p, x, np.arange(n) * 1000, 1_600_000_000_000_000 + np.arange(n) * 10000, npre=20, channum=c, timebase=1e-5)
        z = np.zeros((1 if kind == "short noise" else 8, 60), np.uint16)
        q = os.path.join(ctx.tmp, f"run_noise_chan{c}.ljh")
        ljh.write22(q, z, npre=20, channum=c, timebase=1e-5)
        pos = int(rng.integers(0, len(f["pulse"]) + 1))
        f["pulse"].insert(pos, p)
        f["noise"].insert(pos, q)
    ctx.case.update(kinds=kinds, steps=[s[0] for s in steps])
    g = group.open_group(f, os.path.join(ctx.tmp, "a.hdf5"))
    rungroup(g, steps)
    goodwith = [c for c in chans if c in g.good_channels]
    a = {c: c10.snap(g, g.channel[c]) for c in chans}
    ctx.count("hostile channels", len(kinds))
    ctx.count("hostile channels marked bad", len(g.why_chan_bad))
    bins = np.linspace(0, 9000, 30)
    _, tot = g.hist(bins, "p_filt_value")
    _, per = g.hists(bins, "p_filt_value")
    ctx.check(set(per) == set(g.good_channels), "hists channels", f"{sorted(per)} vs {g.good_channels}")
    ctx.same(tot, sum(per.values()), "group hist")
    group.close_group(g)
    f2 = dict(f, pulse=[p for p in f["pulse"] if int(p.split("chan")[-1][:-4]) in chans], noise=[p for p in f["noise"] if int(p.split("chan")[-1][:-4]) in chans])
    g = group.open_group(f2, os.path.join(ctx.tmp, "b.hdf5"))
    rungroup(g, steps)
    b = {c: c10.snap(g, g.channel[c]) for c in chans}
    goodalone = [c for c in chans if c in g.good_channels]
    ctx.check(goodwith == goodalone, "healthy marked", f"good with hostile channels {goodwith}, alone {goodalone}")
    group.close_group(g)
    c10.compare_all(ctx, a, b, "isolation hostile", f"with hostile channels {kinds}")
    ctx.nontrivial(tuple(kinds), tuple(x[0] for x in steps))


@monitor(20, 100)
def interrupts(ctx):
    """KeyboardInterrupt and _rethrow=True propagate; the latter marks nothing bad that did not fail."""
    rng = ctx.rng
    chans = [1, 2, 3]
    f = group.make_files(ctx, chans, n=30, nnoise=8, ns=40, npre=10)
    g = group.open_group(f)
    v = int(rng.choice(chans))
    mode = str(rng.choice(["ki", "rethrow"]))
    poison(g.channel[v], {"noise_autocorr"}, 0, KeyboardInterrupt if mode == "ki" else lambda: Boom("x"))
    try:
        g.assume_white_noise(noise_variance=3.0, forceNew=True, **({"_rethrow": True} if mode == "rethrow" else {}))
        ctx.fail("swallowed", f"{mode} was swallowed by the group loop")
    except (KeyboardInterrupt, Boom):
        pass
    for c in chans:
        if c < v:
            ctx.check(g.channel[c].noise_autocorr[0] == 3.0, "before", f"chan {c} before the interrupt")
    ctx.check(all(c == v for c in g.why_chan_bad), "marked healthy", f"{g.why_chan_bad.keys()}")
    ctx.nontrivial(mode, v)
    group.close_group(g)


def countloop(v, edges):
    n = np.zeros(len(edges) - 1, dtype=int)
    for x in v:
        if np.isnan(x):
            continue
        for i in range(len(edges) - 1):
            if edges[i] <= x < edges[i + 1] or (i == len(edges) - 2 and x == edges[-1]):
                n[i] += 1
                break
    return n


def edges_of(rng, values):
    kind = rng.integers(0, 4)
    fin = values[np.isfinite(values)]
    lo, hi = (fin.min(), fin.max()) if len(fin) else (0, 1)
    if kind == 0:
        e = np.linspace(lo, hi, int(rng.integers(2, 40)))
    elif kind == 1:
        e = np.unique(np.r_[lo, rng.choice(fin, min(len(fin), 8)), hi]) if len(fin) else np.array([0., 1])
    elif kind == 2:
        e = np.arange(int(lo) - 3, int(hi) + 5, max(1, int((hi - lo) / 17)))
    else:
        e = np.sort(rng.uniform(lo - 1, hi + 1, int(rng.integers(2, 12))))
    if len(e) < 2 or not (np.diff(e) > 0).all():
        e = np.array([lo - 1, lo, hi + 1])
    return list(e) if rng.random() < 0.3 else e


def values_of(rng, n):
    v = rng.choice([100., 200., 250.], n) + rng.choice([0, .5, 1, -1, 2.25], n)
    k = rng.random(n)
    v[k < 0.05] = np.nan
    v[(k > 0.05) & (k < 0.08)] = np.inf
    v[(k > 0.08) & (k < 0.1)] = -np.inf
    v[(k > 0.1) & (k < 0.12)] = 1e30
    return v.astype(np.float32)


@monitor(60, 600)
def tes_hist(ctx):
    """MicrocalDataSet.hist, TESGroup.hist and hists against a counting loop."""
    rng = ctx.rng
    chans = sorted(int(x) for x in rng.choice(np.arange(1, 30), int(rng.integers(1, 5)), replace=False))
    n = {c: int(rng.integers(1, 60)) for c in chans}
    f = group.make_files(ctx, chans, n=n, nnoise=0, ns=10, npre=3)
    g = group.open_group(f, noise=False)
    g.register_categorical_cut_field("side", ["A", "B"])
    vals, ok, t = {}, {}, {}
    for ds in g.datasets:
        c = ds.channum
        vals[c] = values_of(rng, n[c])
        ds.p_energy[:] = vals[c]
        ds.p_filt_value[:] = 5
        t[c] = np.cumsum(rng.choice([0.5, 1.0, 1.0, 2.0], n[c])) + 100
        ds.p_timestamp[:] = t[c]
        b = rng.random(n[c]) < 0.2
        ds.cuts.cut("pretrigger_rms", b)
        side = rng.integers(0, 3, n[c])
        ds.cuts.cut_categorical("side", {"A": side == 1, "B": side == 2})
        ok[c] = (~b, side)
    marked = [c for c in chans if rng.random() < 0.25]
    for c in marked:
        g.set_chan_bad(c, "x")
    e = edges_of(rng, np.concatenate([vals[c] for c in chans]))
    kw, sel = {}, {}
    cat = str(rng.choice(["none", "A", "B", "uncategorized"]))
    if cat != "none":
        kw["category"] = {"side": cat}
    t0, t1 = 0, 1e20
    if rng.random() < 0.6:
        t0 = float(rng.integers(99, 140))
        kw["t0"] = t0
    if rng.random() < 0.6:
        t1 = float(rng.integers(100, 170))
        kw["tlast"] = t1
    if rng.random() < 0.4:
        kw["g_func"] = lambda ds: np.arange(ds.nPulses) % 2 == 0
    for c in chans:
        m = ok[c][0] & (t[c] > t0) & (t[c] < t1)
        if cat != "none":
            m &= ok[c][1] == {"uncategorized": 0, "A": 1, "B": 2}[cat]
        if "g_func" in kw:
            m &= np.arange(n[c]) % 2 == 0
        sel[c] = countloop(vals[c][m].astype(float), np.asarray(e))
    ec = np.array(e, copy=True)
    for ds in g.datasets:
        bc, k = ds.hist(e, **kw)
        ctx.same(k, sel[ds.channum], "ds.hist")
        ctx.close(bc, 0.5 * (np.asarray(e)[1:] + np.asarray(e)[:-1]), "centers", rtol=1e-12)
    bc, d = g.hists(e, **kw)
    good = [c for c in chans if c not in marked]
    ctx.check(sorted(d) == good, "hists keys", f"{sorted(d)} vs {good}")
    for c in d:
        ctx.same(d[c], sel[c], "hists")
    bc, k = g.hist(e, **kw)
    ctx.same(k, sum([sel[c] for c in good], np.zeros(len(e) - 1, int)), "group.hist")
    ctx.check(np.array_equal(ec, e), "edges changed")
    ctx.count("events histogrammed", int(sum(s.sum() for s in sel.values())))
    ctx.nontrivial(tuple(map(float, e))[:6], cat, tuple(sorted(kw)), int(k.sum()))
    group.close_group(g)


@monitor(80, 800)
def off_group(ctx):
    """OFF ChannelGroups: marking histories, isolation in the group loop, histograms."""
    import mass
    rng = ctx.rng
    chans = sorted(int(x) for x in rng.choice(np.arange(1, 30), int(rng.integers(2, 6)), replace=False))
    f = off.make(ctx, chans, n={c: int(rng.integers(5, 80)) for c in chans}, nstates=int(rng.integers(1, 7)))
    order = list(rng.permutation(chans))
    paths = [f["paths"][chans.index(c)] for c in order]
    data = mass.off.ChannelGroup(paths, verbose=False)
    order = [int(c) for c in order]
    bad = OrderedDict()
    log = []

    def verify(where):
        good = [c for c in order if c not in bad]
        ctx.check(list(data.keys()) == good and list(data) == good and len(data) == len(good), "off keys", f"{log} {where}: {list(data.keys())} vs {good}")
        ctx.check([ds.channum for ds in data.values()] == good and [c for c, _ in data.items()] == good, "off values", f"{log} {where}")
        with data.includeBad():
            ctx.check(list(data.keys()) == order and len(data) == len(order) and [ds.channum for ds in data.values()] == order, "off includeBad", f"{log} {where}")
            w = data.whyChanBad
            ctx.check(list(data.keys()) == order, "off includeBad nested", f"{log} {where}: whyChanBad inside includeBad() changed the iteration: {list(data.keys())} vs {order}")
        ctx.check(list(data.keys()) == good, "off after includeBad", f"{log} {where}")
        ctx.check(dict(w) == dict(bad) and list(w) == [c for c in order if c in bad], "off whyChanBad", f"{log} {where}: {w} vs {bad}")
        if good:
            ctx.check(data.firstGoodChannel().channum == good[0], "off firstGood", f"{log} {where}")
        else:
            ctx.raises(lambda: data.firstGoodChannel(), Exception)
        ctx.check(all(data[c].channum == c for c in order), "off getitem")

    class Fail:
        def __init__(self, ch, exc):
            self.ch, self.exc = ch, exc

    for step in range(int(rng.integers(3, 9))):
        op = str(rng.choice(["bad", "good", "all", "loop", "loop", "nest"]))
        c = int(rng.choice(chans))
        if op == "bad":
            data[c].markBad("why µ", extraInfo=rng.choice([None, 3]))
            bad[c] = "why µ"
        elif op == "good":
            data[c].markGood()
            bad.pop(c, None)
        elif op == "all":
            data.markAllGood()
            bad.clear()
        elif op == "nest":
            try:
                with data.includeBad():
                    raise Boom()
            except Boom:
                pass
        else:
            victims = {int(x): EXC[int(rng.integers(0, len(EXC)))] for x in rng.choice(chans, int(rng.integers(0, len(chans))), replace=False)}
            name = f"cutV{ctx.index}_{step}"
            base = type(next(iter(dict.values(data))))
            saved = {}
            for v, ex in victims.items():
                saved[v] = poison(data[v], {"recipes"}, 0, ex)
            good = [x for x in order if x not in bad]
            data.cutAdd(name, lambda filtValue: filtValue > 4000)
            for v in victims:
                data[v].__class__ = base
                if v in good:
                    ctx.check(data[v].markedBadBool, "off not marked", f"chan {v} failed but is not marked bad")
                    bad[v] = data[v].markedBadReason if data[v].markedBadBool else "?"
                    ctx.check(str(victims[v]()) in str(bad[v]) and "cutAdd" in str(bad[v]), "off reason", f"{bad[v]!r} does not tell {victims[v]()!r}")
                    ctx.count("off channel failures")
            for x in order:
                has = name in data[x].recipes.keys()
                ctx.check(has == (x in good and x not in victims), "off visited", f"group loop on chan {x}: done={has}, good={x in good}, failing={x in victims}")
        log.append(op)
        verify("")
    # histograms
    data.markAllGood()
    bad.clear()
    for c in chans:
        if rng.random() < 0.3 and len(bad) + 1 < len(chans):
            data[c].markBad("h")
            bad[c] = "h"
    good = [c for c in order if c not in bad]
    with data.includeBad():
        data.cutAdd("cutH", lambda filtValue: (filtValue.astype(int) % 3) != 0, overwrite=True)
        if rng.random() < 0.3:
            data.cutSetDefault("cutH")
            default = "cutH"
        else:
            default = "cutNone"
    st = {c: off.truth_state(f["recs"][c]["unixnano"], f["entries"]) for c in chans}
    labels = [x for x in dict.fromkeys(lab for _, lab in f["entries"])]
    labels = [x for x in labels if x != "START"] or labels
    for k in range(4):
        attr = str(rng.choice(["filtValue", "pretriggerMean", "residualStdDev", "relTimeSec"]))
        allv = np.concatenate([np.asarray(data[c].getAttr(attr, slice(None), "cutNone")).astype(float) for c in good])
        e = edges_of(rng, allv)
        cut = [None, "cutNone", "cutH", "!cutH"][int(rng.integers(0, 4))]
        eff = cut or default
        states = None if rng.random() < 0.3 else (str(rng.choice(labels)) if rng.random() < 0.5 else [str(x) for x in rng.choice(labels, int(rng.integers(1, len(labels) + 1)), replace=False)])
        want = {}
        for c in order:
            r = f["recs"][c]
            v = (np.asarray(data[c].getAttr(attr, slice(None), "cutNone")) if attr == "relTimeSec" else r[attr])
            m = np.ones(len(r), bool)
            if states is not None:
                m &= np.isin(st[c].astype(str), [states] if isinstance(states, str) else states)
            h = (r["filtValue"].astype(int) % 3) != 0
            m &= {"cutNone": np.ones(len(r), bool), "cutH": h, "!cutH": ~h}[eff]
            want[c] = countloop(np.asarray(v)[m].astype(float) if attr == "relTimeSec" else np.asarray(v)[m], np.asarray(e))
            present = states is None or all(s in data[c].statesDict for s in ([states] if isinstance(states, str) else states))
            if present:
                bc, got = data[c].hist(e, attr, states=states, cutRecipeName=cut)
                ctx.same(got, want[c], "off ds.hist")
        bc, got = data.hist(e, attr, states=states, cutRecipeName=cut)
        ctx.same(got, sum([want[c] for c in good], np.zeros(len(e) - 1, int)), "off group.hist")
        bc, d = data.hists(e, attr, states=states, cutRecipeName=cut)
        ctx.check(list(d) == good, "off hists keys", f"{list(d)} {good}")
        ctx.count("off histograms")
        ctx.nontrivial(attr, str(states), str(cut), int(got.sum()))
