"""C17: pulse-to-external-trigger timing is exact nearest-neighbour arithmetic."""
import os

import numpy as np

from vlib import group as vg
from vlib import ljh as vl
from vlib import off as vo
from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case has pulses and external triggers at random times (none, one, few, thousands; before, between, after, at the same time; duplicates; equal spacing; values beyond 2^53), as arrays, as LJH files with binary or HDF5 trigger files, or as OFF files; "
        "the oracle searches all triggers for each pulse. Non-trivial = pulses before, between and after triggers.")
ASSUMPTIONS = ["pulse and trigger times are each in order, as the docstring requires", "a trigger at the very time of a pulse counts as the last, not as the next one", "no earlier (later) trigger is reported as the largest int64"]
MAXV = np.iinfo(np.int64).max


def brute(p, t):
    """Exhaustive search, in Python integers."""
    t = [int(x) for x in t]
    a, b = [], []
    for x in (int(v) for v in p):
        a.append(min((x - y for y in t if y <= x), default=MAXV))
        b.append(min((y - x for y in t if y > x), default=MAXV))
    return np.array(a, np.int64), np.array(b, np.int64)


def times(rng, n, big, kind):
    if kind == 0:
        v = np.sort(rng.integers(0, max(4 * n, 4), n))           # crowded: ties
    elif kind == 1:
        v = np.cumsum(rng.integers(1, 100000, n)) if n else np.array([], int)
    elif kind == 2:
        v = np.arange(n) * 1000                                   # regular
    else:
        v = np.sort(rng.integers(0, 1 << 40, n))
    return v.astype(np.int64) + big


def same2(ctx, got, want, what):
    ctx.check(len(got) == 2, what + " shape", "")
    for g, w, k in zip(got, want, ("since the last", "until the next")):
        ctx.check(np.asarray(g).dtype == np.int64, what + " dtype", f"{np.asarray(g).dtype}")
        ctx.same(np.asarray(g), w, f"{what}: delay {k} trigger")


@monitor(3000, 60000)
def arrivals(ctx):
    from mass.core import analysis_algorithms as aa
    rng = ctx.rng
    big = int(rng.choice([0, 0, 1 << 55, -(1 << 50), 10**15]))
    kind = int(rng.integers(4))
    n = int(rng.choice([0, 1, 2, 3, int(rng.integers(4, 300))]))
    m = int(rng.choice([0, 1, 2, 3, int(rng.integers(4, 300))]))
    p, t = times(rng, n, big, kind), times(rng, m, big, kind)
    mode = int(rng.integers(6))
    if mode == 0 and n and m:
        p = p + (int(t[-1]) - int(p[0])) + int(rng.integers(-1, 2))    # all at or after the last trigger
    elif mode == 1 and n and m:
        p = p - (int(p[-1]) - int(t[0])) + int(rng.integers(-1, 2))    # all before
    elif mode == 2 and n and m:
        p = np.sort(rng.choice(t, n))                                  # all at triggers
    elif mode == 3 and n and m:
        p = np.sort(rng.choice(t, n) + rng.integers(-1, 2, n))
    elif mode == 4 and m > 1:
        t = np.sort(rng.choice(t, m))                                  # repeated triggers
    ctx.case = dict(p=p[:40].tolist(), t=t[:40].tolist(), n=n, m=m)
    p0, t0 = p.copy(), t.copy()
    want = brute(p, t)
    same2(ctx, aa.nearest_arrivals(p, t), want, "compiled")
    same2(ctx, aa.python_nearest_arrivals(p, t), want, "python")
    ctx.same(p, p0, "pulse times unmodified")
    ctx.same(t, t0, "trigger times unmodified")
    # batches of pulses
    cuts = np.sort(rng.integers(0, n + 1, int(rng.integers(1, 4))))
    parts = [aa.nearest_arrivals(q, t) for q in np.split(p, cuts)]
    same2(ctx, [np.hstack([x[k] for x in parts]).astype(np.int64) for k in (0, 1)], want, "in batches")
    # batches of triggers: the best of the parts
    parts = [aa.nearest_arrivals(p, q) for q in np.split(t, np.sort(rng.integers(0, m + 1, 2)))]
    if n:
        same2(ctx, [np.min([x[k] for x in parts], axis=0) for k in (0, 1)], want, "triggers in batches")
    # strided views
    p2, t2 = np.repeat(p, 2)[::2], np.repeat(t, 3)[::3]
    same2(ctx, aa.nearest_arrivals(p2, t2), want, "strided")
    if n and m and want[0].max() == MAXV and want[1].max() == MAXV and np.any((want[0] < MAXV) & (want[1] < MAXV)):
        ctx.nontrivial(n, m, kind, big)


def trigger_times(rng, sub, k):
    lo, hi = int(sub.min()), int(sub.max())
    span = max(hi - lo, 10)
    t = np.concatenate([rng.integers(lo - span // 10, hi + span // 10, k), rng.choice(sub, min(3, len(sub)))]) if k else np.array([], int)
    if rng.random() < .3:
        t = t[(t > lo + span // 4)]
    if rng.random() < .3:
        t = t[(t < hi - span // 4)]
    return np.sort(np.clip(t, 0, None)).astype(np.int64)


@monitor(120, 1500)
def ljh_groups(ctx):
    import h5py
    import mass
    rng = ctx.rng
    chans = sorted(int(c) for c in rng.choice([1, 2, 5, 12], int(rng.integers(1, 4)), replace=False))
    rows = int(rng.choice([1, 8, 32]))
    subdiv = [None, 16, 64][int(rng.integers(3))]
    timebase = float(rng.choice([1e-5, 9.6e-6]))
    n = {c: int(rng.integers(1, 200)) for c in chans}
    f = vg.make_files(ctx, chans=chans, n=n, nnoise=0, ns=30, npre=10, rows=rows, subdiv=subdiv, timebase=timebase, tag=str(rng.choice(["run", "r_chan7x", "20240101_run0001"])))
    subs = {c: f["truth"][c]["sub"] for c in chans}
    t = trigger_times(rng, np.concatenate(list(subs.values())), int(rng.choice([0, 1, 2, 60, 3000])))
    base = f["pulse"][0].rsplit("_chan", 1)[0]
    how = str(rng.choice(["hdf5", "hdf5offset", "bin", "binrow", "both", "torn"]))
    divs = subdiv or rows
    if how.startswith("hdf5") or how == "both":
        with h5py.File(base + "_external_trig.hdf5", "w") as h:
            if how == "hdf5offset":
                h["trig_times_w_offsets"] = t
                h["trig_times"] = t - 17
            else:
                h["trig_times"] = t
    if how in ("bin", "binrow", "both", "torn"):
        head = b"# external trigger subframe counts as int64\n"
        if how == "binrow":
            divs = int(rng.choice([divs, 4 * divs]))
            head = b"# external trigger rowcounts (nrow=%d)\n" % divs
        with open(base + "_external_trigger.bin", "wb") as fp:
            fp.write(head + (t if how != "both" else t + 5).tobytes() + (b"\1\2\3" if how == "torn" else b""))
    ctx.case = dict(chans=chans, rows=rows, subdiv=subdiv, n=n, triggers=len(t), how=how)
    want = {c: brute(subs[c], t) for c in chans}

    def verify(g, what):
        for c in chans:
            ds = g.channel[c]
            ctx.check(c in [d.channum for d in g], "channel marked bad", f"{g.why_chan_bad}")
            ctx.same(ds.p_subframecount[:], subs[c], what + " subframe counts")
            same2(ctx, (ds.subframes_after_last_external_trigger[:], ds.subframes_until_next_external_trigger[:]), want[c], what + " TESGroup")
            ctx.same(ds.subframes_from_nearest_external_trigger[:], np.minimum(*want[c]), what + " nearest")
    g = vg.open_group(f, noise=False)
    ds0 = g.channel[chans[0]]
    ctx.check(ctx.raises(lambda: ds0.subframes_after_last_external_trigger, ValueError) is not None, "timing before it is computed", "")
    g.summarize_data()
    early = rng.random() < .5
    if early:
        ctx.same(np.asarray(g.external_trigger_subframe_count[:]), t, "external triggers")
    g.calc_external_trigger_timing()
    verify(g, "first")
    ctx.same(np.asarray(g.external_trigger_subframe_count[:]), t, "external triggers")
    ctx.close(np.asarray(g.external_trigger_subframe_as_seconds), t * timebase / divs, "external triggers in seconds", 1e-12)
    ctx.check(abs(g.subframe_timebase * divs - timebase) < 1e-12 * timebase, "subframe period", f"{g.subframe_timebase}")
    for c in chans:
        ctx.close(g.channel[c].subframe_timebase, timebase / divs, "subframe period of a channel", 1e-12)
        ctx.check(g.channel[c].subframe_divisions == divs, "subframe divisions", f"{g.channel[c].subframe_divisions}")
    # computed once unless forced
    ds0.hdf5_group["subframes_until_next_external_trigger"][0] = -5
    g.calc_external_trigger_timing()
    ctx.check(ds0.subframes_until_next_external_trigger[0] == -5, "recomputed unasked", "")
    g.calc_external_trigger_timing(forceNew=True)
    verify(g, "forced")
    vg.close_group(g)
    g = vg.open_group(f, noise=False)
    verify(g, "reopened")
    if early:
        g.calc_external_trigger_timing(forceNew=bool(rng.random() < .5))
        verify(g, "reopened and repeated")
    vg.close_group(g)
    if len(t) > 1:
        ctx.nontrivial(how, len(chans), divs, len(t), len(subs[chans[0]]))


@monitor(120, 1500)
def off_groups(ctx):
    import mass
    rng = ctx.rng
    chans = sorted(int(c) for c in rng.choice([1, 2, 5, 12], int(rng.integers(1, 4)), replace=False))
    rows = int(rng.choice([1, 8, 32]))
    subdiv = [None, 16, 64][int(rng.integers(3))]
    frame = float(rng.choice([1e-5, 9.6e-6]))
    kw = dict(rows=rows, subdiv=subdiv, frame=frame)
    if rng.random() < .3:
        kw["subkey"] = "SubframeDivsions"
    divs = subdiv or rows
    files = vo.make(ctx, chans=chans, n={c: int(rng.integers(1, 300)) for c in chans}, tag=str(rng.choice(["run", "r_chan7x"])), **kw)
    subs = {c: r["framecount"].astype(np.int64) * divs for c, r in files["recs"].items()}
    t = trigger_times(rng, np.concatenate(list(subs.values())), int(rng.choice([0, 1, 2, 60, 3000])))
    base = files["paths"][0].rsplit("_chan", 1)[0]
    with open(base + "_external_trigger.bin", "wb") as fp:
        fp.write(b"# external trigger (nrow=%d)\n" % divs + t.tobytes())
    ctx.case = dict(chans=chans, rows=rows, subdiv=subdiv, triggers=len(t), key=kw.get("subkey"))
    data = mass.off.ChannelGroup(files["paths"], verbose=False)
    flags = [bool(x) for x in rng.random(3) < .8]
    data.calcExternalTriggerTiming(after_last=flags[0], until_next=flags[1], from_nearest=flags[2])
    period = frame / divs
    ctx.check(len(data.keys()) == len(chans), "channels lost", "")
    for c, ds in data.items():
        ctx.check(ds.subframeDivisions == divs, "subframe divisions", f"{ds.subframeDivisions}")
        ctx.close(ds.subframePeriodSeconds, period, "subframe period", 1e-12)
        ctx.same(np.asarray(ds.subframecount), subs[c], "subframe counts")
        ctx.same(np.asarray(ds.rowcount), subs[c], "row counts")
        a, b = brute(subs[c], t)
        for on, name, w in zip(flags, ("after_last", "until_next", "from_nearest"), (a, b, np.minimum(a, b))):
            have = hasattr(ds, f"subframes_{name}_external_trigger")
            ctx.check(have == on, "requested delays", f"{name} {have}")
            if on:
                ctx.same(np.asarray(getattr(ds, f"subframes_{name}_external_trigger")), w, "OFF delay " + name)
                ctx.close(np.asarray(getattr(ds, f"seconds_{name}_external_trigger")), w * period, "OFF delay in seconds", 1e-12)
    if len(t) > 1:
        ctx.nontrivial(len(chans), divs, len(t), len(subs[chans[0]]))


@monitor(20, 150)
def converted(ctx):
    """LJH files converted to OFF keep the time of their records, to a frame."""
    import mass
    rng = ctx.rng
    rows = int(rng.choice([1, 8, 32]))
    subdiv = [None, 16, 64][int(rng.integers(3))]
    divs = subdiv or rows
    n = int(rng.integers(1, 150))
    f = vg.make_files(ctx, chans=(3,), n=n, nnoise=0, ns=30, npre=10, rows=rows, subdiv=subdiv)
    sub = f["truth"][3]["sub"]
    t = trigger_times(rng, sub, 50)
    ctx.case = dict(rows=rows, subdiv=subdiv, n=n)
    off = os.path.join(ctx.tmp, "conv_chan3.off")
    P = np.zeros((3, 30))
    P[0] = 1 / 30.
    mass.core.ljh2off.ljh2off(f["pulse"][0], off, P, np.linalg.pinv(P), 0, "none")
    vo.states(os.path.join(ctx.tmp, "conv_experiment_state.txt"), [(1, "START")])
    with open(os.path.join(ctx.tmp, "conv_external_trigger.bin"), "wb") as fp:
        fp.write(b"# comment\n" + t.tobytes())
    data = mass.off.ChannelGroup([off], verbose=False)
    data.calcExternalTriggerTiming(after_last=True, until_next=True, from_nearest=True)
    ds = data[3]
    ctx.same(np.asarray(ds.subframecount), sub // divs * divs, "subframe counts of converted files")
    a, b = brute(sub // divs * divs, t)
    ctx.same(np.asarray(ds.subframes_after_last_external_trigger), a, "converted: after last")
    ctx.same(np.asarray(ds.subframes_until_next_external_trigger), b, "converted: until next")
    ctx.close(np.asarray(ds.seconds_from_nearest_external_trigger), np.minimum(a, b) * 1e-5 / divs, "converted: seconds", 1e-12)
    ctx.nontrivial(divs, n)
