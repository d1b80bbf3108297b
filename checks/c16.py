"""C16: every record belongs to the experiment state in force at its time."""
import os
import warnings

import numpy as np

from vlib import group, ljh, off
from vlib.core import monitor

BUILD = "fast"
RULE = ("Cases: random experiment-state logs (repeated, empty, excluded, aliased, equal or ns-adjacent entries) and time sequences, assigned at once or while log and data grow in random order with random refreshes; "
        "each record's state is found by a linear scan through the log. Non-trivial = a distinct (log, growth schedule) with at least one record in a listed state.")
ASSUMPTIONS = ["log entries are written in time order, as whole lines", "records are in time order", "a record at exactly the time of an entry belongs to that entry's state",
               "LJH times are kept in float64 seconds, so times within 1 us of an entry are not judged for LJH files"]
LABELS = ["A", "B", "C", "PAUSE", "CO2 on", "µ-Fe", "a.b", "STOP", "START", "END", "IGNORE"]
TRIVIAL = ["START", "STOP", "END", "IGNORE"]


def excluded(labels, ex):
    if ex == "auto":
        return TRIVIAL if any(x not in TRIVIAL for x in labels) else ["IGNORE"]
    return ex


def truth(times, entries, ex, alias=None):
    """State of each record, by a linear scan; "" for none."""
    alias = alias or {}
    bad = excluded([lab for _, lab in entries], ex)
    out = []
    for t in times:
        lab = ""
        for te, la in entries:
            if te <= t:
                lab = la
        out.append("" if lab in bad else alias.get(lab, lab))
    return np.array(out, dtype=object)


def order_of(entries, ex, alias=None):
    alias = alias or {}
    bad = excluded([lab for _, lab in entries], ex)
    return list(dict.fromkeys(alias.get(lab, lab) for _, lab in entries if lab not in bad))


def assigned(ctx, d, n, mech):
    """State of each record according to a statesDict."""
    got = np.array([""] * n, dtype=object)
    hits = np.zeros(n, int)
    for lab, v in d.items():
        for s in (v if isinstance(v, list) else [v]):
            ctx.check(isinstance(s, slice) and s.step is None and 0 <= s.start <= s.stop <= n, mech + " slice", f"{lab}: {s} for {n} records")
            hits[s] += 1
            got[s] = lab
    ctx.check((hits <= 1).all(), mech + " twice", f"records {np.nonzero(hits > 1)[0][:5]} are in several states: {dict(d)}")
    return got


def judge(ctx, d, times, entries, ex, mech, alias=None):
    got = assigned(ctx, d, len(times), mech)
    want = truth(times, entries, ex, alias)
    w = np.nonzero(got != want)[0]
    ctx.check(len(w) == 0, mech, f"{len(w)} of {len(times)} records misassigned; first {w[:1]}: got {got[w[:1]]} want {want[w[:1]]}; log {entries}, times {[int(t) for t in np.asarray(times)[w[:1]]]}, dict {dict(d)}")
    ctx.check(list(d) == order_of(entries, ex, alias), mech + " labels", f"states {list(d)}, want {order_of(entries, ex, alias)}")
    ctx.count("records assigned", len(times))
    return want


def random_log(rng, t0, span, n=None):
    n = int(rng.integers(1, 12)) if n is None else n
    kind = rng.integers(0, 4)
    labs = list(rng.choice(LABELS, int(rng.integers(1, 6)), replace=False))
    if kind == 0:
        labs = [x for x in labs if x in TRIVIAL] or ["START"]
    t = np.sort(rng.integers(t0 - span // 10, t0 + span + span // 10, n))
    if rng.random() < 0.3 and n > 1:
        k = int(rng.integers(1, n))
        t[k] = t[k - 1] + int(rng.integers(0, 3))
        t = np.sort(t)
    lab = [str(rng.choice(labs)) for _ in range(n)]
    if rng.random() < 0.6:
        lab[0] = "START"
    return [(int(a), b) for a, b in zip(t, lab)]


def random_times(rng, entries, t0, span, n=None):
    n = int(rng.integers(0, 60)) if n is None else n
    t = rng.integers(t0, t0 + span, n)
    if n and rng.random() < 0.7:  # at, just before and just after entries
        k = rng.integers(0, n, max(1, n // 3))
        t[k] = np.array([e[0] for e in entries])[rng.integers(0, len(entries), len(k))] + rng.integers(-1, 2, len(k)) * rng.choice([1, 1, 37, 100], len(k))
    return np.sort(t).astype(np.int64)


def some_ex(rng, entries):
    k = rng.integers(0, 4)
    labs = [lab for _, lab in entries]
    return ["auto", "auto", [], [str(x) for x in rng.choice(labs + ["nosuch"], int(rng.integers(1, 3)))]][k]


@monitor(600, 8000)
def at_once(ctx):
    """A whole log parsed and applied to all records."""
    import mass
    rng = ctx.rng
    t0, span = int(rng.choice([0, 1_600_000_000_000_000_000, 1_799_999_999_123_456_789])), int(rng.choice([1000, 10**9, 3 * 10**12]))
    entries = random_log(rng, t0 + span // 10, span)
    times = random_times(rng, entries, t0, span)
    ex = some_ex(rng, entries)
    ctx.case.update(entries=entries, ex=ex)
    p = os.path.join(ctx.tmp, "run_experiment_state.txt")
    sep = str(rng.choice([", ", ",", " , ", ",\t"]))
    with open(p, "w", encoding="utf-8") as fp:
        fp.write(str(rng.choice(["# unix time in nanoseconds, state label", "#"])) + "\n")
        fp.write("\n".join(f"{t}{sep}{lab}" for t, lab in entries) + ("\n" if rng.random() < 0.7 else ""))
    if rng.random() < 0.5:
        esf = mass.off.ExperimentStateFile(p, excludeStates=ex)
    else:
        esf = mass.off.ExperimentStateFile(datasetFilename=os.path.join(ctx.tmp, f"run_chan{int(rng.integers(1, 9999))}.{rng.choice(['off', 'ljh'])}"), excludeStates=ex)
        ctx.check(os.path.samefile(esf.filename, p), "filename", f"{esf.filename}")
    alias = {}
    if rng.random() < 0.4:
        labs = list(dict.fromkeys(lab for _, lab in entries))
        for k in range(int(rng.integers(1, 3))):
            new = str(rng.choice(["X", "Y", *labs]))
            if rng.random() < 0.5:
                old = str(rng.choice(labs))
                esf.aliasState(old, new)
                alias[old] = new
            else:
                olds = [str(x) for x in rng.choice(labs, int(rng.integers(1, len(labs) + 1)), replace=False)]
                esf.aliasState(olds, new)
                alias.update({x: new for x in olds})
    arg = [times, list(times), times.astype(float)][int(rng.integers(0, 3 if t0 == 0 else 2))]
    d = esf.calcStatesDict(arg)
    judge(ctx, d, times, entries, ex, "at once", alias)
    ctx.check(esf.labels == order_of(entries, ex, alias), "labels", f"{esf.labels}")
    # nothing new: parse again, recompute
    esf.parse()
    d2 = esf.calcStatesDict(times)
    ctx.check(dict(d) == dict(d2), "recompute", f"{d} then {d2}")
    ctx.nontrivial(str(entries), str(ex), len(times))


@monitor(500, 7000)
def incremental(ctx):
    """A statesDict updated with new records and new labels equals the one computed at the end."""
    import mass
    rng = ctx.rng
    t0, span = int(rng.choice([0, 1_600_000_000_000_000_000])), int(rng.choice([1000, 10**9]))
    entries = random_log(rng, t0, span, n=int(rng.integers(2, 12)))
    times = random_times(rng, entries, t0, span, n=int(rng.integers(1, 60)))
    ex = some_ex(rng, entries)
    if ex == "auto":
        ex = excluded([lab for _, lab in entries], ex)
    p = os.path.join(ctx.tmp, "run_experiment_state.txt")
    # a schedule on which each label is known before records of its time are assigned
    cuts = np.sort(rng.integers(t0 - span // 10, t0 + span + span // 10, int(rng.integers(1, 5))))
    cuts = [int(c) for c in cuts] + [10**19]
    known = 0
    done = 0
    d = None
    esf = None
    for c in cuts:
        upto_e = sum(1 for t, _ in entries if t <= c)
        upto_r = int((times <= c).sum())
        if upto_e == 0:
            continue
        off.states(p, entries[:upto_e])
        if esf is None:
            esf = mass.off.ExperimentStateFile(p, excludeStates=ex)
            d = esf.calcStatesDict(times[:upto_r])
        else:
            esf.parse()
            ctx.check(len(esf.allLabels) == upto_e and [int(t) for t in esf.unixnanos] == [t for t, _ in entries[:upto_e]], "parsed", f"{esf.allLabels} {esf.unixnanos}")
            if len(d) == 0 and known:
                d = esf.calcStatesDict(times[:upto_r])  # nothing to update yet
            else:
                d = esf.calcStatesDict(times[done:upto_r], d, known, done)
        known, done = upto_e, upto_r
        judge(ctx, d, times[:done], entries[:known], ex, "incremental")
        ctx.count("updates")
    ctx.nontrivial(str(entries), str(ex), str(cuts))


@monitor(150, 1500)
def refresh(ctx):
    """A ChannelGroup refreshed at random moments while OFF files and the log grow."""
    from mass.off import ChannelGroup
    rng = ctx.rng
    chans = sorted(int(x) for x in rng.choice(np.arange(1, 50), int(rng.integers(1, 4)), replace=False))
    span = 10**9
    entries = random_log(rng, off.T0, span, n=int(rng.integers(1, 10)))
    ex = some_ex(rng, entries)
    recs = {}
    for c in chans:
        n = int(rng.integers(3, 60))
        r = off.records(rng, n)
        r["unixnano"] = random_times(rng, entries, off.T0, span, n)
        recs[c] = r
    size = off.dtype().itemsize
    paths = {c: os.path.join(ctx.tmp, f"run_chan{c}.off") for c in chans}
    logp = os.path.join(ctx.tmp, "run_experiment_state.txt")
    kn = {c: int(rng.integers(1, len(recs[c]) + 1)) for c in chans}
    ke = int(rng.integers(1, len(entries) + 1))
    sched = []

    def put():
        for c in chans:
            extra = int(rng.integers(0, size)) if kn[c] < len(recs[c]) and rng.random() < 0.3 else 0
            data = off.header(3, 100) + recs[c][:kn[c] + 1].tobytes()[:kn[c] * size + extra]
            # grow in place, as a writer does
            with open(paths[c], "r+b" if os.path.exists(paths[c]) else "w+b") as fp:
                fp.write(data)
                fp.truncate()
        off.states(logp, entries[:ke])
    put()
    g = ChannelGroup([paths[c] for c in chans], verbose=False, excludeStates=ex)
    cur = dict(kn)
    curlog = ke
    badch = set()

    def verify(mech):
        want = {}
        with g.includeBad():
            for c in chans:
                ds = g[c]
                if c in badch:
                    continue
                ctx.check(len(ds) == cur[c], mech + " length", f"chan {c}: {len(ds)} records, {cur[c]} in the file")
                want[c] = judge(ctx, ds.statesDict, recs[c]["unixnano"][:cur[c]], entries[:curlog], ex, mech)
                for lab in ds.stateLabels:
                    m = want[c] == lab
                    x = ds.getAttr("filtValue", lab, "cutNone")
                    ctx.check(sorted(np.asarray(x).tolist()) == sorted(recs[c]["filtValue"][:cur[c]][m].tolist()), mech + " getAttr", f"chan {c} state {lab}: {len(x)} values, {m.sum()} records")
        return want
    for step in range(int(rng.integers(1, 7))):
        op = str(rng.choice(["look", "data", "log", "both", "none", "bad"]))
        sched.append(op)
        if op == "look":
            verify("look")
            continue
        if op == "bad" and len(chans) > 1:
            c = int(rng.choice(chans))
            if c in badch:
                with g.includeBad():
                    g[c].markGood()
                badch.discard(c)
            elif len(badch) + 1 < len(chans):
                g[c].markBad("test")
                badch.add(c)
        if op in ("data", "both"):
            for c in chans:
                kn[c] = int(rng.integers(kn[c], len(recs[c]) + 1))
        if op in ("log", "both"):
            ke = int(rng.integers(ke, len(entries) + 1))
        put()
        for _ in range(int(rng.integers(1, 3))):
            _, new = g.refreshFromFiles()
            good = [c for c in chans if c not in badch]
            ctx.check({c: int(v) for c, v in new.items()} == {c: kn[c] - cur[c] for c in good}, "new pulses", f"{dict(new)}, want {({c: kn[c] - cur[c] for c in good})}")
            for c in good:
                cur[c] = kn[c]
            curlog = ke
            ctx.count("refreshes")
        verify("refresh")
    ctx.case.update(entries=entries, ex=ex, sched=sched)
    # everything at the end
    kn = {c: len(recs[c]) for c in chans}
    ke = len(entries)
    put()
    g.markAllGood()
    badch.clear()
    g.refreshFromFiles()
    cur, curlog = dict(kn), ke
    want = verify("final")
    g2 = ChannelGroup([paths[c] for c in chans], verbose=False, excludeStates=ex)
    for c in chans:
        ctx.check(dict(g[c].statesDict) == dict(g2[c].statesDict), "vs fresh", f"chan {c}: grown {dict(g[c].statesDict)} fresh {dict(g2[c].statesDict)}")
    ctx.nontrivial(str(entries), str(ex), str(sched), sum(int((w != "").sum()) for w in want.values()))


@monitor(60, 600)
def ljh_group(ctx):
    """Categorical cut "state" of a TESGroup."""
    import mass
    rng = ctx.rng
    chans = sorted(int(x) for x in rng.choice(np.arange(1, 50), int(rng.integers(1, 3)), replace=False))
    span_us = 10**7
    t0 = 1_600_000_000_000_000
    entries = random_log(rng, t0 * 1000, span_us * 1000, n=int(rng.integers(1, 8)))
    entries = sorted((t // 1000 * 1000 + 500, lab) for t, lab in entries)  # entries halfway between microseconds
    entries = [e for i, e in enumerate(entries) if i == 0 or e[0] > entries[i - 1][0]]
    for i in range(len(entries)):
        for j in range(i):
            assert entries[j][0] < entries[i][0]
    ex = some_ex(rng, entries)
    files, tus = [], {}
    for c in chans:
        n = int(rng.integers(1, 60))
        t = np.sort(rng.integers(t0, t0 + span_us, n))
        k = rng.integers(0, n, n // 3)
        t[k] = np.array([e[0] for e in entries])[rng.integers(0, len(entries), len(k))] // 1000 + rng.integers(-2, 4, len(k))
        t = np.sort(t)
        tus[c] = t
        p = os.path.join(ctx.tmp, f"run_chan{c}.ljh")
        x = 1000 + rng.integers(-5, 5, size=(n, 20))
        x[:, 6:] += 500
        ljh.write22(p, x.astype(np.uint16), np.arange(n) * 1000, t, npre=5, channum=c, timebase=1e-5)
        files.append(p)
    logp = os.path.join(ctx.tmp, "run_experiment_state.txt" if rng.random() < 0.7 else "other.txt")
    off.states(logp, entries)
    kw = {} if logp.endswith("run_experiment_state.txt") else {"experimentStateFile": logp}
    h5 = os.path.join(ctx.tmp, "m.hdf5")
    ctx.case.update(entries=entries, ex=ex)

    def opengroup():
        g = mass.TESGroup(files, None, hdf5_filename=h5, hdf5_noisefilename=os.path.join(ctx.tmp, "n.hdf5"), excludeStates=ex, **kw)
        return g

    def verify(g, labels, mech):
        for c in chans:
            ds = g.channel[c]
            tn = tus[c] * 1000
            want = truth(tn, entries, ex)
            near = np.array([any(abs(int(t) - e[0]) < 900 for e in entries) for t in tn], bool)
            seen = np.zeros(len(tn), int)
            for lab in labels:
                m = ds.cuts.good(state=lab)
                seen += m
                w = np.nonzero((m != (want == lab)) & ~near)[0]
                ctx.check(len(w) == 0, mech, f"chan {c} state {lab}: records {w[:5]} in the state {m[w[:5]]}; times {tn[w[:5]]}; log {entries}")
            m = ds.cuts.good(state="uncategorized")
            seen += m
            ctx.check((seen == 1).all(), mech + " once", f"chan {c}: records in {sorted(set(seen.tolist()))} states")
            ctx.count("LJH records", len(tn))
            o = ds.toOffStyle()
            got = assigned(ctx, o.statesDict, len(tn), "offstyle")
            w = np.nonzero((got != want) & ~near)[0]
            whole = truth(tn // 10**9 * 10**9, entries, ex)
            if len(w) and (got == whole).all():
                ctx.fail("offstyle whole seconds", f"chan {c}: records {w[:5]} are in the state in force at the start of their second")
            else:
                ctx.check(len(w) == 0, "offstyle", f"chan {c}: {w[:5]}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = opengroup()
        g.summarize_data()
        labels = order_of(entries, ex)
        if not labels:
            group.close_group(g)
            return
        verify(g, labels, "ljh")
        if rng.random() < 0.5:
            g.summarize_data(forceNew=True)
            verify(g, labels, "ljh forced")
        # other cuts do not disturb it
        for c in chans:
            g.channel[c].cuts.cut("pretrigger_rms", rng.random(len(tus[c])) < 0.3)
        for c in chans:
            g.channel[c].cuts.clear_cut("pretrigger_rms")
        verify(g, labels, "ljh after cuts")
        group.close_group(g)
        g = opengroup()
        verify(g, labels, "ljh reopened")
        group.close_group(g)
        # the log grows; a new analysis of the old HDF5 file keeps the categories it knows right
        tl = max(entries[-1][0], t0 * 1000)
        room = (t0 + span_us) * 1000 - tl
        if room > 10**6:
            for k in range(int(rng.integers(1, 4))):
                tl += room // 5 // 1000 * 1000
                entries.append((tl, str(rng.choice(LABELS))))
            off.states(logp, entries)
            g = opengroup()
            g.summarize_data(forceNew=True)
            both = [x for x in labels if x in order_of(entries, ex)]
            for c in chans:
                tn = tus[c] * 1000
                want = truth(tn, entries, ex)
                near = np.array([any(abs(int(t) - e[0]) < 900 for e in entries) for t in tn], bool)
                for lab in both:
                    w = np.nonzero((g.channel[c].cuts.good(state=lab) != (want == lab)) & ~near)[0]
                    ctx.check(len(w) == 0, "ljh grown log", f"chan {c} state {lab}: records {w[:5]}")
            group.close_group(g)
    ctx.nontrivial(str(entries), str(ex))
