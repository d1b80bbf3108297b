"""C09: filtered pulse heights and phases equal the filter definition record by record."""
import os

import numpy as np

from vlib import group, ljh
from vlib.core import monitor

BUILD = "fast"
RULE = ("A case writes LJH files of ordinary and hostile records, gives every channel a random, an optimal or a constant-insensitive filter (5-lag or arrival-time-safe, with or without the 1-sample shift), filters with the "
        "cython or numpy implementation and any segment size, and recomputes value and phase of every record in float64. Metamorphic files add constants, scale records, reorder and subset them. OFF files made from records through an orthonormal basis must give the five-lag results of the records their coefficients stand for. Non-trivial = a compared record.")
ASSUMPTIONS = ["stored values are float32 and compared at that precision relative to the size of the intermediate sums; phases are compared where the parabola is well determined",
               "records where the five inner products are collinear have no defined peak"]
FIT = np.array([(-6, 24, 34, 24, -6), (-14, -7, 0, 7, 14), (10, -5, -10, -5, 10)]) / 70.0


def ref5(x, f, eps=2e-14):
    """value, phase, tolerance of the value, and of the phase, from an independent quadratic fit."""
    x = x.astype(np.float64)
    m = len(f)
    c = np.array([x[:, i:i + m] @ f for i in range(5)])
    V = np.vander(np.arange(-2, 3.), 3, increasing=True)
    p = np.linalg.lstsq(V, c, rcond=None)[0]
    with np.errstate(all="ignore"):
        ph = -0.5 * p[1] / p[2]
        v = p[0] - 0.25 * p[1]**2 / p[2]
        mag = (np.abs(x) @ np.abs(np.r_[f, np.zeros(4)])) * eps + 1e-300   # rounding of the sums
        v = np.where(np.abs(p[2]) > 1e3 * mag, v, np.nan)
        eb = mag * (1 / np.abs(p[2]) + np.abs(p[1]) / p[2]**2)
        ev = mag * (1 + np.abs(p[1] / p[2]) + (p[1] / p[2])**2)
    k = 50 if eps < 1e-10 else 3
    return v, ph, k * ev, k * eb


def compare(ctx, ds, v, ph, ev, ep, mech=""):
    gv, gp = np.array(ds.p_filt_value[:]), np.array(ds.p_filt_phase[:])
    ctx.check(gv.shape == v.shape == gp.shape, "length" + mech, f"{gv.shape} values for {v.shape} records")
    with np.errstate(all="ignore"):
        fin = np.isfinite(v) & (ev < 0.05 * np.abs(v) + 1e-3)
        bad = fin & ~(np.abs(gv - v) <= ev + 4e-7 * np.abs(v) + 1e-30)
        ctx.check(not bad.any(), "value" + mech, f"filtered value of {bad.sum()} of {fin.sum()} records, e.g. #{bad.argmax()}: {gv[bad.argmax()]} != {v[bad.argmax()]}")
        fin &= np.isfinite(ph) & (ep < 0.05)
        bad = fin & ~(np.abs(gp - ph) <= ep + 4e-7 * np.abs(ph) + 1e-12)
        ctx.check(not bad.any(), "phase" + mech, f"filtered phase of {bad.sum()} of {fin.sum()} records, e.g. #{bad.argmax()}: {gp[bad.argmax()]} != {ph[bad.argmax()]}")
    ctx.count("records", len(v))
    ctx.count("records compared", int(fin.sum()))


def make_filter(mass, rng, ns, npre, kind):
    """A filter of the kind's length."""
    m = {"5lag": ns - 4, "ats": ns - 1, "ats0": ns}[kind]
    style = rng.integers(0, 3)
    s = group.template(ns, npre)
    if style == 0:
        f = rng.normal(size=m)
    elif style == 1:
        off = (ns - m) // 2
        f = s[off:off + m] - s[off:off + m].mean()
    else:
        f = rng.normal(size=m)
        f -= f.mean()
    f = f * 10.0**rng.uniform(-4, 1)
    d = rng.normal(size=m) if kind != "5lag" else None
    return mass.Filter(f, 1.0, 1.0, 1.0, d, None, None, None, 5 if kind == "5lag" else 1, _filter_type="5lag" if kind == "5lag" else "ats")


def hostile(rng, n, ns, npre):
    s = group.template(ns, npre)
    x = rng.normal(float(rng.choice([0, 1000, 2000, 40000])), 4, size=(n, ns)) + rng.uniform(0, 6000, size=n)[:, None] * s
    k = rng.random(n)
    x[k < 0.05] = 0
    x[(k > 0.05) & (k < 0.08)] = 65535
    w = (k > 0.08) & (k < 0.12)
    x[w] = rng.integers(0, 65536, size=(w.sum(), ns))
    w = (k > 0.12) & (k < 0.2)
    x[w] += 5000 * np.roll(s, 15)
    return np.clip(np.round(x), 0, 65535).astype(np.uint16)


def write(ctx, name, chans, npre):
    for ch, x in chans.items():
        ljh.write22(os.path.join(ctx.tmp, f"{name}_chan{ch}.ljh"), x, npre=npre, timebase=1e-5, channum=ch, rows=8, row=ch % 8)
    return dict(pulse=[os.path.join(ctx.tmp, f"{name}_chan{ch}.ljh") for ch in chans], noise=[], dir=ctx.tmp)


def setup(ctx, name, chans, npre, filters, seg=None, invert=False, cut=None):
    import mass
    f = write(ctx, name, chans, npre)
    h = os.path.join(ctx.tmp, name + ".hdf5")
    data = mass.TESGroup(f["pulse"], None, hdf5_filename=h)
    for ds in data:
        ds.invert_data = invert
        if seg:
            ds.pulse_records.set_segment_size(seg)
    data.summarize_data(use_cython=not invert)
    for ds in data:
        ds.filter = filters[ds.channum]
        ds._filter_type = ds.filter._filter_type
        if cut is not None and cut[ds.channum] is not None:
            ds.cuts.cut("pretrigger_rms", cut[ds.channum])
    return data


def raw(ds, x, invert):
    return ~x if invert else x


@monitor(90, 1500)
def definition(ctx):
    import mass
    rng = ctx.rng
    ns = int(rng.choice([16, 30, 50, 100]))
    npre = int(rng.integers(5, ns - 8))
    chans = {ch: hostile(rng, int(rng.choice([1, 2, 7, 40, 120])), ns, npre) for ch in (1, 2, 5)[:rng.integers(1, 4)]}
    kind = str(rng.choice(["5lag", "5lag", "ats", "ats0"]))
    filters = {ch: make_filter(mass, rng, ns, npre, kind) for ch in chans}
    inv = bool(rng.integers(0, 2))
    seg = int(rng.choice([0, 1, 3, 10])) * (16 + 2 * ns) or None
    cut = {ch: (rng.random(len(x)) < 0.4) if rng.random() < 0.5 else None for ch, x in chans.items()}
    cy = None if kind != "5lag" else [None, True, False][rng.integers(0, 3)]
    tr = rng.random() < 0.25
    trans = (lambda z: 2.0 * z + 1) if tr else None
    if tr and cy:
        cy = None
    ctx.case.update(ns=ns, npre=npre, kind=kind, n={c: len(x) for c, x in chans.items()}, seg=seg, invert=inv, cython=cy, transform=tr)
    data = setup(ctx, "a", chans, npre, filters, seg, inv, cut)
    with data.hdf5_file:
        good = {ds.channum: ds.good().copy() for ds in data}
        data.filter_data(transform=trans, use_cython=cy)
        for ds in data:
            x = raw(ds, chans[ds.channum], inv).astype(np.float64)
            if tr:
                x = 2.0 * (x - np.array(ds.p_pretrig_mean[:], dtype=np.float64)[:, None]) + 1
            f = ds.filter
            if kind == "5lag":
                compare(ctx, ds, *ref5(x, f.values, 2e-7 if tr else 2e-14))   # single precision pretrigger means
            else:
                sh = np.array(ds.p_shift1[:], dtype=bool)
                y = x if kind == "ats0" else np.where(sh[:, None], x[:, :-1], x[:, 1:])
                v, d = y @ f.values, y @ f.dt_values
                ev = (3e-7 if tr else 1e-13) * (np.abs(y) @ np.abs(f.values)) + 1e-300
                ed = (3e-7 if tr else 1e-13) * (np.abs(y) @ np.abs(f.dt_values))
                with np.errstate(all="ignore"):
                    compare(ctx, ds, v, d / v, ev, ed / np.abs(v) + np.abs(d) * ev / v**2)
                    ctx.count("shifted records", int(sh.sum()))
            ctx.same(ds.good(), good[ds.channum], "cuts-changed")
            ctx.nontrivial(ctx.index, ds.channum, x.tobytes())
        group.close_group(data)


@monitor(50, 700)
def invariances(ctx):
    """Constants, scale, order, subsets, implementations, repeated calls."""
    import mass
    rng = ctx.rng
    ns = int(rng.choice([30, 50, 100]))
    npre = int(rng.integers(8, ns - 12))
    n = int(rng.choice([3, 20, 60]))
    s = group.template(ns, npre)
    amp = rng.integers(50, 200, size=n)
    x = np.round(200 + 40 * amp[:, None] * s / 4 + rng.normal(0, 2, size=(n, ns))).astype(np.int64)
    f = {"5lag": ns - 4, "ats0": ns}
    kind = str(rng.choice(list(f)))
    m = f[kind]
    off = (ns - m) // 2
    v = s[off:off + m] + rng.normal(size=m) * 0.05
    v -= v.mean()
    d = np.gradient(s)[off:off + m]
    d = d - d.mean()
    flt = mass.Filter(v, 1.0, 1.0, 1.0, d, None, None, None, 5 if kind == "5lag" else 1, _filter_type="5lag" if kind == "5lag" else "ats")
    const = rng.integers(-150, 5000, size=n)
    perm = rng.permutation(n)
    sub = np.sort(rng.choice(n, size=max(1, n // 3), replace=False))
    k = int(rng.integers(2, 8))
    chans = {1: x, 2: x + const[:, None], 3: x * k, 4: x[perm], 5: x[sub]}
    chans = {c: np.clip(a, 0, 65535).astype(np.uint16) for c, a in chans.items()}
    ctx.case.update(ns=ns, npre=npre, n=n, kind=kind, k=k)
    data = setup(ctx, "b", chans, npre, {c: flt for c in chans}, int(rng.choice([0, 2, 5])) * (16 + 2 * ns) or None)
    with data.hdf5_file:
        cy = None if kind != "5lag" else bool(rng.integers(0, 2))
        data.filter_data(use_cython=cy)
        V = {ds.channum: np.array(ds.p_filt_value[:], dtype=float) for ds in data}
        P = {ds.channum: np.array(ds.p_filt_phase[:], dtype=float) for ds in data}
        size = np.abs(V[1]).max()
        ctx.close(V[2], V[1], "constant-added", rtol=1e-5, atol=1e-6 * size)
        ctx.close(P[2], P[1], "constant-added-phase", rtol=1e-4, atol=1e-4)
        ctx.close(V[3], k * V[1], "scaled", rtol=1e-5, atol=1e-6 * size)
        ctx.close(P[3], P[1], "scaled-phase", rtol=1e-4, atol=1e-4)
        ctx.close(V[4], V[1][perm], "reordered", rtol=1e-6)
        ctx.close(P[4], P[1][perm], "reordered-phase", rtol=1e-5, atol=1e-6)
        ctx.close(V[5], V[1][sub], "subset", rtol=1e-6)
        # again without forceNew: nothing changes; with another filter and forceNew: everything is recomputed
        data.filter_data(use_cython=cy)
        for ds in data:
            ctx.same(np.array(ds.p_filt_value[:], dtype=float), V[ds.channum], "repeat")
            ds.filter = mass.Filter(3 * v, 1.0, 1.0, 1.0, d, None, None, None, flt.convolution_lags, _filter_type=flt._filter_type)
        data.filter_data(use_cython=cy)
        for ds in data:
            ctx.same(np.array(ds.p_filt_value[:], dtype=float), V[ds.channum], "repeat-no-force")
        data.filter_data(use_cython=None if cy is None else not cy, forceNew=True)
        for ds in data:
            ctx.close(np.array(ds.p_filt_value[:], dtype=float), 3 * V[ds.channum], "forced", rtol=1e-5, atol=1e-5 * size)
        ctx.nontrivial(ctx.index, kind, x.tobytes())
        group.close_group(data)


@monitor(12, 120)
def optimal(ctx):
    """Filters made by the group itself: the template's pulse height is recovered, cut or not."""
    rng = ctx.rng
    ns, npre = 100, 30
    f = group.make_files(ctx, [1, 3], n=60, nnoise=60, ns=ns, npre=npre, noise=1.0)
    data = group.open_group(f, None, True)
    with data.hdf5_file, data.hdf5_noisefile:
        data.summarize_data()
        data.compute_noise(max_excursion=10000)
        for ds in data:
            ds.noise_autocorr[:] = 0
            ds.noise_autocorr[0] = 1.0
            ds.cuts.cut("pretrigger_rms", rng.random(ds.nPulses) < 0.3)
        data.avg_pulses_auto_masks()
        kind = str(rng.choice(["5lag", "ats", "ats0"]))
        if kind == "5lag":
            data.compute_5lag_filter()
        else:
            data.compute_ats_filter(shift1=kind == "ats", optimize_dp_dt=False)
        data.filter_data()
        for ds in data:
            x = f["truth"][ds.channum]["data"].astype(float)
            true = f["truth"][ds.channum]["amp"]
            v = np.array(ds.p_filt_value[:], dtype=float)
            r = v / true
            ctx.check(np.all(np.abs(r / np.median(r) - 1) < 0.01), "amplitude", f"{kind}: filtered values are proportional to true amplitudes, ratio {r.min()}..{r.max()}")
            # within a percent of the amplitude (the template's sampling doesn't hit its own maximum)
            ctx.check(abs(np.median(r) - 1) < 0.03, "amplitude-scale", f"{kind}: median filtered value over true amplitude {np.median(r)}")
            if kind == "5lag":
                compare(ctx, ds, *ref5(x, ds.filter.values))
            ctx.nontrivial(ctx.index, ds.channum, kind)
        group.close_group(data)


@monitor(60, 600)
def refused(ctx):
    """Filters of the wrong length never produce values."""
    import mass
    rng = ctx.rng
    ns, npre = 40, 12
    x = hostile(rng, 5, ns, npre)
    m = int(rng.choice([ns - 6, ns - 5, ns - 3, ns - 2, ns + 1]))
    flt = mass.Filter(np.ones(m), 1, 1, 1, None, None, None, None, 5, _filter_type="5lag")
    data = setup(ctx, "c", {1: x}, npre, {1: flt})
    with data.hdf5_file:
        ds = data.channel[1]
        for cy in (True, False):
            ctx.check(ctx.raises(lambda: ds.filter_data(use_cython=cy, forceNew=True)) is not None, "wrong-length", f"a {m}-sample 5-lag filter for {ns}-sample records")
            ctx.check(np.all(ds.p_filt_value[:] == 0), "wrong-length-values", "no values stored")
        ds._filter_type = "ats"
        ctx.check(ctx.raises(lambda: ds.filter_data(use_cython=True)) is not None, "ats-cython", "not available")
        ctx.nontrivial(m, ctx.index)
        group.close_group(data)


@monitor(40, 800)
def off5lag(ctx):
    """Five-lag values and phases of OFF records are those of the records that their coefficients stand for."""
    import h5py
    import mass
    from vlib import off as vo
    rng = ctx.rng
    ns, nb = int(rng.integers(12, 120)), int(rng.integers(3, 9))
    npre = ns // 3
    chans = sorted(int(c) for c in rng.choice(np.arange(1, 30), int(rng.integers(1, 4)), replace=False))
    complete = bool(rng.random() < .4)     # five more elements hold whatever the lagged filters see of a record
    if complete:
        nb = max(nb, 3)
    s = group.template(ns, npre)
    paths, truth = [], {}
    model_path = os.path.join(ctx.tmp, "models.hdf5")
    with h5py.File(model_path, "w") as h5:
        for ch in [*chans, 99]:
            B = rng.normal(size=(ns, nb))
            B[:, 0], B[:, 1], B[:, 2] = 1, np.gradient(s), s
            B = np.linalg.qr(B)[0]
            P = B.T.copy()
            f = rng.normal(size=ns - 4) if rng.random() < .5 else (s - s.mean())[2:-2] * rng.uniform(.1, 3)
            n = int(rng.integers(1, 60))
            raw = rng.uniform(0, 3000) + rng.uniform(500, 5000, n)[:, None] * np.array([np.interp(np.arange(ns) + q, np.arange(ns), s) for q in rng.uniform(-.6, .6, n)]) + rng.normal(0, 5, (n, ns))
            if complete:
                F = np.zeros((ns, 5))
                for i in range(5):
                    F[i:ns - 4 + i, i] = f
                P2 = P.copy()
                P2[2, 2:-2] = f    # (the constructor takes its filter from the third projector)
                m = mass.PulseModel(P2, B, nb + 5, raw.T, 1., 1., 1., "f", 5, f, s, np.ones(5), 1., np.ones(5))
                Q = np.linalg.qr(np.hstack([B, F]))[0]
                B, P = Q, Q.T.copy()
                m.basis, m.projectors, m.n_basis = B, P, Q.shape[1]
            else:
                m = mass.PulseModel(P, B, nb, raw.T, 1., 1., 1., "f", 0, f, s, np.ones(5), 1., np.ones(5))
            m.toHDF5(h5.create_group(str(ch)), False)
            if ch == 99:
                continue
            k = B.shape[1]
            co = (raw @ P.T).astype(np.float32)
            r = vo.records(rng, n, nb=k, ns=ns, npre=npre)
            r["pulseMean"] = co[:, 0]
            r["derivativeLike"], r["filtValue"] = co[:, 1], co[:, 2]
            if k > 3:
                r["extraCoefs"] = co[:, 3:]
            p = os.path.join(ctx.tmp, f"run_chan{ch}.off")
            vo.write(p, r, nb=k, ns=ns, projectors=P, basis=B)
            paths.append(p)
            truth[ch] = (B, co, f, raw)
    t0 = vo.T0
    vo.states(os.path.join(ctx.tmp, "run_experiment_state.txt"), [(t0 - 100, "START"), (t0 - 50, "A")])
    data = mass.off.ChannelGroup([paths[i] for i in rng.permutation(len(paths))], verbose=False)
    models = data.add5LagRecipes(model_path)
    ctx.check(sorted(models) == sorted([*chans, 99]), "off5lag models", f"{sorted(models)}")
    ctx.case.update(ns=ns, nb=nb, chans=chans, complete=complete)
    for ch, ds in data.items():
        B, co, f, raw = truth[ch]
        y = co.astype(float) @ B.T
        v, ph, ev, ep = ref5(raw if complete else y, f, 4e-7)
        # (coefficients are single precision: where they matter the tolerance has their size)
        sel = [slice(None), slice(0, None, 2), "A"][int(rng.integers(3))]
        sl = slice(None) if isinstance(sel, str) else sel
        gv, gp, cba = (ds.getAttr(q, sel, "cutNone") for q in ("filtValue5Lag", "peakX5Lag", "cba5Lag"))
        v, ph, ev, ep = v[sl], ph[sl], ev[sl], ep[sl]
        ctx.check(cba.shape == (len(v), 3) and len(gv) == len(gp) == len(v), "off5lag length", f"{cba.shape} {len(gv)} for {len(v)}")
        with np.errstate(all="ignore"):
            fin = np.isfinite(v) & (ev < .02 * np.abs(v) + 1e-3)
            bad = fin & ~(np.abs(gv - v) <= ev + 1e-9 * np.abs(v))
            ctx.check(not bad.any(), "off5lag value", f"channel {ch}: five-lag value of {bad.sum()} of {fin.sum()} records, e.g. {gv[bad.argmax()]} for {v[bad.argmax()]}")
            fin &= np.isfinite(ph) & (ep < .02)
            bad = fin & ~(np.abs(gp - ph) <= ep + 1e-9)
            ctx.check(not bad.any(), "off5lag phase", f"channel {ch}: five-lag phase of {bad.sum()} of {fin.sum()} records, e.g. {gp[bad.argmax()]} for {ph[bad.argmax()]}")
        ctx.count("OFF records", len(v))
        ctx.count("OFF records compared", int(fin.sum()))
        if fin.any():
            ctx.nontrivial("off5lag", ns // 30, nb, complete)
