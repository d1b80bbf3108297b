"""C19: flux-jump removal shifts values only by whole flux quanta."""
import os

import numpy as np

from vlib import group as vg
from vlib import ljh as vl
from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case makes baselines (constant, trending, sinusoidal, noisy; good values spread over less than a quarter of a quantum), places them anywhere relative to multiples of the quantum, adds whole-quantum steps at random records and wild values in cut records, "
        "and corrects them as arrays or through a TESGroup; quotients by the quantum are checked to be integers and the good values to follow the true baseline up to one offset. Non-trivial = at least one step that makes the values span a quantum or more.")
ASSUMPTIONS = ["the good values' true spread is below a quarter of a quantum (above it, steps and baseline cannot be told apart by this method)", "at least one record is good", "values that span less than a quantum are taken to have no steps (documented in the code)"]


def baseline(rng, n, q):
    spread = q * float(rng.choice([0, .01, .1, .24]))
    x = np.arange(n) / max(n - 1, 1)
    kind = int(rng.integers(4))
    s = [np.zeros(n), x, .5 + .5 * np.sin(2 * np.pi * x * rng.uniform(.2, 20) + rng.uniform(0, 7)), rng.random(n)][kind]
    s = .7 * s + .3 * rng.random(n)
    c = q * float(rng.choice([0, 1, 3, 10])) + q * float(rng.choice([0, 1, -.001, .001, -.12, .12, .5, .25, .75, rng.random()])) + (q * 5 if rng.random() < .5 else 0)
    b = c + spread * (s - .5 * (rng.random() < .5))
    return b, spread


def make(rng, n, q):
    b, spread = baseline(rng, n, q)
    jumps = np.zeros(n, int)
    nj = int(rng.choice([0, 1, 1, 2, 5, 30]))
    for _ in range(nj):
        jumps[int(rng.integers(0, n)):] += int(rng.integers(-4, 5))
    good = np.ones(n, bool)
    wild = np.zeros(n)
    if rng.random() < .5:
        good = rng.random(n) < rng.choice([.3, .9, .98])
        good[int(rng.integers(n))] = True
        if rng.random() < .7:
            wild = np.where(good, 0, rng.uniform(0, 8 * q, n) * (rng.random(n) < .5))
    return b, jumps, good, wild


def judge(ctx, v, got, b, jumps, good, wild, q, eps, what):
    v64, g64 = np.asarray(v, float), np.asarray(got, float)
    ctx.check(g64.shape == v64.shape, what + " shape", f"{g64.shape}")
    ctx.check(bool(np.all(np.isfinite(g64))), what + " finite", "")
    tol = eps * 8 * (np.abs(v64).max() + 10 * q)
    k = (g64 - v64) / q
    r = np.abs(k - np.round(k)) * q
    ctx.check(bool(np.all(r <= tol)), what + ": shift by a whole number of quanta", f"residual {r.max()} quantum {q} tolerance {tol}")
    if np.max(v) - np.min(v) < q:      # in the precision of the data
        ctx.same(g64, v64, what + ": no jumps, unchanged")
        return
    off = g64[good] - b[good]
    off = off - off[0]
    ctx.check(bool(np.all(np.abs(off) <= 2 * tol)), what + ": steps undone", f"good values differ from the baseline by {off.min()}..{off.max()} (quantum {q})")


@monitor(4000, 60000)
def arrays(ctx):
    from mass.core.analysis_algorithms import correct_flux_jumps
    rng = ctx.rng
    q = [4096, 2 ** 12, 65536 / 5.3, 1.0, 1000.0, 4096.0][int(rng.integers(6))]
    n = int(rng.choice([1, 2, 3, 10, int(rng.integers(5, 400))]))
    b, jumps, good, wild = make(rng, n, q)
    v = b + jumps * q + wild
    dt = str(rng.choice(["f8", "f4", "i8", "f8"]))
    if dt == "i8":
        if q != int(q) or q < 100:
            dt = "f8"
        else:
            v = np.floor(v)
            b = v - jumps * q - wild if not wild.any() else np.floor(b)
    v = v.astype(dt)
    eps = float(np.finfo("f4").eps) if dt == "f4" else 1e-14
    if dt == "f4":
        b = b.astype("f4").astype(float)
    v0, good0 = v.copy(), good.copy()
    ctx.case = dict(q=q, n=n, dtype=dt, jumps=np.nonzero(np.diff(jumps))[0].tolist()[:20], ngood=int(good.sum()), v=v[:30].tolist())
    form = int(rng.integers(3))
    g = good if form < 2 else np.nonzero(good)[0]
    got = correct_flux_jumps(v, g, q)
    ctx.same(v, v0, "input values modified")
    ctx.same(good, good0, "input mask modified")
    judge(ctx, v0, got, b, jumps, good, wild, q, eps, "arrays")
    if v0.max() - v0.min() >= q:
        # once corrected, good data stay corrected
        again = correct_flux_jumps(np.array(got), good, q)
        d = np.asarray(again, float)[good] - np.asarray(got, float)[good]
        ctx.check(bool(np.all(np.abs(d - d[0]) <= eps * 16 * (np.abs(v0).max() + 10 * q))), "arrays: correcting twice", f"{d.min()} {d.max()}")
        # the order of records matters only through the offset
        p = rng.permutation(n)
        sh = np.asarray(correct_flux_jumps(v0[p], good[p], q), float)[np.argsort(p)]
        d = (sh - np.asarray(got, float))[good]
        ctx.check(bool(np.all(np.abs(d - d[0]) <= eps * 16 * (np.abs(v0).max() + 10 * q))), "arrays: record order", f"{d.min()} {d.max()}")
        if jumps.any():
            ctx.nontrivial(n, dt, int(q), int(jumps.min()), int(jumps.max()))


@monitor(60, 600)
def groups(ctx):
    rng = ctx.rng
    ns, npre, q = 30, 12, 4096
    chans = sorted(int(c) for c in rng.choice([1, 2, 5, 9], int(rng.integers(1, 4)), replace=False))
    truth, paths = {}, []
    tmpl = vg.template(ns, npre)
    for c in chans:
        n = int(rng.integers(4, 150))
        b, jumps, good, wild = make(rng, n, q)
        b = b - b.min() + 5 * q if b.min() + (jumps * q).min() < 100 else b
        jumps = np.clip(jumps, -3, 6)
        b = b - q * np.floor(b.min() / q - 4)
        if wild.any():
            wild = np.where(wild > 0, rng.integers(0, q, n), 0)
        if n > 20 and rng.random() < .35:      # many wild values in cut records, good ones around a fraction of a quantum where folding may go wrong
            good = rng.random(n) < .7
            good[int(rng.integers(n))] = True
            wild = np.where(good, 0, rng.integers(0, q, n))
            b = q * (float(rng.choice([4, 4.25, 4.5, 4.75])) + rng.choice([.03, .1, .2]) * rng.uniform(-.5, .5, n))
        x = (b + jumps * q + wild)[:, None] + rng.uniform(500, 3000, n)[:, None] * tmpl + rng.normal(0, 2, (n, ns))
        x = np.round(x)
        ctx.need(x.min() >= 0 and x.max() < 65535)
        p = os.path.join(ctx.tmp, f"run_chan{c}.ljh")
        vl.write22(p, x.astype(np.uint16), npre=npre, channum=c, rows=16, row=c)
        paths.append(p)
        truth[c] = (b, jumps, good, wild)
    f = dict(pulse=paths, noise=[], dir=ctx.tmp)
    g = vg.open_group(f, noise=False)
    g.summarize_data()
    ctx.case = dict(chans=chans, n={c: len(truth[c][0]) for c in chans})
    before, others = {}, {}
    for c in chans:
        ds = g.channel[c]
        ds.cuts.cut("pretrigger_mean", ~truth[c][2])
        before[c] = ds.p_pretrig_mean[:]
        others[c] = {k: v[:] for k, v in ds.hdf5_group.items() if k != "pretrig_mean" and hasattr(v, "shape")}
    single = rng.random() < .3
    if single:
        g.channel[chans[0]].correct_flux_jumps(q)
    else:
        g.correct_flux_jumps(q)
    for c in chans:
        ds = g.channel[c]
        b, jumps, good, wild = truth[c]
        if single and c != chans[0]:
            ctx.same(ds.p_pretrig_mean[:], before[c], "other channels")
            continue
        ctx.check(c in [d.channum for d in g], "channel marked bad", f"{g.why_chan_bad}")
        got = ds.p_pretrig_mean[:]
        noise = np.abs(before[c] - (b + jumps * q + wild)).max()
        ctx.need(noise < 20)
        # spread of the baseline plus noise must stay below a quarter quantum
        r = (before[c] - jumps * q - wild).astype(float)
        if np.ptp(r[good]) < .245 * q:
            judge(ctx, before[c], got, r, jumps, good, wild, q, 2e-7, "TESGroup")
        ctx.same(np.asarray(ds.p_pretrig_mean_orig), before[c], "original values kept")
        for k, v in others[c].items():
            ctx.same(ds.hdf5_group[k][:], v, "other column " + k)
        ctx.same(ds.cuts.good(), good, "cuts")
        if jumps.any() and np.ptp(before[c]) >= q:
            ctx.nontrivial(c, len(b), int(jumps.max()), int(jumps.min()))
    after = {c: g.channel[c].p_pretrig_mean[:] for c in chans}
    vg.close_group(g)
    g = vg.open_group(f, noise=False)
    for c in chans:
        ctx.same(g.channel[c].p_pretrig_mean[:], after[c], "reopened")
    vg.close_group(g)
