"""C30: pulses near others in neighboring channels are flagged and vetoed, and no others."""
import os

import numpy as np

from vlib import group as vg
from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case writes LJH channels with known arrival times (random, in bursts, coincident, sparse), places the channels on random maps of 1 to 3 dimensions, and compares neighbor lists, crosstalk flags and vetoes with brute force over all pairs of pulses. "
        "Non-trivial = some pulses flagged and some not.")
ASSUMPTIONS = ["windows end between the possible arrival times", "CrosstalkVeto is judged only where a moment is more than 1.6 ms (its resolution) from every edge"]


def world(ctx, nch=None, bursts=False):
    rng = ctx.rng
    chans = sorted(int(c) for c in rng.choice(np.arange(1, 300), size=nch or int(rng.integers(2, 8) if rng.random() < .7 else rng.integers(10, 26)), replace=False))
    span = float(rng.choice([3e5, 3e6]))
    t = {}
    common = np.sort(rng.integers(0, int(span), 6))
    for c in chans:
        x = rng.integers(0, int(span), int(rng.integers(1, 40)))
        if rng.random() < .6:
            x = np.r_[x, common[rng.random(6) < .6] + rng.integers(0, 3000, 1)]
        if bursts and rng.random() < .6:
            x = np.r_[x, rng.integers(0, int(span)) + rng.integers(0, 2500, int(rng.integers(20, 160)))]
        t[c] = np.unique(x)
    f = vg.make_files(ctx, chans=chans, n={c: len(t[c]) for c in chans}, nnoise=0, ns=40, npre=12, times=t)
    g = vg.open_group(f, noise=False)
    return f, g, chans, t


def maps(rng, chans, extra=True):
    """Channel numbers and integer coordinates, some shared, some of channels that do not exist."""
    nd = int(rng.integers(1, 4))
    nums = list(chans) + ([int(c) for c in rng.choice(np.arange(301, 400), int(rng.integers(0, 5)), replace=False)] if extra else [])
    rng.shuffle(nums)
    pos = rng.integers(-3, 6, (len(nums), nd)) if rng.random() < .7 else rng.integers(0, 40, (len(nums), nd))
    return nums, pos


def order(pos):
    """The squared distances possible on a grid as large as the map."""
    d = {0}
    for k in range(pos.shape[1]):
        r = int(pos[:, k].max() - pos[:, k].min())
        d = {a + i * i for a in d for i in range(r + 1)}
    return {x: i for i, x in enumerate(sorted(d))}


@monitor(60, 900)
def neighbors(ctx):
    """The list of neighbors has the distance and order of every channel of the map, for every channel."""
    rng = ctx.rng
    f, g, chans, t = world(ctx)
    g.summarize_data()
    cats = [str(c) for c in rng.permutation(["physical", "frequency", "readout"])[:int(rng.integers(1, 4))]]
    for cat in cats + ([cats[0]] if rng.random() < .4 else []):
        again = any("nearest_neighbors" in g.channel[c].hdf5_group and cat in g.channel[c].hdf5_group["nearest_neighbors"] for c in chans)
        nums, pos = maps(rng, chans)
        p = os.path.join(ctx.tmp, "map.txt")
        np.savetxt(p, np.c_[nums, pos], fmt="%d", header="channel and position" if rng.random() < .5 else "")
        g.set_nearest_neighbors_list(p, cat, forceNew=again or bool(rng.random() < .3))
        ctx.check(sorted(g.good_channels) == chans, "neighbors:bad", f"{g.why_chan_bad}")
        n = order(pos)
        for c in chans:
            h = g.channel[c].hdf5_group["nearest_neighbors"][cat]
            me = pos[nums.index(c)]
            ctx.same(h["position"][:], me, "neighbors:position")
            want = []
            for ch, xy in zip(nums, pos):
                d = int(((xy - me)**2).sum())
                want.append((ch, d, n[d]))
            ctx.same(np.array(sorted(map(tuple, h["neighbors_list"][:].tolist()))), np.array(sorted(want)), "neighbors:list")
            ctx.same(getattr(g.channel[c], f"neighbors_list_{cat}")[:], h["neighbors_list"][:], "neighbors:attribute")
            # unless asked, another map changes nothing
        if rng.random() < .3:
            old = {c: g.channel[c].hdf5_group["nearest_neighbors"][cat]["neighbors_list"][:] for c in chans}
            q = pos[rng.permutation(len(pos))]
            np.savetxt(p, np.c_[nums, q], fmt="%d")
            if any(np.any(v) for v in old.values()):
                g.set_nearest_neighbors_list(p, cat)
                for c in chans:
                    if np.any(old[c]):
                        ctx.same(g.channel[c].hdf5_group["nearest_neighbors"][cat]["neighbors_list"][:], old[c], "neighbors:kept")
        ctx.count("lists", len(chans))
        ctx.nontrivial(len(nums), pos.shape[1])
    vg.close_group(g)


@monitor(80, 1200)
def flags(ctx):
    """A pulse is flagged if and only if a neighbor at a chosen distance has a pulse within the times given."""
    rng = ctx.rng
    f, g, chans, t = world(ctx, bursts=True)
    g.summarize_data()
    where, cats = {}, [str(c) for c in rng.permutation(["physical", "frequency"])[:int(rng.integers(1, 3))]]
    for cat in cats:
        nums, pos = maps(rng, chans)
        p = os.path.join(ctx.tmp, f"{cat}.txt")
        np.savetxt(p, np.c_[nums, pos], fmt="%d")
        g.set_nearest_neighbors_list(p, cat)
        where[cat] = (nums, pos, order(pos))
    for c in chans:  # cuts and bad channels matter neither to culprits nor to victims
        g.channel[c].cuts.cut("timestamp_sec", rng.random(len(t[c])) < .3)
    bad = [int(c) for c in chans if rng.random() < .15]
    for c in bad:
        g.set_chan_bad(c, "test")
    sub = {c: f["truth"][c]["sub"] for c in chans}
    dt = 1e-5 / 8
    for c in chans:
        ctx.close(np.asarray(g.channel[c].p_subframecount[:], float) * g.channel[c].subframe_timebase, sub[c] * dt, "flags:times", rtol=1e-12, atol=0)

    def culprits(c, cat, dist):
        nums, pos, n = where[cat]
        me = pos[nums.index(c)]
        return {ch for ch, xy in zip(nums, pos) if n[int(((xy - me)**2).sum())] in dist and ch in sub}

    def hit(c, who, a, b):
        out = np.zeros(len(sub[c]), bool)
        for w in who:
            d = sub[w][None, :] - sub[c][:, None]
            out |= ((d > -a) & (d < b)).any(axis=1)
        return out

    for step in range(int(rng.integers(1, 4))):
        a, b = ((float(int(10**rng.uniform(0, 5.5))) + .5) for _ in range(2))   # in subframes
        dist = [int(x) for x in rng.choice(np.arange(1, 12), int(rng.integers(1, 5)), replace=False)]
        if len(chans) > 8 and rng.random() < .6:
            dist = [int(x) for x in rng.choice(np.arange(0, 60), int(rng.integers(15, 50)), replace=False)]
        given = dist[0] if len(dist) == 1 else (dist if rng.random() < .5 else np.array(dist))
        combine = bool(rng.random() < .5)
        key = str(rng.choice(["is_crosstalking", "xt"]))
        fresh = all(key not in g.channel[c].hdf5_group.get("crosstalk_flags", {}) for c in chans if c not in bad)
        force = not fresh or bool(rng.random() < .5)
        pre = {c: (k[:].copy() if (k := g.channel[c].hdf5_group.get(f"crosstalk_flags/{key}")) is not None else None) for c in chans}
        ctx.case.update(windows=(a, b), distances=dist, combine=combine, key=key, bad=bad, chans=chans)
        g.flag_crosstalking_pulses(a * dt * 1e3, b * dt * 1e3, combineCategories=combine, nearestNeighborsDistances=given, crosstalk_key=key, forceNew=force)
        ctx.check(sorted(g.good_channels) == [c for c in chans if c not in bad], "flags:bad", f"{g.why_chan_bad}")
        seen = set()
        for c in chans:
            h = g.channel[c].hdf5_group
            if c in bad:
                now = h.get(f"crosstalk_flags/{key}")
                ctx.check((now is None) == (pre[c] is None), "flags:bad channel", "flags of a bad channel were made")
                continue
            per = {cat: hit(c, culprits(c, cat, dist), a, b) for cat in cats}
            want = np.logical_or.reduce(list(per.values()))
            ctx.same(h["crosstalk_flags"][key][:], want, "flags:pulses")
            ctx.same(getattr(g.channel[c], f"p_{key}")[:], want, "flags:attribute")
            if not combine:
                for cat in cats:
                    ctx.same(getattr(g.channel[c], f"p_{key}_{cat}")[:], per[cat], "flags:category")
            seen |= set(want.tolist())
            ctx.count("flags", len(want))
        if len(seen) == 2:
            ctx.nontrivial(len(chans), combine, len(dist))
        # a second computation is not made unless asked for (or no pulse was flagged)
        if rng.random() < .3:
            old = {c: g.channel[c].hdf5_group["crosstalk_flags"][key][:] for c in chans if c not in bad}
            g.flag_crosstalking_pulses(a * dt * 2e3, 0, nearestNeighborsDistances=given, crosstalk_key=key)
            for c in old:
                if old[c].any():
                    ctx.same(g.channel[c].hdf5_group["crosstalk_flags"][key][:], old[c], "flags:kept")
    vg.close_group(g)


@monitor(60, 900)
def veto(ctx):
    """A moment is vetoed if and only if more than one good pulse of any channel has it in its window."""
    import mass
    rng = ctx.rng
    f, g, chans, t = world(ctx, bursts=True)
    g.summarize_data()
    good = {}
    for c in chans:
        g.channel[c].cuts.cut("timestamp_sec", rng.random(len(t[c])) < .25)
        good[c] = np.asarray(g.channel[c].good())
        if rng.random() < .4:
            g.channel[c].p_postpeak_deriv[:] = rng.choice([0., 150.], len(t[c]))
        elif rng.random() < .5:
            g.channel[c].p_postpeak_deriv[:] = 0
    win = [(-10, 3), (-1, 40), (0, 10), (-5, -2), (4, 9)][int(rng.integers(5))] if rng.random() < .7 else (-int(rng.integers(0, 60)), int(rng.integers(0, 60)))
    limit = float(rng.choice([100, 50, 1e9]))
    kw = {} if (win == (-10, 3) and limit == 100 and rng.random() < .5) else dict(window_ms=win, pileup_limit=limit)
    v = mass.core.channel_group.CrosstalkVeto(g, **kw)
    if rng.random() < .3:
        v = v.copy()
    ctx.case.update(window=win, limit=limit, chans=chans)
    u0 = 1_600_000_000_000_000
    ev = np.concatenate([(f["truth"][c]["usec"][good[c]] - u0) / 1e3 for c in chans])     # ms
    pile = np.concatenate([np.asarray(g.channel[c].p_postpeak_deriv[:])[good[c]] > limit for c in chans])
    lo, hi = ev + win[0], ev + win[1] + 8 * pile
    # random moments, all over and beyond the run, and near the events
    q = np.r_[rng.uniform(ev.min() - 200, ev.max() + 200, 300), rng.choice(ev, 300) + rng.uniform(win[0] - 4, win[1] + 14, 300)] if len(ev) else rng.uniform(0, 1000, 100)
    got = np.asarray(v.veto(u0 / 1e6 + q / 1e3))
    sure = ((q[:, None] > lo + 1.6) & (q[:, None] < hi - 1.6)).sum(axis=1)
    could = ((q[:, None] > lo - 1.6) & (q[:, None] < hi + 1.6)).sum(axis=1)
    ctx.check(len(got) == len(q) and got.dtype == bool, "veto:shape", f"{got.dtype}")
    i = np.nonzero((sure > 1) & ~got)[0]
    ctx.check(len(i) == 0, "veto:missed", f"{len(i)} moments in {sure[i][:5]} windows are not vetoed: {q[i][:3]}, events near {[ (np.round(ev[(lo<x)&(hi>x)],3).tolist(), pile[(lo<x)&(hi>x)].tolist()) for x in q[i][:2]]}, all {ev.min()} {ev.max()}")
    i = np.nonzero((could <= 1) & got)[0]
    ctx.check(len(i) == 0, "veto:false", f"{len(i)} moments like {q[i][:5]} ms in at most {could[i][:5]} windows are vetoed: {[np.round(ev[np.abs(ev - x) < 25], 3).tolist() for x in q[i][:2]]}, {win}, {ev.min()}")
    ctx.count("moments_decided", int(((sure > 1) | (could <= 1)).sum()))
    if (sure > 1).any() and (could <= 1).any():
        ctx.nontrivial(win, len(chans))
    for c in chans:
        w = v.veto(g.channel[c].p_timestamp[:])
        q = (f["truth"][c]["usec"] - u0) / 1e3
        sure = ((q[:, None] > lo + 1.6) & (q[:, None] < hi - 1.6)).sum(axis=1)
        ctx.check(bool(np.all(w[sure > 1])), "veto:own", f"pulses of channel {c}")
    vg.close_group(g)
