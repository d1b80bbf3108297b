"""C22: robust statistics equal their brute-force definitions."""
import numpy as np

from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case draws a sample (any length from 1, ties, constants, clusters, heavy tails, huge and tiny scales, every numeric dtype, lists and strided or read-only arrays) and computes every estimator, compared with O(n^2) or step-by-step definitions, "
        "and again on shuffled, shifted and rescaled samples; Q-scale of up to 10^5 values is checked by counting pair distances. Non-trivial = sample with at least two different values.")
ASSUMPTIONS = ["finite values; at least one positive weight and no negative one", "the shortest half holds n//2+1 values (as the repository's tests require)",
               "bisquare and Huber means: cases in which the stated iteration does not converge in 100 steps raise an error"]
QPRE = [0, 0, 0.399, 0.994, 0.512, 0.844, 0.611, 0.857, 0.669, 0.872]


def sample(rng, n=None):
    n = n or int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, int(rng.integers(10, 200))]))
    k = int(rng.integers(11))
    x = [lambda: rng.normal(size=n), lambda: rng.integers(0, 4, n).astype(float), lambda: np.full(n, float(rng.integers(-3, 4))), lambda: rng.integers(0, 50, n) * .1,
         lambda: np.round(rng.normal(size=n) * 8) / 8, lambda: rng.standard_cauchy(n), lambda: np.where(rng.random(n) < .6, 0, rng.normal(size=n)),
         lambda: np.where(rng.random(n) < .5, 0, 1000) + rng.normal(size=n), lambda: np.arange(n) * 1., lambda: rng.integers(-1000, 1000, n).astype(float),
         lambda: np.exp(rng.normal(size=n) * 10)][k]()
    if rng.random() < .2:
        x = x * float(rng.choice([1e-12, 1e9, 2.**60]))
    elif rng.random() < .1:
        x = x + 1e6
    return x, k


def dress(rng, x):
    """(the sample as some input object, its values as float64, label)"""
    dt = "f8"
    if rng.random() < .5:
        dt = str(rng.choice(["f4", "i8", "i4", "i2", "i1", "u1", "u2", "u4", "f8"]))
        if dt[0] in "iu":
            ii = np.iinfo(dt)
            with np.errstate(all="ignore"):
                x = np.clip(np.nan_to_num(np.round(x * 30)), float(max(ii.min, -2**50)), float(min(ii.max, 2**50))).astype(dt)
        else:
            x = x.astype(dt)
    v = x.astype(float)
    f = int(rng.integers(6))
    if f == 0:
        return x.tolist(), v, dt + " list"
    if f == 1:
        return tuple(x.tolist()), v, dt + " tuple"
    if f == 2:
        w = np.zeros(2 * len(x) + 1, dtype=x.dtype)
        w[1::2] = x
        return w[1::2], v, dt + " strided"
    if f == 3:
        x = x.copy()
        x.setflags(write=False)
        return x, v, dt + " readonly"
    return x.copy(), v, dt


def same_input(ctx, obj, v, kind, name):
    ctx.same(np.asarray(obj).astype(float), v, name + " leaves its input unchanged")


def eps_of(lab):
    return 3e-6 if lab.startswith("f4") else 1e-12


def eq(ctx, got, want, scale, lab, name):
    ctx.check(np.ndim(got) == 0 and bool(np.isfinite(got)), name + " is a finite number", f"{got!r}")
    ctx.check(abs(float(got) - float(want)) <= eps_of(lab) * scale + 1e-300, name, f"got {got!r} want {want!r} scale {scale} ({lab})")


def brute_q(v):
    n = len(v)
    i, j = np.triu_indices(n, 1)
    d = np.sort(np.abs(v[j] - v[i]))
    h = n // 2 + 1
    p = 2.2219 * (QPRE[n] if n <= 9 else n / (n + 1.4) if n % 2 else n / (n + 3.8))
    return d[h * (h - 1) // 2 - 1] * p


def brute_shorth(v):
    s = np.sort(v)
    n = len(s)
    m = n // 2 + 1
    r = [s[i + m - 1] - s[i] for i in range(n - m + 1)]
    return min(r), s, m, r


def brute_himed(v, w):
    """Values that satisfy the definition, allowing for rounding in the weight sums."""
    tot = sum(w)
    out = []
    tol = 0. if all(float(wi).is_integer() and abs(wi) < 2**40 for wi in w) else 1e-12 * tot  # (sums of integers are exact)
    for a in sorted(set(v)):
        s = sum(wi for vi, wi in zip(v, w) if vi <= a)
        if s > tot / 2 - tol:
            out.append(a)
            if s > tot / 2 + tol:
                break
    return out


@monitor(4000, 80000)
def dispersion(ctx):
    from mass.mathstat.robust import Qscale, shorth_range, median_abs_dev, trimean
    rng = ctx.rng
    x, kind = sample(rng)
    obj, v, lab = dress(rng, x)
    n = len(v)
    ctx.case = dict(n=n, kind=kind, form=lab, v=v[:40].tolist())
    sc = np.abs(v).max() + 1e-300
    # median absolute deviation
    med = np.sort(v)[(n - 1) // 2] / 2 + np.sort(v)[n // 2] / 2
    d = np.sort(np.abs(v - med))
    mad = d[(n - 1) // 2] / 2 + d[n // 2] / 2
    eq(ctx, median_abs_dev(obj), mad, sc, lab, "median_abs_dev")
    eq(ctx, median_abs_dev(obj, normalize=True), mad / .674480, sc, lab, "median_abs_dev normalized")
    same_input(ctx, obj, v, lab, "median_abs_dev")
    # trimean
    s = np.sort(v)

    def quart(p):
        t = (n - 1) * p
        i = int(t)
        j = min(i + 1, n - 1)
        return s[i] * (1 - (t - i)) + s[j] * (t - i)
    eq(ctx, trimean(obj), .25 * quart(.25) + .5 * quart(.5) + .25 * quart(.75), sc, lab, "trimean")
    same_input(ctx, obj, v, lab, "trimean")
    # shorth
    want, s, m, r = brute_shorth(v)
    got = shorth_range(obj)
    eq(ctx, got, want, sc, lab, "shorth_range")
    same_input(ctx, obj, v, lab, "shorth_range")
    norm = want / (2 * .674480)
    if n > 1:
        norm *= (n + 1.) / n if n % 2 == 0 else (n + 1.) / (n - 1.)
    eq(ctx, shorth_range(obj, normalize=True), norm, sc * 3, lab, "shorth_range normalized")
    g = shorth_range(obj, normalize=bool(rng.random() < .3), location=True)
    ctx.check(len(g) == 3, "shorth_range with locations", f"{g}")
    tol = eps_of(lab) * sc
    ok = any(abs(g[1] - s[i:i + m].mean()) <= 4 * tol and abs(g[2] - (s[i] + s[i + m - 1]) / 2) <= 4 * tol for i in range(len(r)) if r[i] <= want + 2 * tol)
    ctx.check(ok, "shorth locations", f"{g} for {s[:20]}")
    # Q
    if n >= 2:
        q = brute_q(v)
        eq(ctx, Qscale(obj), q, sc, lab, "Qscale")
        same_input(ctx, obj, v, lab, "Qscale")
    else:
        ctx.check(ctx.raises(lambda: Qscale(obj), ValueError) is not None, "Qscale needs two values", "")
    # in place
    for f in (Qscale, shorth_range):
        if n < 2:
            continue
        y = np.array(obj)
        ref = f(obj)
        got = f(y, sort_inplace=True)
        eq(ctx, got, ref, sc, lab, "sorted in place gives the same value")
        ctx.same(y.astype(float), np.sort(v), "sorting in place keeps the values")
        ctx.check(ctx.raises(lambda: f(list(v), sort_inplace=True), ValueError) is not None, "lists cannot be sorted in place", "")
    # equivariance (float64)
    if n >= 2:
        perm = rng.permutation(n)
        a, b = float(rng.choice([2., .25, 3., -1., -4.])), float(rng.choice([0, 1, -1000.])) * sc
        for name, f, loc in (("median_abs_dev", median_abs_dev, 0), ("shorth_range", shorth_range, 0), ("Qscale", Qscale, 0), ("trimean", trimean, 1)):
            f0 = f(v)
            e = 1e-12 * (abs(a) * sc + abs(b)) + 1e-300
            ctx.check(abs(f(v[perm]) - f0) <= 1e-14 * sc, name + " does not depend on the order", f"{f(v[perm])} {f0}")
            w = f(a * v + b)
            want = a * f0 + b if loc else abs(a) * f0
            ctx.check(abs(w - want) <= 4 * e, name + " under shift and scale", f"{w} {want} a={a} b={b}")
    if n > 1 and len(set(v)) > 1:
        ctx.nontrivial(n, kind, lab)


@monitor(2500, 50000)
def medians(ctx):
    from mass.mathstat.robust import high_median
    rng = ctx.rng
    x, kind = sample(rng)
    obj, v, lab = dress(rng, x)
    n = len(v)
    k = int(rng.integers(6))
    w = [lambda: np.ones(n), lambda: rng.integers(0, 4, n).astype(float), lambda: rng.random(n), lambda: np.where(np.arange(n) == rng.integers(n), 1e6, rng.random(n)),
         lambda: rng.integers(1, 3, n), lambda: np.exp(rng.normal(size=n) * 5)][k]()
    if not np.any(w):
        w[int(rng.integers(n))] = 1
    wf = w.astype(float)
    wobj = [w, w.tolist(), w.astype("f4") if k in (0, 1) else w, None if k == 0 else w][int(rng.integers(4))]
    ctx.case = dict(n=n, kind=kind, form=lab, weights=k, v=v[:40].tolist(), w=wf[:40].tolist())
    got = high_median(obj, wobj) if wobj is not None else high_median(obj)
    want = brute_himed(v.tolist(), wf.tolist())
    ctx.check(float(got) in want, "weighted high median", f"got {got!r} want {want}")
    same_input(ctx, obj, v, lab, "high_median")
    if wobj is not None:
        ctx.same(np.asarray(wobj).astype(float), wf, "high_median leaves the weights unchanged")
    g2, idx = high_median(obj, wobj, return_index=True)
    ctx.check(float(g2) == float(got) and v[int(idx)] == float(got), "index of the high median", f"{g2} {idx} {got}")
    perm = rng.permutation(n)
    g3 = high_median(v[perm], wf[perm])
    ctx.check(float(g3) in want, "high median does not depend on the order", f"{g3} {want}")
    if len(want) == 1 and k != 3:
        g4 = high_median(4. * v, wf * 8)
        ctx.check(float(g4) == 4. * float(got), "high median under scale", f"{g4} {got}")
    ctx.check(ctx.raises(lambda: high_median([]), ValueError) is not None, "empty data refused", "")
    ctx.check(ctx.raises(lambda: high_median(v, np.ones(n + 1)), ValueError) is not None, "wrong number of weights refused", "")
    if len(set(v)) > 1:
        ctx.nontrivial(n, kind, k, lab)


def iterate(v, k, center, tol, huber):
    """The documented iteration: value, or None if it takes more than 100 steps."""
    for _ in range(100):
        d = np.abs(v - center)
        w = np.array([1. if a <= k else k / a for a in d]) if huber else np.where(d <= k, (1 - (d / k)**2)**2, 0)
        if w.sum() < 1e-3:      # nearly no data within reach: ill-conditioned
            return None
        new = float(np.sum(w * v) / np.sum(w))
        if abs(new - center) < tol:
            return new
        center = new
    return None


@monitor(3000, 60000)
def locations(ctx):
    from mass.mathstat.robust import bisquare_weighted_mean, huber_weighted_mean
    rng = ctx.rng
    x, kind = sample(rng)
    obj, v, lab = dress(rng, x)
    n = len(v)
    sc = np.abs(v).max()
    spread = float(np.median(np.abs(v - np.median(v)))) or float(np.std(v)) or 1.
    k = spread * float(rng.choice([.5, 1., 1.4, 3.9, 5, 50]))
    ctx.need(k > 1e-6 * sc)
    center = None if rng.random() < .6 else float(rng.choice(v))
    tol = None if rng.random() < .6 else k * float(rng.choice([1e-3, 1e-6]))
    huber = bool(rng.random() < .5)
    f = huber_weighted_mean if huber else bisquare_weighted_mean
    name = "huber_weighted_mean" if huber else "bisquare_weighted_mean"
    mad = float(np.median(np.abs(v - np.median(v)))) / .67448
    t = tol if tol is not None else 1e-5 * mad
    ctx.case = dict(n=n, kind=kind, form=lab, k=k, center=center, tol=tol, huber=huber, v=v[:40].tolist())
    kw = {}
    if center is not None:
        kw["center"] = center if rng.random() < .7 else np.float64(center)
    if tol is not None:
        kw["tol"] = tol
    c0 = float(np.median(v)) if center is None else center
    t_eff = t if t > 0 else 1e-8 * k
    ctx.need(t_eff > 1e-13 * sc)
    if lab.startswith("f4"):      # single-precision rounding must not exceed the tolerance
        ctx.need(t_eff > 1e-5 * sc)
    want = iterate(v, k, c0, t_eff, huber)
    rounding = (3e-6 if lab.startswith("f4") else 1e-12) * sc
    fine = iterate(v, k, c0, max(t_eff * 1e-3, 4e-16 * sc), huber)
    try:
        with np.errstate(all="ignore"):
            got = f(obj, k, **kw)
    except RuntimeError:
        got = None
    same_input(ctx, obj, v, lab, name)
    if want is None:
        # a borderline case may converge just within the limit
        ctx.check(got is None or np.isfinite(got), name + " gives a number or an error", f"{got}")
        return
    if fine is None:
        return
    ctx.check(got is not None, name + " converges", f"an error was raised; want {want}")
    ctx.check(abs(float(got) - want) <= rounding + 1e-6 * t_eff + 1e-300 or abs(float(got) - want) < 1.5 * t_eff, name, f"got {got!r} want {want!r} tol {t_eff}")
    # a fixed point of the weighted mean
    d = np.abs(v - float(got))
    w = np.where(d <= k, 1., k / np.maximum(d, k)) if huber else np.where(d <= k, (1 - (d / k)**2)**2, 0)
    if w.sum() > 0:
        r = abs(np.sum(w * v) / np.sum(w) - float(got))
        ctx.check(r <= 20 * t_eff + rounding, name + " is a fixed point", f"moves by {r}, tolerance {t_eff}")
    if n > 1:
        with np.errstate(all="ignore"):
            p = rng.permutation(n)
            try:
                g2 = f(v[p], k, center=c0, tol=t_eff)
                a, b = float(rng.choice([2., -4.])), float(rng.choice([0., 1.])) * sc
                g3 = f(a * v + b, abs(a) * k, center=a * c0 + b, tol=abs(a) * t_eff)
            except RuntimeError:
                return
        ctx.check(abs(g2 - want) <= 1.5 * t_eff + rounding, name + " does not depend on the order", f"{g2} {want}")
        ctx.check(abs(g3 - (a * want + b)) <= abs(a) * (1.5 * t_eff + rounding) + 1e-11 * sc, name + " under shift and scale", f"{g3} {a * want + b}")
        if len(set(v)) > 1:
            ctx.nontrivial(n, kind, huber, lab)


@monitor(12, 120)
def large(ctx):
    """Q-scale of many values: the number of pair distances below and at it is counted."""
    from mass.mathstat.robust import Qscale, high_median, shorth_range
    rng = ctx.rng
    n = int(rng.choice([1000, 5000, 20000, 65537, 65538, 70000, 100001]))
    kind = int(rng.integers(4))
    x = [lambda: rng.normal(size=n), lambda: rng.integers(0, 3000, n), lambda: rng.standard_cauchy(n), lambda: np.round(rng.normal(size=n), 3)][kind]()
    ctx.case = dict(n=n, kind=kind)
    q = Qscale(x)
    p = 2.2219 * (n / (n + 1.4) if n % 2 else n / (n + 3.8))
    s = np.sort(np.asarray(x, float))
    t = float(q) / p
    e = 1e-9 * max(t, 1e-9)
    i = np.arange(n)
    below = int(np.sum(np.maximum(np.searchsorted(s, s + (t - e), "left") - i - 1, 0)))
    upto = int(np.sum(np.searchsorted(s, s + (t + e), "right") - i - 1))
    h = n // 2 + 1
    k = h * (h - 1) // 2
    ctx.check(below < k <= upto, "Qscale of many values", f"{below} distances below, {upto} up to {t}; order {k}, n={n}")
    m = n // 2 + 1
    ctx.check(abs(shorth_range(x) - np.min(s[m - 1:] - s[:n - m + 1])) <= 1e-12 * np.abs(s).max(), "shorth of many values", "")
    ctx.check(float(high_median(x)) == s[n // 2], "high median of many values", "")
    ctx.nontrivial(n, kind)
