"""C23: kernel-density entropies equal numerical integration."""
import numpy as np

from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case draws one or two samples (ties, one value, clusters up to thousands of widths apart, any dtype, order and offset) and a kernel width, and compares entropy, cross-entropy and divergence, exact and approximate, with Gauss-Legendre integration of their "
        "definitions over every interval between kernel nodes, and with shuffled, shifted and rescaled samples. Non-trivial = more than one distinct value.")
ASSUMPTIONS = ["the cross-entropy's q is the documented top-hat density: width 2*sqrt(6) w, plus a floor holding 1/sqrt(Ny+3) of the probability over the range extended by 10 w",
               "the approximate mode integrates from 5 w below to 5 w above the data, so it is compared with the renormalized integral over that range (within 0.01)"]

GX, GW = np.polynomial.legendre.leggauss(20)


def sample(rng, n=None):
    n = n or int(rng.choice([1, 2, 3, 5, 10, int(rng.integers(3, 200))]))
    k = int(rng.integers(8))
    x = [lambda: rng.normal(size=n), lambda: rng.integers(0, 5, n) * 1., lambda: np.full(n, rng.normal()), lambda: rng.standard_cauchy(n).clip(-3000, 3000),
         lambda: rng.choice([0, 1500.], n) + rng.normal(size=n), lambda: np.where(rng.random(n) < .5, 2., rng.normal(size=n)), lambda: rng.choice([0., 90., 400.], n), lambda: rng.random(n) * .01][k]()
    return x, k


def kde(u, xs, w):
    """Laplace kernel-density estimate at u."""
    return np.mean(np.exp(-np.abs(u[..., None] - xs) / w), axis=-1) / (2 * w)


def pieces(nodes, w, lo, hi):
    """Integration points and weights on [lo, hi], no interval crossing a node or longer than w/2 where p matters."""
    ed = np.unique(np.concatenate([[lo, hi], np.clip(nodes, lo, hi)]))
    edges = [ed[:1]]
    g = w * np.r_[.25, .5, 1, 1.5, 2, 3, 4, 5, 6, 7.5, 9, 11, 13, 15, 18, 21, 25, 30, 35, 45]
    for a, b in zip(ed[:-1], ed[1:]):
        m = (b - a) / 2
        k = g[g < m]
        edges.append(np.unique(np.concatenate([a + k, [a + m], b - k, [b]])))
    e = np.concatenate(edges)
    h = np.diff(e) / 2
    return (e[:-1] + h)[:, None] + h[:, None] * GX, h[:, None] * GW


def entropy_ref(x, w, cut=None):
    xs = np.sort(x)
    lo, hi = xs[0] - (60 * w if cut is None else cut), xs[-1] + (60 * w if cut is None else cut)
    u, q = pieces(xs, w, lo, hi)
    p = kde(u, xs, w)
    tot = np.sum(q * p)
    if cut is not None:
        p = p / tot
    pl = np.where(p > 0, p * np.log(np.where(p > 0, p, 1)), 0)
    return -float(np.sum(q * pl))


def cross_ref(x, y, w):
    """-int p log q, q the documented floor plus top hats."""
    hw = np.sqrt(6) * w
    nodes = np.unique(np.concatenate([x, y - hw, y + hw]))
    floor_sum = 1 / np.sqrt(len(y) + 3)
    floor = floor_sum / ((nodes[-1] - nodes[0]) + 20 * w)
    u, q = pieces(nodes, w, nodes[0] - 60 * w, nodes[-1] + 60 * w)
    p = kde(u, x, w)
    ys = np.sort(y)
    inside = np.searchsorted(ys, u + hw, "left") - np.searchsorted(ys, u - hw, "left")
    dens = floor + (1 - floor_sum) * inside / (len(y) * 2 * hw)
    return -float(np.sum(q * p * np.log(dens)))


def cross_approx_ref(x, y, w):
    lo, hi = min(x.min(), y.min()) - 5 * w, max(x.max(), y.max()) + 5 * w
    u, q = pieces(np.concatenate([x, y]), w, lo, hi)
    p, r = kde(u, x, w), kde(u, y, w)
    p, r = p / np.sum(q * p), r / np.sum(q * r)
    return -float(np.sum(q * p * np.log(np.maximum(r, 1e-300))))


def dress(rng, x):
    k = int(rng.integers(8))
    if k == 0:
        return x.tolist(), x
    if k == 1:
        y = x.astype("f4")
        return y, y.astype(float)
    if k == 2:
        y = np.round(x).astype(str(rng.choice(["i8", "i4", "i2"])))
        return y, y.astype(float)
    if k == 3:
        y = np.abs(np.round(x)).clip(0, 255).astype("u1")
        return y, y.astype(float)
    if k == 4:
        y = np.zeros(2 * len(x))
        y[::2] = x
        return y[::2], x
    if k == 5:
        y = x.copy()
        y.setflags(write=False)
        return y, x
    return x, x


@monitor(1200, 20000)
def entropy(ctx):
    from mass.mathstat.entropy import laplace_entropy
    rng = ctx.rng
    x, kind = sample(rng)
    w = float(10**rng.uniform(-1.3, 1.5))
    off = float(rng.choice([0, 0, 100, -5000.]))
    obj, v = dress(rng, x + off)
    v0 = np.array(v)
    ctx.case = dict(n=len(v), kind=kind, w=w, type=str(getattr(obj, "dtype", type(obj).__name__)), v=v[:20].tolist())
    mode = str(rng.choice(["exact", "size", "default"]))
    got = laplace_entropy(obj, w) if mode == "default" else laplace_entropy(obj, w, mode)
    ctx.same(np.asarray(obj).astype(float), v0, "laplace_entropy leaves its input alone")
    want = entropy_ref(v, w)
    ctx.check(abs(got - want) <= 1e-7 * (1 + abs(want)), "entropy equals its integral", f"got {got} want {want} w={w}")
    ctx.check(got >= 1 + np.log(2 * w) - 1e-9, "entropy is at least one kernel's", f"{got}")
    ctx.check(got <= 1 + np.log(2 * w) + np.log(len(v)) + 1e-9, "entropy is at most n separate kernels'", f"{got}")
    ctx.check(abs(laplace_entropy(rng.permutation(v), w) - got) <= 1e-10 * (1 + abs(got)), "entropy does not depend on the order", "")
    d = float(rng.choice([1., -37.25, 1e4]))
    ctx.check(abs(laplace_entropy(v + d, w) - got) <= 1e-8 * (1 + abs(got)), "entropy is invariant to a shift", "")
    a = float(rng.choice([2., .125, 3.7, 1e4, 1e-5]))
    ctx.check(abs(laplace_entropy(a * v, a * w) - got - np.log(a)) <= 1e-8 * (1 + abs(got)), "entropy of rescaled data", f"a={a}")
    ctx.check(abs(laplace_entropy(-v, w) - got) <= 1e-10 * (1 + abs(got)), "entropy of mirrored data", "")
    ctx.check(abs(laplace_entropy(np.repeat(v, 3), w) - got) <= 1e-9 * (1 + abs(got)), "entropy of repeated data", "")
    span = (v.max() - v.min()) / w
    if span < 3e4 and rng.random() < .5:
        ap = laplace_entropy(obj, w, "approx")
        if span < 3000:
            wa = entropy_ref(v, w, cut=5 * w)
            ctx.check(abs(ap - wa) <= .01, "approximate entropy", f"got {ap} want {wa} w={w}; exact {got}")
        else:
            ctx.check(abs(ap - got) <= .1, "approximate entropy of spread data", f"{ap} {got}")
        ctx.count("approximations")
    for bad in (0., -1.):
        ctx.check(ctx.raises(lambda: laplace_entropy(v, bad), ValueError) is not None, "width must be positive", "")
    ctx.check(ctx.raises(lambda: laplace_entropy([], w), ValueError) is not None, "empty data refused", "")
    if len(set(v)) > 1:
        ctx.nontrivial(len(v), kind, mode)


@monitor(1000, 16000)
def cross(ctx):
    from mass.mathstat.entropy import laplace_cross_entropy, laplace_KL_divergence, laplace_entropy
    rng = ctx.rng
    top = [80, 80] if ctx.index % 10 else [int(rng.choice([80, 600])), int(rng.choice([300, 1200]))]
    x, k1 = sample(rng, int(rng.integers(1, top[0])))
    y, k2 = sample(rng, int(rng.integers(1, top[1])))
    if rng.random() < .3:
        y = x[rng.integers(0, len(x), len(y))] + (0 if rng.random() < .5 else rng.normal(0, .3, len(y)))
    w = float(10**rng.uniform(-1.3, 1.5))
    off = float(rng.choice([0, 0, 100, 5000.]))
    ox, x = dress(rng, x + off)
    oy, y = dress(rng, y + off)
    x0, y0 = np.array(x), np.array(y)
    ctx.case = dict(nx=len(x), ny=len(y), kinds=[k1, k2], w=w, types=[str(getattr(o, "dtype", "list")) for o in (ox, oy)], x=x[:15].tolist(), y=y[:15].tolist())
    mode = str(rng.choice(["exact", "size", "default"]))
    kw = {} if mode == "default" else dict(approx_mode=mode)
    got = laplace_cross_entropy(ox, oy, w, **kw)
    kl = laplace_KL_divergence(ox, oy, w, **kw)
    ctx.same(np.asarray(ox).astype(float), x0, "cross entropy leaves x alone")
    ctx.same(np.asarray(oy).astype(float), y0, "cross entropy leaves y alone")
    want = cross_ref(x, y, w)
    tol = 2e-7 * (1 + abs(want))
    # steps of q exactly at a node of the other sort may round either way
    ctx.check(abs(got - want) <= tol, "cross entropy equals its integral", f"got {got} want {want} w={w}")
    ctx.check(abs(kl - (got - laplace_entropy(x, w))) <= 1e-9 * (1 + abs(got)), "divergence is cross entropy less entropy", f"{kl} {got}")
    ctx.check(abs(kl - (want - entropy_ref(x, w))) <= 2 * tol + 1e-7 * (1 + abs(want)), "divergence equals its integral", f"{kl}")
    ctx.check(abs(laplace_cross_entropy(rng.permutation(x), rng.permutation(y), w, **kw) - got) <= 1e-9 * (1 + abs(got)), "cross entropy does not depend on the order", "")
    d = float(rng.choice([1., -37.25, 1e3]))
    ctx.check(abs(laplace_cross_entropy(x + d, y + d, w, **kw) - got) <= 1e-7 * (1 + abs(got)), "cross entropy is invariant to a common shift", "")
    a = float(rng.choice([2., .125, 3.7, 1e4, 1e-5]))
    ctx.check(abs(laplace_cross_entropy(a * x, a * y, a * w, **kw) - got - np.log(a)) <= 1e-7 * (1 + abs(got)), "cross entropy of rescaled data", f"a={a}")
    ctx.check(abs(laplace_cross_entropy(-x, -y, w, **kw) - got) <= 1e-7 * (1 + abs(got)), "cross entropy of mirrored data", "")
    span = (max(x.max(), y.max()) - min(x.min(), y.min())) / w
    far = max(np.min(np.abs(y - a)) for a in x) / w
    if span < 3000 and rng.random() < .5:
        ap = laplace_cross_entropy(ox, oy, w, "approx")
        ka = laplace_KL_divergence(ox, oy, w, "approx")
        ctx.check(ka >= -1e-2, "approximate divergence is not negative", f"{ka}")
        ctx.check(abs(ka - (ap - laplace_entropy(x, w, "approx"))) <= 1e-9 * (1 + abs(ap)), "approximate divergence is cross entropy less entropy", f"{ka} {ap}") 
        if far < 4:
            wa = cross_approx_ref(x, y, w)
            ctx.check(abs(ap - wa) <= .06, "approximate cross entropy", f"got {ap} want {wa} w={w} far={far}")
        if len(x) == len(y) and np.array_equal(np.sort(x), np.sort(y)):
            ctx.check(abs(ka) < 1e-9, "no divergence of data from themselves", f"{ka}")
        ctx.check(abs(laplace_KL_divergence(x, rng.permutation(x), w, "approx")) < 1e-9, "no divergence of data from themselves", "")
        ctx.count("approximations")
    for bad in (0., -1.):
        ctx.check(ctx.raises(lambda: laplace_cross_entropy(x, y, bad), ValueError) is not None, "width must be positive", "")
        ctx.check(ctx.raises(lambda: laplace_KL_divergence(x, y, bad), ValueError) is not None, "width must be positive", "")
    for p, q in (([], y), (x, []), ([], [])):
        ctx.check(ctx.raises(lambda: laplace_cross_entropy(p, q, w), ValueError) is not None, "empty data refused", "")
        ctx.check(ctx.raises(lambda: laplace_KL_divergence(p, q, w), ValueError) is not None, "empty data refused", "")
    ctx.nontrivial(len(x), len(y), k1, k2, mode)


@monitor(2, 12)
def large(ctx):
    """The choice of method by size."""
    from mass.mathstat.entropy import laplace_entropy, laplace_cross_entropy, laplace_KL_divergence
    rng = ctx.rng
    n = int(rng.choice([200000, 200001, 260000]))
    x = rng.normal(0, 5, n) + rng.choice([0, 40.], n)
    w = float(rng.choice([.5, 2.]))
    ctx.case = dict(n=n, w=w)
    ex, ap, sz = (laplace_entropy(x, w, m) for m in ("exact", "approx", "size"))
    ctx.check(sz == (ap if n > 200000 else ex), "method chosen by size", f"n={n}: size {sz} exact {ex} approx {ap}")
    ctx.check(abs(ex - ap) < .01, "exact and approximate entropy of many values", f"{ex} {ap}")
    # independent: density on a fine grid
    g = np.arange(x.min() - 40 * w, x.max() + 40 * w, w / 40)
    h = np.histogram(x, np.r_[g - w / 80, g[-1] + w / 80])[0]
    t = np.arange(-1200, 1201) / 40.
    from scipy.signal import fftconvolve
    p = np.maximum(fftconvolve(h, np.exp(-np.abs(t)), "same") / (2 * w * n), 1e-300)
    ctx.check(abs(ex + np.sum(p * np.log(p)) * w / 40) < 2e-3, "entropy of many values", f"{ex} {-np.sum(p * np.log(p)) * w / 40}")
    k = int(n * rng.choice([.5, .1, .001, .97]))
    y = x[:k + 1] + 1.
    a, b, c = (laplace_cross_entropy(x[k:], y, w, m) for m in ("exact", "approx", "size"))
    tot = len(x[k:]) + len(y)
    ctx.check(c == (b if tot > 200000 else a), "method chosen by size", f"{tot}")
    ctx.check(abs(a - b) < .3, "exact and approximate cross entropy of many values", f"{a} {b}")
    ctx.nontrivial(n, w)
