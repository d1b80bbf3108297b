"""C31: the numerical and plotting helpers compute and draw what they say."""
import math
import os
import subprocess
import sys

import numpy as np

from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case feeds one helper generated data (signals of several types and lengths, histograms, low-rank and full-rank matrices, HDF5 files) and compares the result with an independent computation: local least-squares polynomials, discrete Fourier sums, "
        "counted bins, dense linear algebra, and the file's own contents. Non-trivial = distinct kinds of data and options.")
ASSUMPTIONS = ["smoothed values within half a window of the ends are judged for constant data only", "randomized factorizations are judged by bounds they exceed with negligible probability"]


@monitor(200, 4000)
def savitzky(ctx):
    """Smoothing replaces each value by its window's least-squares polynomial, and derivatives are that polynomial's."""
    from mass.mathstat.utilities import savitzky_golay
    rng = ctx.rng
    order = int(rng.integers(0, 6))
    half = int(rng.integers(max(1, (order + 2) // 2), 12))
    win = 2 * half + 1
    if win < order + 2:
        win += 2
        half += 1
    n = win + int(rng.integers(2, 60))
    deriv = int(rng.integers(0, order + 1))
    kind = ["float", "int", "uint", "list", "poly", "constant"][int(rng.integers(6))]
    if kind == "poly":
        c = rng.normal(0, 1, order + 1)
        x = np.arange(n) / 10. - n / 20.
        y = np.polyval(c, x)
    elif kind == "constant":
        y = np.full(n, float(rng.normal(0, 100)))
    elif kind == "uint":
        y = rng.integers(0, 60000, n).astype([np.uint16, np.uint32, np.uint64][int(rng.integers(3))])
    else:
        y = rng.normal(0, 10, n) if kind == "float" else rng.integers(-1000, 1000, n)
    ctx.case.update(kind=kind, order=order, window=win, deriv=deriv, n=n)
    arg = y.tolist() if kind == "list" else y
    before = np.array(y)
    got = savitzky_golay(arg, win, order, deriv=deriv) if deriv else (savitzky_golay(arg, win, order) if rng.random() < .7 else savitzky_golay(arg, window_size=win, order=order, deriv=0))
    ctx.same(np.array(y), before, "savitzky:argument changed")
    ctx.check(got.shape == (n,), "savitzky:length", f"{got.shape} for {n}")
    yf = np.asarray(y, float)
    k = np.arange(-half, half + 1)
    B = k[:, None]**np.arange(order + 1)
    want = np.array([np.linalg.lstsq(B / np.abs(B).max(axis=0), yf[i - half:i + half + 1], rcond=None)[0][deriv] / np.abs(B[:, deriv]).max() for i in range(half, n - half)]) * math.factorial(deriv)
    scale = np.abs(yf).max() + 1e-300
    ctx.close(got[half:n - half], want, "savitzky:values", rtol=1e-6, atol=1e-7 * scale)
    if kind == "poly":
        ctx.close(got[half:n - half], np.polyval(np.polyder(c, deriv) if deriv else c, x)[half:n - half] / 10**deriv, "savitzky:polynomial", rtol=1e-6, atol=1e-7 * scale)
    if kind == "constant":
        ctx.close(got, np.full(n, y[0] if deriv == 0 else 0.), "savitzky:constant", rtol=0, atol=1e-8 * scale)
    if kind == "uint":
        ctx.close(got, savitzky_golay(yf, win, order, deriv), "savitzky:type", rtol=1e-9, atol=1e-9 * scale)
    ctx.count("values", n)
    ctx.nontrivial(kind, order, deriv)
    ctx.check(ctx.raises(lambda: savitzky_golay(yf, win + 1, order), TypeError) is not None, "savitzky:even", "an even window is accepted")
    ctx.check(ctx.raises(lambda: savitzky_golay(yf, win, win - 1), TypeError) is not None, "savitzky:order", "too high an order is accepted")


@monitor(120, 2000)
def lowpass(ctx):
    """The low-pass filter keeps the parts of a signal below the frequency given, and nothing else."""
    from mass.core.analysis_algorithms import filter_signal_lowpass
    rng = ctx.rng
    n = int(rng.integers(2, 160))
    fs = float(10**rng.uniform(0, 6))
    x = rng.normal(0, 10, n) if rng.random() < .7 else rng.integers(0, 60000, n).astype(rng.choice(["u2", "i4", "f4"]))
    j = float(rng.integers(0, n // 2 + 2)) + float(rng.choice([-.4, .3, .5]))
    fcut = j * fs / n
    ctx.case.update(n=n, fs=fs, cut=j)
    keep = x.copy()
    got = np.asarray(filter_signal_lowpass(x, fs, fcut))
    ctx.same(x, keep, "lowpass:argument changed")
    ctx.check(got.shape == (n,) and not np.iscomplexobj(got), "lowpass:shape", f"{got.shape} {got.dtype}")
    t = np.arange(n)
    want = np.zeros(n)
    xf = x.astype(float)
    for k in range(0, n // 2 + 1):
        if k < j:
            c, s = np.cos(2 * np.pi * k * t / n), np.sin(2 * np.pi * k * t / n)
            w = 1. if k == 0 or 2 * k == n else 2.
            want += w / n * ((xf @ c) * c + (xf @ s) * s)
    ctx.close(got, want, "lowpass:values", rtol=1e-7, atol=(1e-8 if x.dtype != np.float32 else 1e-5) * (1 + np.abs(xf).max()))
    ctx.count("samples", n)
    ctx.nontrivial(n % 2, str(x.dtype))


@monitor(60, 800)
def stepped(ctx):
    """Stepped histograms and their error bands are drawn at the counts of every bin, from the bins' edges or centers."""
    import pylab as plt
    from mass.mathstat.utilities import plot_as_stepped_hist, plot_stepped_hist_poisson_errors, savitzky_golay
    rng = ctx.rng
    plt.close("all")
    fig, (ax, other) = plt.subplots(2)
    plt.sca(other)
    n = int(rng.integers(9, 60))
    width = float(10**rng.uniform(-3, 3))
    edges = float(rng.normal(0, 100)) + width * np.arange(n + 1)
    asedges = bool(rng.random() < .5)
    uneven = asedges and rng.random() < .4
    longer = rng.integers(2, 5)
    if uneven:
        edges = edges[0] + np.cumsum(np.r_[0, rng.uniform(.2, 3, n)]) * width
    counts = rng.integers(0, 100, n) if rng.random() < .5 else rng.poisson(3, n)
    bins = edges if asedges else .5 * (edges[1:] + edges[:-1])
    ctx.case.update(n=n, edges=asedges, uneven=bool(uneven))

    def drawn(line, want, e, mech):
        x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
        ctx.check(len(x) == len(y) and y[0] == 0 == y[-1] and np.all(np.diff(x) >= -1e-9 * width), mech + ":shape", "the outline does not start and end at zero, or goes backward")
        for i in range(len(want)):  # the height drawn over each bin
            mid = .5 * (e[i] + e[i + 1])
            k = np.searchsorted(x, mid)
            ctx.close([y[k - 1], y[k]], [want[i]] * 2, mech + ":heights", rtol=1e-9, atol=1e-9)
            ctx.close([x[k - 1], x[k]], e[i:i + 2], mech + ":edges", rtol=1e-9, atol=1e-6 * width)
        lo, hi = ax.get_xlim()
        ctx.close([lo, hi], [e[0], e[-1]], mech + ":range", rtol=1e-9, atol=1e-6 * width)
    plot_as_stepped_hist(ax, counts, bins, color="r")
    drawn(ax.lines[0], counts, edges, "stepped")
    ctx.check(ax.lines[0].get_color() == "r" and not other.lines, "stepped:options", "not drawn as asked for")
    ax.clear()
    scale, offset = float(rng.choice([1., .25, 3.])), float(rng.choice([0., 10.]))
    if uneven:
        edges = edges[0] + width * np.arange(n + 1)
        bins = edges
    plot_stepped_hist_poisson_errors(ax, counts, bins, scale=scale, offset=offset, color="b")
    x, y = np.asarray(ax.lines[0].get_xdata(), float), np.asarray(ax.lines[0].get_ydata(), float)
    drawn(ax.lines[0], counts * scale + offset, edges, "errors")
    v = ax.collections[0].get_paths()[0].vertices
    ctrs = .5 * (edges[1:] + edges[:-1])
    smooth = savitzky_golay(counts * scale, 7, 4)
    err = np.sqrt(counts) * scale
    for i, c in enumerate(ctrs):
        ys = v[np.abs(v[:, 0] - c) < .2 * width, 1]
        ctx.close([ys.min(), ys.max()], [max(smooth[i] - err[i], 0) + offset, max(smooth[i] + err[i], 0) + offset], "errors:band", rtol=1e-9, atol=1e-9) if 0 < i < n - 1 else None
    ctx.check(ctx.raises(lambda: plot_stepped_hist_poisson_errors(ax, counts, bins[:-3]), ValueError) is not None, "errors:lengths", "bins of the wrong number are accepted")
    ctx.check(ctx.raises(lambda: plot_stepped_hist_poisson_errors(ax, counts, np.arange(n + longer) * width), ValueError) is not None, "errors:lengths", "too many bins are accepted")
    far = bins.copy()  # centers with a gap: the bins are as wide as the first two say
    far[n // 2:] += 5 * width
    if not asedges:
        ax.clear()
        plot_as_stepped_hist(ax, counts, far)
        x = np.asarray(ax.lines[0].get_xdata(), float)
        ctx.close([x[0], x[-1]], [far[0] - width / 2, far[-1] + width / 2], "stepped:spacing", rtol=1e-9, atol=1e-6 * width)
    ctx.count("bins", n)
    ctx.nontrivial(asedges, bool(uneven))
    plt.close("all")


@monitor(120, 2000)
def randomized(ctx):
    """Randomized ranges are orthonormal and hold the matrix; randomized SVDs are SVDs of it, exactly if its rank allows."""
    from mass.mathstat import utilities as u
    rng = ctx.rng
    m, n = int(rng.integers(5, 60)), int(rng.integers(5, 60))
    r = int(rng.integers(1, min(m, n) + 1))
    full = rng.random() < .4
    sv = 10.**rng.uniform(-1, 1.5, r)
    if full:
        r = min(m, n)
        sv = 100 * float(rng.uniform(.2, .7))**np.arange(r) + 1e-12
    U = np.linalg.qr(rng.normal(size=(m, r)))[0]
    V = np.linalg.qr(rng.normal(size=(n, r)))[0]
    sv = np.sort(sv)[::-1]
    A = (U * sv) @ V.T
    nl = int(rng.integers(r, min(m, n) + 1)) if not full else int(rng.integers(5, min(m, n) + 1))
    q = int(rng.integers(0, 3))
    ctx.case.update(shape=(m, n), rank=r, nl=nl, q=q, full=bool(full))
    u.rng = np.random.default_rng(int(rng.integers(1 << 40)))
    keep = A.copy()
    Q = u.find_range_randomly(A, nl, q=q)
    ctx.check(Q.shape == (m, nl), "range:shape", f"{Q.shape}")
    ctx.close(Q.T @ Q, np.eye(nl), "range:orthonormal", rtol=0, atol=1e-9)
    # an exact low rank is held exactly; otherwise the error is close to the first singular value left out
    tail = np.sqrt((sv[max(nl - 4, 0):]**2).sum()) if full else 0.
    allow = 1e-8 * sv[0] + 50 * np.sqrt(max(m, n)) * tail
    # (power iterations lose directions below the precision of the largest to the power)
    loss = sv[0] * np.sum((sv / sv[0])**(2 * q + 1) < 1e-13) and sv[sv > 0][(sv / sv[0])**(2 * q + 1) < 1e-11].sum()
    ctx.check(np.linalg.norm(A - Q @ (Q.T @ A), 2) <= allow + loss + sv[0] * 1e-13**(1 / (2 * q + 1)) * (len(sv) if q else 1), "range:holds", f"{np.linalg.norm(A - Q @ (Q.T @ A), 2)} left out, allowed {allow}")
    uu, w, vv = u.find_svd_randomly(A, nl, q=q) if rng.random() < .7 else u.find_svd_randomly(A, nl)
    k = min(nl, n)
    ctx.check(uu.shape == (m, k) and w.shape == (k,) and vv.shape == (k, n), "svd:shapes", f"{uu.shape} {w.shape} {vv.shape}")
    ctx.close(uu.T @ uu, np.eye(k), "svd:left", rtol=0, atol=1e-9)
    ctx.close(vv @ vv.T, np.eye(k), "svd:right", rtol=0, atol=1e-9)
    ctx.check(np.all(np.diff(w) <= 1e-12 * w[0]) and np.all(w >= 0), "svd:order", "singular values are not sorted")
    true = np.r_[sv, np.zeros(max(k - len(sv), 0))][:k]
    ctx.check(np.all(w <= true + 1e-9 * sv[0]), "svd:too large", f"{w[:4]} for {true[:4]}")
    big = true > 1e-2 * sv[0]
    if full:
        big[max(nl - 5, 0):] = False
    ctx.close(w[big], true[big], "svd:values", rtol=.5 if full else 1e-6, atol=1e-7 * sv[0])
    if not full:
        ctx.close((uu * w) @ vv, A, "svd:product", rtol=0, atol=2e-3 * sv[0] if sv[0] / sv[-1] > 50 else 1e-6 * sv[0])
    ctx.same(A, keep, "randomized:argument changed")
    ctx.check(ctx.raises(lambda: u.find_range_randomly(A, nl, q=-1), ValueError) is not None, "range:negative", "accepted")
    ctx.count("factorizations", 2)
    ctx.nontrivial(bool(full), q, m > n)


@monitor(6, 40)
def hdf5print(ctx):
    """The script that prints HDF5 files lists every group, dataset and attribute (of the first channel)."""
    import h5py
    rng = ctx.rng
    p = os.path.join(ctx.tmp, "some.hdf5")
    want, hidden = [], []
    with h5py.File(p, "w") as h:
        h.attrs["top"] = 5
        want.append("{top=5}")
        for c in range(int(rng.integers(1, 4))):
            g = h.create_group(f"chan{c}")
            g.attrs["number"] = 100 + c
            g["scalar%d" % c] = 3.
            g["vector%d" % c] = np.arange(int(rng.integers(1, 9)))
            g["empty%d" % c] = np.zeros((0, 2))
            s = g.create_group("sub%d" % c)
            if rng.random() < .5:
                s["inner%d" % c] = np.zeros((2, 3), np.float32)
                s["inner%d" % c].attrs["unit"] = "eV"
            w = [f"{{number={100 + c}}}", f"/scalar{c} (shape=() dtype=float64)", f"/vector{c} (shape={g['vector%d' % c].shape} dtype=int64)"] + ([f"/inner{c} (shape=(2, 3) dtype=float32)"] if f"inner{c}" in s else [])
            (want if c == 0 else hidden).extend(w)
    repo = os.environ["VERIF_TREE"]
    out = subprocess.run([sys.executable, os.path.join(repo, "bin", "hdf5print"), p], capture_output=True, text=True, timeout=120)
    ctx.check(out.returncode == 0, "hdf5print:fails", out.stderr[-400:])
    for w in want:
        ctx.check(w in out.stdout, "hdf5print:missing", f"{w} in {out.stdout}")
    for w in hidden:
        ctx.check(w not in out.stdout, "hdf5print:other channels", w)
    ctx.count("lines", len(want))
    ctx.nontrivial(len(want), len(hidden))
