"""C20: noise spectra and autocorrelations conserve power."""
import os

import numpy as np

from vlib import group as vg
from vlib import ljh as vl
from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case computes power spectra (single, segmented, overlapping, rebinned; any window, length, sample time, dtype) or autocorrelations of generated data, or the noise results of LJH noise files of any record length and "
        "number through NoiseRecords and TESGroups, with contaminated records and other segmentations, and compares every value with direct DFT sums and lagged products. Non-trivial = nonzero result from a non-constant input.")
ASSUMPTIONS = ["one-sided spectra count the first and last bins at twice their power (stated in the code), i.e. power is the trapezoidal integral over frequency",
               "continuous noise is correlated in chunks of 15 times the number of lags, each with its own mean removed (stated in the code); only with more than one chunk or with other chunk rules would the direct sum differ"]

KINDS = ("noise", "sine", "ramp", "const", "step", "ints", "huge", "tiny")


def gen(rng, n, kind=None):
    kind = kind or str(rng.choice(KINDS))
    t = np.arange(n)
    x = dict(noise=lambda: rng.normal(0, 5, n) + rng.choice([0, 100]), sine=lambda: 30 * np.sin(t * rng.uniform(.05, 3) + rng.uniform(0, 7)) + rng.normal(0, .1, n),
             ramp=lambda: t * rng.uniform(-3, 3), const=lambda: np.full(n, float(rng.integers(-5, 6))), step=lambda: np.where(t > rng.integers(0, n), 50., -3.),
             ints=lambda: rng.integers(-200, 200, n), huge=lambda: rng.normal(0, 1e9, n), tiny=lambda: rng.normal(0, 1e-9, n))[kind]()
    if kind == "ints":
        x = x.astype(str(rng.choice(["i8", "i4", "i2"])))
        if rng.random() < .3:
            x = np.abs(x).astype("u2")
    elif rng.random() < .15:
        x = x.astype("f4")
    return x


def win(rng, n):
    """(argument, weights of n samples)"""
    from mass.mathstat import power_spectrum as ps
    k = int(rng.integers(8))
    t = np.arange(n)
    d = max(n - 1, 1)
    if k == 0:
        return None, np.ones(n), "none"
    if k == 1 and n > 2:
        return ps.hann, .5 - .5 * np.cos(2 * np.pi * t / d), "hann"
    if k == 2 and n > 2:
        return ps.hamming, .54 - .46 * np.cos(2 * np.pi * t / d), "hamming"
    if k == 3 and n > 2:
        return ps.bartlett, 1 - np.abs(2 * t / d - 1), "bartlett"
    if k == 4 and n > 2:
        return ps.welch, 1 - (2 * t / d - 1)**2, "welch"
    if k == 5:
        w = rng.uniform(.1, 2, n)
        return w, w, "array"
    if k == 6:
        w = rng.uniform(.1, 2, n)
        return (lambda m, w=w: list(w[:m])), w, "listfunc"
    w = rng.integers(1, 9, n)
    return (w if rng.random() < .5 else list(w)), w.astype(float), "intarray"


def dft_psd(x, w, dt):
    """The one-sided PSD by its definition, with first and last bins at twice their power."""
    n = len(x)
    f = np.fft.fft(np.asarray(x, dtype=float) * w)[:n // 2 + 1]
    return 2 * dt * np.abs(f)**2 / np.sum(w**2)


def slow_psd(x, w, dt):
    n = len(x)
    k = np.arange(n // 2 + 1)
    E = np.exp(-2j * np.pi * np.outer(k, np.arange(n)) / n)
    return 2 * dt * np.abs(E @ (np.asarray(x, float) * w))**2 / np.sum(w**2)


def scale_of(x, w, dt):
    y = np.asarray(x, float) * w
    return 2 * dt * len(y) * np.sum(y**2) / np.sum(w**2) + 1e-300


def cl(ctx, got, want, scale, mech, tol=None):
    if tol is None:        # single-precision data are transformed in single precision
        tol = 1e-5 if getattr(ctx, "single", False) else 1e-11
    got, want = np.asarray(got), np.asarray(want)
    ctx.check(got.shape == want.shape, mech + " shape", f"{got.shape} != {want.shape}")
    ctx.check(bool(np.all(np.isfinite(got))), mech + " finite", f"{got[:8]}")
    e = np.max(np.abs(got - want)) if got.size else 0
    ctx.check(e <= tol * scale, mech, f"max |difference| {e} scale {scale}; got {got[:5]} want {want[:5]}")


@monitor(2500, 50000)
def spectrum(ctx):
    from mass.mathstat.power_spectrum import PowerSpectrum
    rng = ctx.rng
    m = int(rng.choice([1, 2, 3, 4, 5, 8, 16, 31, int(rng.integers(2, 120))]))
    dt = float(rng.choice([1., 1e-6, 9.6e-6, 3.7, 1e3]))
    nseg = int(rng.integers(1, 7))
    arg, w, wname = win(rng, 2 * m)
    data = [gen(rng, 2 * m) for _ in range(nseg)]
    ctx.single = any(d.dtype == np.float32 for d in data)
    ctx.case = dict(m=m, dt=dt, nseg=nseg, window=wname, types=[str(d.dtype) for d in data])
    sp = PowerSpectrum(m, dt=dt)
    keep = [d.copy() for d in data]
    one = []
    copies = []
    for d in data:
        if rng.random() < .3:
            copies.append((sp.copy(), len(one), sp.spectrum().copy() if one else None))
        sp.addDataSegment(list(d) if rng.random() < .1 else d, window=arg)
        one.append(slow_psd(d, w, dt) if m < 40 else dft_psd(d, w, dt))
    for a, b in zip(data, keep):
        ctx.same(a, b, "spectrum leaves its input alone")
    sc = np.mean([scale_of(d, w, dt) for d in data])
    got = sp.spectrum()
    cl(ctx, got, np.mean(one, axis=0), sc, "spectrum is the mean of the segments' DFT power")
    f = sp.frequencies()
    ctx.close(f, np.fft.rfftfreq(2 * m, dt), "DFT frequencies", rtol=1e-12, atol=0)
    # power
    ms = np.mean([np.sum((np.asarray(d, float) * w)**2) / np.sum(w**2) for d in data])
    ctx.close(np.sum((got[1:] + got[:-1]) / 2 * np.diff(f)), ms, "power spectrum integrates to the mean square", rtol=1e-5 if ctx.single else 1e-10, atol=1e-300)
    # copies are independent
    for c, k, was in copies:
        if was is not None:
            ctx.same(c.spectrum(), was, "a copy is not changed by data added to the original")
        c.addDataSegment(data[0], window=arg)
        cl(ctx, c.spectrum(), (np.sum(one[:k], axis=0) + one[0]) / (k + 1), sc * nseg, "spectrum of a copy")
    ctx.same(sp.spectrum(), got, "spectrum is not changed by data added to a copy")
    # amplitude scaling
    a = float(rng.choice([2., -3., .5, 1e3]))
    s2 = PowerSpectrum(m, dt=dt)
    for d in data:
        s2.addDataSegment(a * np.asarray(d, float), window=arg)
    cl(ctx, s2.spectrum(), a * a * got, a * a * sc, "spectrum scales as amplitude squared")
    s3 = PowerSpectrum(m)
    for d in data:
        s3.addDataSegment(d, window=arg)
    cl(ctx, s3.spectrum() * dt, got, sc, "spectrum scales as the sample time")
    # rebinning
    nb = int(rng.integers(1, m + 1))
    r, fr = sp.spectrum(nb), sp.frequencies(nb)
    ctx.check(len(r) == nb + 1 and len(fr) == nb + 1, "rebinned lengths", f"{len(r)} {len(fr)}")
    ctx.check(bool(np.all(np.isfinite(r))), "rebinned spectrum is finite", f"{r}")
    ctx.close(fr, np.arange(nb + 1) * (f[-1] / nb), "rebinned frequencies", rtol=1e-12, atol=0)
    j = np.floor(np.arange(m + 1) * nb / m + .5 + 1e-9).astype(int)
    j2 = np.floor(np.arange(m + 1) * nb / m + .5 - 1e-9).astype(int)
    for b in range(nb + 1):
        opts = [got[k == b].mean() for k in (j, j2) if (k == b).any()]
        if (j == b).tolist() == (j2 == b).tolist():
            ctx.check(abs(r[b] - opts[0]) <= 1e-9 * sc, "rebinned spectrum averages the bins nearest each frequency", f"bin {b} of {nb} m={m}: {r[b]} not {opts}")
    for bad in (nb + m, m + 1):
        ctx.check(ctx.raises(lambda: sp.spectrum(bad), ValueError) is not None, "too many bins refused", "")
    # long data
    nlong = int(rng.integers(2 * m, 2 * m * 5))
    L = gen(rng, nlong)
    s4 = PowerSpectrum(m, dt=dt)
    s4.addLongData(L, window=arg)
    k = nlong // (2 * m)
    ctx.single = L.dtype == np.float32
    cl(ctx, s4.spectrum(), np.mean([dft_psd(L[i * 2 * m:(i + 1) * 2 * m], w, dt) for i in range(k)], axis=0), scale_of(L[:2 * m * k], np.resize(w, 2 * m * k), dt) * 2 * k, "long data are segmented")
    ctx.single = False
    ctx.check(s4.nsegments == k, "number of segments", f"{s4.nsegments} {k}")
    bad = np.array(data[0], float)
    bad[int(rng.integers(2 * m))] = np.nan
    before = sp.spectrum()
    ctx.check(ctx.raises(lambda: sp.addDataSegment(bad, window=arg), ValueError) is not None, "NaN refused", "")
    ctx.check(ctx.raises(lambda: sp.addDataSegment(np.zeros(2 * m + 1), window=arg), ValueError) is not None, "wrong length refused", "")
    ctx.same(sp.spectrum(), before, "refused data leave the spectrum alone")
    ctx.count("spectra", nseg)
    if got.any():
        ctx.nontrivial(m, wname, nseg, nb)


@monitor(1500, 30000)
def overlap(ctx):
    """Overlapping segments and the convenience function."""
    from mass.mathstat.power_spectrum import PowerSpectrumOverlap, computeSpectrum
    rng = ctx.rng
    m = int(rng.choice([1, 2, 3, 4, 8, 16, int(rng.integers(2, 80))]))
    dt = float(rng.choice([1., 1e-6, 9.6e-6]))
    arg, w, wname = win(rng, 2 * m)
    k = int(rng.integers(2, 9))
    parts = [gen(rng, m) for _ in range(k)]
    ctx.case = dict(m=m, dt=dt, window=wname, k=k, types=[str(p.dtype) for p in parts])
    sp = PowerSpectrumOverlap(m, dt=dt)
    keep = [p.copy() for p in parts]
    pairs = [np.concatenate([parts[i].astype(float), parts[i + 1].astype(float)]) for i in range(k - 1)]
    cp = None
    at = int(rng.integers(k)) if rng.random() < .5 else -1
    for i, p in enumerate(parts):
        if i == at:
            cp = sp.copy()
        sp.addDataSegment(p, window=arg)
    for a, b in zip(parts, keep):
        ctx.same(a, b, "overlap leaves its input alone")
    want = np.mean([dft_psd(p, w, dt) for p in pairs], axis=0)
    sc = np.mean([scale_of(p, w, dt) for p in pairs])
    cl(ctx, sp.spectrum(), want, sc, "overlapping spectrum is the mean over consecutive pairs")
    if cp is not None:
        for p in parts[at:]:
            cp.addDataSegment(p, window=arg)
        cl(ctx, cp.spectrum(), want, sc, "a copied overlapping spectrum continues as the original")
        cl(ctx, sp.spectrum(), want, sc, "overlapping spectrum is not changed by its copy")
    # long data: 2m-long segments, evenly covering the data
    n = int(rng.integers(2 * m, 14 * m + 2))
    x = gen(rng, n)
    s2 = PowerSpectrumOverlap(m, dt=dt)
    s2.addLongData(x, window=arg)
    nk = max((n - 1) // m, 1)
    ctx.single = x.dtype == np.float32
    if nk > 0 and not (m == 1 and n <= 2):
        dl = (n - 2 * m) / (nk - 1) if nk > 1 else 0
        starts = [int(i * dl + .5) for i in range(nk)]
        ctx.check(s2.nsegments == nk, "number of overlapping segments", f"{s2.nsegments} {nk}")
        cl(ctx, s2.spectrum(), np.mean([dft_psd(x[s:s + 2 * m], w, dt) for s in starts], axis=0), scale_of(x, np.resize(w, n), dt) * 4, "overlapping spectrum of long data")
    # computeSpectrum
    seg = int(rng.choice([1, 1, 2, 3, 4, 10]))
    n = int(rng.integers(2 * seg, 2 * seg + 200))
    x = gen(rng, n)
    M = n // (2 * seg)
    arg, w, wname = win(rng, 2 * M)
    ctx.case.update(segfactor=seg, n=n, window2=wname)
    ctx.single = x.dtype == np.float32
    x0 = x.copy()
    r = computeSpectrum(x, segfactor=seg, dt=dt, window=arg)
    p = computeSpectrum(x, segfactor=seg, window=arg)
    ctx.same(x, x0, "computeSpectrum leaves its input alone")
    f, s = r
    ctx.close(f, np.fft.rfftfreq(2 * M, dt), "computeSpectrum frequencies", rtol=1e-12, atol=0)
    segs = [x[:2 * M]] if seg == 1 else [x[i * M:(i + 2) * M] for i in range(2 * seg - 2)]
    want = np.mean([dft_psd(y, w, dt) for y in segs], axis=0)
    sc = np.mean([scale_of(y, w, dt) for y in segs])
    cl(ctx, s, want, sc, "computeSpectrum values")
    cl(ctx, np.asarray(p) * dt, want, sc, "computeSpectrum without a sample time")
    ctx.nontrivial(m, wname, seg, n)


def lagged(x, nl):
    """Lagged products by definition; x has its mean removed."""
    x = np.asarray(x, float)
    x = x - x.mean()
    return np.array([np.dot(x[:len(x) - k], x[k:]) / (len(x) - k) for k in range(nl)])


@monitor(800, 12000)
def broken(ctx):
    from mass.mathstat.power_spectrum import autocorrelation_broken_from_pulses
    rng = ctx.rng
    n, npulse = int(rng.choice([1, 2, 5, int(rng.integers(3, 80))])), int(rng.integers(1, 12))
    x = np.array([gen(rng, n, kind=str(rng.choice(KINDS[:6]))) for _ in range(npulse)]).T
    kind = int(rng.integers(4))
    if kind == 0:
        x = np.round(x).astype("i8")
    elif kind == 1:
        x = np.abs(np.round(x)).astype("u2")
    elif kind == 2:
        x = np.asfortranarray(x)
    single = x.dtype == np.float32
    x0 = x.copy()
    if rng.random() < .3:
        x.setflags(write=False)
    ctx.case = dict(n=n, npulse=npulse, dtype=str(x.dtype))
    got = autocorrelation_broken_from_pulses(x)
    ctx.same(x, x0, "autocorrelation leaves its input alone")
    want = np.mean([lagged(x0[:, i], n) for i in range(npulse)], axis=0)
    sc = np.max([np.abs(x0[:, i].astype(float) - x0[:, i].mean()).max()**2 for i in range(npulse)]) + 1e-300 + 1e-14 * np.abs(x0.astype(float)).max()**2
    cl(ctx, got, want, sc, "autocorrelation is the mean lagged product", tol=(1e-5 if single else 1e-10) * n)
    ctx.check(abs(got[0] - np.mean(np.var(x0.astype(float), axis=0))) <= (1e-5 if single else 1e-10) * n * sc, "zero lag is the variance", f"{got[0]}")
    if got.any():
        ctx.nontrivial(n, npulse, kind)


def noise_data(rng, nrec, ns, cont):
    sig = float(rng.choice([3., 10., 30.]))
    x = rng.normal(0, sig, nrec * ns)
    col = bool(rng.random() < .5)
    if col:
        x = np.convolve(x, [1, .8, .5, .3], mode="same")
    x = x + 5000 + float(rng.integers(-100, 100))
    return np.clip(np.round(x), 0, 65535).astype(np.uint16).reshape(nrec, ns), sig, col


def contaminate(rng, x, frac, limit, factors=(4, 6, 9)):
    """Put big excursions in some records. (new data, clean mask)"""
    y = x.copy()
    n = len(x)
    clean = rng.random(n) >= frac
    if not clean.any():
        clean[0] = True
    for i in np.nonzero(~clean)[0]:
        a, L = int(rng.integers(x.shape[1] - 1)), int(rng.integers(1, max(2, x.shape[1] // 8)))
        seg = y[i, a:a + L].astype(int) + int(rng.choice(factors) * limit) * int(rng.choice([1, 1, -1] if limit < 300 else [1]))
        y[i, a:a + L] = np.clip(seg, 0, 65535)
    return y, clean


@monitor(250, 5000)
def records(ctx):
    """NoiseRecords without an HDF5 file: any segmentation, lags, range of samples."""
    from mass.core.channel import NoiseRecords
    rng = ctx.rng
    cont = bool(rng.random() < .6)
    ns = int(rng.choice([4, 10, 31, 50, 100, 101]))
    nrec = int(rng.choice([15, 16, 20, 45, 64, 100]))
    x, sig, col = noise_data(rng, nrec, ns, cont)
    limit = int(rng.choice([400, 1000]))
    x, clean = contaminate(rng, x, float(rng.choice([0, 0, .05, .3])), limit)
    dt = float(rng.choice([1e-5, 9.6e-6, 1e-3]))
    p = os.path.join(ctx.tmp, "n_chan1.ljh")
    vl.write22(p, x, np.arange(nrec) * ns, np.arange(nrec) * 1000 + 10**15, npre=ns // 2, timebase=dt, rows=8, row=1, channum=1)
    ctx.case = dict(cont=cont, ns=ns, nrec=nrec, limit=limit, nclean=int(clean.sum()), dt=dt, colored=col)
    nr = NoiseRecords(p, records_are_continuous=cont)
    # spectrum
    seg = ns
    if cont and rng.random() < .7:
        seg = int(rng.choice([2 * ns, 3 * ns, 64, 37, 16, ns, ns + 1]))
        seg = min(seg, x.size)
    arg, w, wname = win(rng, 2 * (seg // 2))
    ctx.case.update(seg=seg, window=wname)
    flat = x.ravel()
    segs = flat[:len(flat) - len(flat) % seg].reshape(-1, seg)[:, :2 * (seg // 2)].astype(float)
    segs = segs - segs.mean(axis=1, keepdims=True)
    use = (segs.max(axis=1) - segs.min(axis=1)) < limit
    dflt = wname == "hann" and rng.random() < .5

    def run():
        if dflt:
            return nr.compute_power_spectrum_reshape(seg_length=seg, max_excursion=limit)
        return nr.compute_power_spectrum_reshape(window=arg, seg_length=seg, max_excursion=limit)
    if not use.any():
        ctx.check(ctx.raises(run, Exception) is not None, "no clean segment is an error", "")
    else:
        sp = run()
        want = np.mean([dft_psd(s, w, dt) for s in segs[use]], axis=0)
        sc = np.mean([scale_of(s, w, dt) for s in segs[use]])
        cl(ctx, sp.spectrum(), want, sc, "noise spectrum of clean segments")
        ctx.check(sp.nsegments == int(use.sum()), "number of clean segments", f"{sp.nsegments} {use.sum()}")
        cl(ctx, nr.noise_psd, want, sc, "stored noise spectrum")
        ctx.close(sp.frequencies(), np.fft.rfftfreq(2 * (seg // 2), dt), "noise frequencies", rtol=1e-12, atol=0)
        if not col and wname == "none" and use.sum() * seg > 3000:
            ctx.close(np.mean(sp.spectrum()[1:-1]), 2 * dt * sig**2, "white noise level", rtol=.25, atol=0) if seg > 8 else None
    # autocorrelation
    nl = None if rng.random() < .2 else int(rng.choice([ns, ns, max(1, ns // 2), 1, 2]))
    rng_s = None
    if rng.random() < .4:
        a = int(rng.integers(0, x.size // 3))
        rng_s = [a, int(rng.integers(max(a + ns, x.size // 2), x.size + 1))]
    ctx.case.update(n_lags=nl, data_samples=rng_s)
    lim2 = limit
    a, b = rng_s or (0, x.size)
    if not cont:
        rows = [i for i in range(nrec) if i * ns >= a and (i + 1) * ns <= b]
        good = [i for i in rows if x[i].max().astype(int) - x[i].min() <= lim2]
        L = ns if nl is None else nl
        if not good:
            ctx.check(ctx.raises(lambda: nr.compute_autocorrelation(n_lags=nl, data_samples=rng_s, plot=False, max_excursion=lim2), Exception) is not None, "no clean record is an error", "")
            return
        nr.compute_autocorrelation(n_lags=nl, data_samples=rng_s, plot=False, max_excursion=lim2)
        want = np.mean([lagged(x[i], L) for i in good], axis=0)
        cl(ctx, nr.autocorrelation, want, limit**2, "noise autocorrelation of clean records", tol=1e-10)
    else:
        ps = max(1, nr.records_per_segment) * ns
        L = min(ps if nl is None else nl, ps)
        nd = b - a
        if nd < 15 * L:
            L = nd // 15
            if L < ns:
                ctx.check(ctx.raises(lambda: nr.compute_autocorrelation(n_lags=nl, data_samples=rng_s, plot=False, max_excursion=lim2), ValueError) is not None, "too few data is an error", f"{nd} {L}")
                return
        c = 15 * L
        y = flat[a:b].astype(float)
        y = y[:len(y) // c * c].reshape(-1, c)
        y = y - y.mean(axis=1, keepdims=True)
        g = np.abs(y).max(axis=1) <= lim2
        if not g.any():
            ctx.check(ctx.raises(lambda: nr.compute_autocorrelation(n_lags=nl, data_samples=rng_s, plot=False, max_excursion=lim2), Exception) is not None, "no clean chunk is an error", "")
            return
        nr.compute_autocorrelation(n_lags=nl, data_samples=rng_s, plot=False, max_excursion=lim2)
        want = np.mean([lagged(s, L) for s in y[g]], axis=0)
        cl(ctx, nr.autocorrelation, want, limit**2, "autocorrelation of continuous noise", tol=1e-9)
    if use.any():
        ctx.nontrivial(cont, ns, nrec, seg, nl)
    ctx.count("noise records", nrec)


@monitor(60, 900)
def groups(ctx):
    """The noise results that a TESGroup stores for its channels."""
    rng = ctx.rng
    cont = bool(rng.random() < .5)
    ns = int(rng.choice([50, 100, 101, 128]))
    nrec = int(rng.choice([16, 30, 80]))
    limit = int(rng.choice([1000, 500, 800, 1600]))
    dt = float(rng.choice([1e-5, 9.6e-6]))
    chans = (1, 3) if rng.random() < .5 else (2,)
    f = vg.make_files(ctx, chans=chans, n=12, nnoise=0, ns=ns, npre=ns // 3, timebase=dt)
    xs, cl_, sg = {}, {}, {}
    for c in chans:
        x, sig, col = noise_data(rng, nrec, ns, cont)
        fr = float(rng.choice([0, .1]))
        x_clean = x
        weak = rng.random() < .5
        x, clean = contaminate(rng, x, fr, limit, (.75, 1.3, 2) if weak else (4, 6, 9))
        col = col or bool(weak and fr)      # some excursions are within the limit
        if cont and fr:      # leave the first chunk clean
            x[:15], clean[:15] = x_clean[:15], True
        p = os.path.join(ctx.tmp, f"z_noise_chan{c}.ljh")
        vl.write22(p, x, np.arange(nrec) * ns, np.arange(nrec) * 1000 + 10**15, npre=ns // 3, timebase=dt, rows=8, row=1, channum=c)
        f["noise"].append(p)
        xs[c], cl_[c], sg[c] = x, clean, (sig, col)
    ctx.case = dict(cont=cont, ns=ns, nrec=nrec, chans=list(chans), clean={c: int(v.sum()) for c, v in cl_.items()}, dt=dt)
    g = vg.open_group(f, noise_is_continuous=cont)
    try:
        how = int(rng.integers(3))
        if how == 0:
            g.compute_noise(max_excursion=limit)
        elif how == 1:
            for ds in g:
                ds.compute_noise(max_excursion=limit)
        else:
            g.compute_noise_spectra(max_excursion=limit)
        w = .5 - .5 * np.cos(2 * np.pi * np.arange(2 * (ns // 2)) / (2 * (ns // 2) - 1))
        for c in chans:
            ds = g.channel[c]
            x = xs[c].astype(float)
            ctx.check(c in g.good_channels, "noise channel is good", str(g.why_chan_bad.get(c)))
            s = x[:, :2 * (ns // 2)]
            s = s - s.mean(axis=1, keepdims=True)
            use = s.max(axis=1) - s.min(axis=1) < limit
            want = np.mean([dft_psd(v, w, dt) for v in s[use]], axis=0)
            sc = np.mean([scale_of(v, w, dt) for v in s[use]])
            cl(ctx, ds.noise_psd[:], want, sc, "channel noise_psd")
            cl(ctx, ds.noise_records.noise_psd[:], want, sc, "noise records' noise_psd")
            ctx.close(float(ds.noise_psd.attrs["delta_f"]), 1 / (2 * (ns // 2) * dt), "delta_f", rtol=1e-10)
            if cont:
                k = 15 * ns
                y = x.ravel()
                y = y[:len(y) // k * k].reshape(-1, k)
                y = y - y.mean(axis=1, keepdims=True)
                y = y[np.abs(y).max(axis=1) <= limit]
            else:
                y = [v for v in x if v.max() - v.min() <= limit]
            wa = np.mean([lagged(v, ns) for v in y], axis=0)
            cl(ctx, ds.noise_autocorr[:], wa, limit**2, "channel noise_autocorr", tol=1e-9)
            sig, col = sg[c]
            if not col:
                ctx.check(abs(ds.noise_autocorr[0] / (sig**2 + 1 / 12) - 1) < 8 / np.sqrt(len(y) * len(y[0])), "white noise variance", f"{ds.noise_autocorr[0]} vs {sig**2}")
                ctx.check(abs(np.mean(ds.noise_psd[2:-2]) / (2 * dt * (sig**2 + 1 / 12)) - 1) < 12 / np.sqrt(use.sum() * ns), "white noise level of a channel", f"{np.mean(ds.noise_psd[2:-2])} vs {2 * dt * sig**2}")
        # other lags, from the same noise
        if rng.random() < .5:
            nl = int(rng.choice([32, 64, ns]))
            ds = g.channel[chans[0]]
            was = ds.noise_autocorr[:].copy(), ds.noise_psd[:].copy()
            x = xs[chans[0]].astype(float)
            y = x.ravel()
            k = 15 * nl
            z = y[:len(y) // k * k].reshape(-1, k)
            ex = np.abs(z - z.mean(axis=1, keepdims=True)).max(axis=1) if len(z) else np.zeros(0)
            z = z[ex <= limit]
            zp = y[:len(y) // nl * nl].reshape(-1, nl)[:, :2 * (nl // 2)]
            zp = zp[np.ptp(zp, axis=1) < limit]
            if len(z) and len(zp) and np.all(np.abs(ex - limit) > 1e-6):
                ds.compute_noise_nlags(nl, max_excursion=limit)
                cl(ctx, ds.noise_records_nlags.autocorrelation[:], np.mean([lagged(v, nl) for v in z], axis=0), limit**2, "autocorrelation for a number of lags", tol=1e-9)
                z = zp
                z = z - z.mean(axis=1, keepdims=True)
                w2 = np.hanning(2 * (nl // 2))
                cl(ctx, ds.noise_records_nlags.noise_psd[:], np.mean([dft_psd(v, w2, dt) for v in z], axis=0), scale_of(z[0], w2, dt) * 5, "spectrum for a number of lags")
                ctx.same(ds.noise_autocorr[:], was[0], "other lags leave the stored noise alone")
                ctx.same(ds.noise_psd[:], was[1], "other lags leave the stored spectrum alone")
        if rng.random() < .5:
            # contaminated records matter only by being left out
            ds = g.channel[chans[0]]
            was = ds.noise_autocorr[:].copy(), ds.noise_psd[:].copy()
            x2 = xs[chans[0]].copy()
            for i in np.nonzero(~cl_[chans[0]] & (np.ptp(x2[:, :2 * (ns // 2)].astype(float), axis=1) > limit))[0]:
                x2[i] = np.clip(x2[i].astype(int) * 3 - 2 * int(x2[i].min()), 0, 65535)
            vg.close_group(g)
            p = [q for q in f["noise"] if q.endswith(f"chan{chans[0]}.ljh")][0]
            vl.write22(p, x2, np.arange(nrec) * ns, np.arange(nrec) * 1000 + 10**15, npre=ns // 3, timebase=dt, rows=8, row=1, channum=chans[0])
            g = vg.open_group(f, hdf5=os.path.join(ctx.tmp, "second.hdf5"), noise_is_continuous=cont)
            g.compute_noise(max_excursion=limit)
            ds = g.channel[chans[0]]
            if not cont:
                ctx.same(ds.noise_autocorr[:], was[0], "contaminated records do not matter to the autocorrelation")
            ctx.same(ds.noise_psd[:], was[1], "contaminated records do not matter to the spectrum")
        # assumed white noise
        v = float(rng.choice([1., 25.]))
        g.assume_white_noise(noise_variance=v, forceNew=True)
        for c in chans:
            ds = g.channel[c]
            ctx.close(ds.noise_autocorr[:], np.r_[v, np.zeros(ns - 1)], "assumed white noise: autocorrelation", rtol=1e-13)
            ctx.close(ds.noise_psd[:], np.full(1 + ns // 2, 2 * v * dt), "assumed white noise: spectrum", rtol=1e-12)
            ctx.close(float(np.sum((ds.noise_psd[1:] + ds.noise_psd[:-1]) / 2) * ds.noise_psd.attrs["delta_f"]), v, "assumed white noise: power", rtol=1e-10)
        ctx.nontrivial(cont, ns, nrec, chans, how)
    finally:
        vg.close_group(g)


def lines(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]


@monitor(60, 800)
def drawn(ctx):
    """Plots of spectra and autocorrelations show exactly them, on log axes, and only on the axes given."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from mass.core.channel import NoiseRecords
    from mass.mathstat import power_spectrum as ps
    rng = ctx.rng
    plt.close("all")
    m = int(rng.choice([2, 5, 16, 50]))
    dt = float(rng.choice([1., 1e-5, .37]))
    sp = (ps.PowerSpectrum if rng.random() < .5 else ps.PowerSpectrumOverlap)(m, dt)
    sp.addLongData(gen(rng, 2 * m * int(rng.integers(2, 6)), "noise"))
    spec, fr = sp.spectrum(), sp.frequencies()
    for nb in (1, m, m + 1, 3 * m + 1):
        if nb > m:
            ctx.check(ctx.raises(lambda: sp.frequencies(nb), ValueError) is not None, "too many frequency bins is an error", f"{nb} {m}")
            ctx.check(ctx.raises(lambda: sp.spectrum(nb), ValueError) is not None, "too many spectrum bins is an error", f"{nb} {m}")
        else:
            ctx.check(len(sp.frequencies(nb)) == len(sp.spectrum(nb)) == nb + 1, "one frequency per rebinned value", "")
    fig, (a, other) = plt.subplots(1, 2)
    given = bool(rng.random() < .6)
    plt.sca(other)
    sq, k = bool(rng.random() < .5), float(rng.choice([1, .02, 3.]))
    kw = {} if rng.random() < .3 else dict(sqrt_psd=sq)
    sq = kw.get("sqrt_psd", True)
    if k != 1:
        kw["arb_to_unit_scale_and_label"] = (k, "furlong")
    ctx.case = dict(m=m, given=given, sqrt=sq, k=k)
    sp.plot(axis=a if given else None, color="r", **kw)
    ax = a if given else plt.gca()
    want = spec[1:] * k**2
    got = lines(ax)
    ctx.check(len(got) == 1, "a plot of one spectrum", f"{len(got)}")
    ctx.close(got[0][0], fr[1:], "frequencies plotted", rtol=1e-12, atol=0)
    ctx.close(got[0][1], np.sqrt(want) if sq else want, "spectrum plotted", rtol=1e-12, atol=0)
    ctx.check(ax.get_xscale() == ax.get_yscale() == "log", "spectrum on log scales", ax.get_xscale() + ax.get_yscale())
    ctx.check(("Amplitude" in ax.get_ylabel()) == sq and ("furlong" in ax.get_ylabel()) == (k != 1), "spectrum axis label", ax.get_ylabel())
    ctx.check(not other.lines and other.get_xscale() == "linear", "other axes are left alone", "")
    ctx.same(sp.spectrum(), spec, "plotting leaves the spectrum alone")
    # noise records, with and without results computed first
    ns, nrec = int(rng.choice([20, 50, 64])), int(rng.choice([20, 40]))
    cont = bool(rng.random() < .5)
    x, sig, col = noise_data(rng, nrec, ns, cont)
    p = os.path.join(ctx.tmp, "d_chan1.ljh")
    vl.write22(p, x, np.arange(nrec) * ns, np.arange(nrec) * 1000 + 10**15, npre=ns // 2, timebase=dt, rows=8, row=1, channum=1)
    use = None if rng.random() < .5 else int(rng.choice([17, nrec, nrec + 5]))
    nr = NoiseRecords(p, records_are_continuous=cont, use_records=use)
    nu = min(nrec, use or nrec)
    y = x[:nu].astype(float)
    ctx.case.update(cont=cont, ns=ns, nrec=nrec, use=use)
    s = y - y.mean(axis=1, keepdims=True)
    h = .5 - .5 * np.cos(2 * np.pi * np.arange(ns) / (ns - 1))
    psd = np.mean([dft_psd(v, h, dt) for v in s], axis=0)
    sc = scale_of(s[0], h, dt) * 5
    if cont:
        c = 15 * ns
        z = y.ravel()[:y.size // c * c].reshape(-1, c)
        ac = np.mean([lagged(v, ns) for v in z], axis=0)
    else:
        ac = np.mean([lagged(v, ns) for v in y], axis=0)
    plt.close("all")
    fig, (a, other) = plt.subplots(1, 2)
    plt.sca(other)
    how = int(rng.integers(3))
    sq, k = bool(rng.random() < .5), float(rng.choice([1, .5]))
    if how == 0:
        nr.compute_power_spectrum()
        ax, sq, k = plt.gca(), False, 1
    else:
        if how == 1:
            nr.compute_power_spectrum(plot=False)
        nr.plot_power_spectrum(axis=a, scale=k, sqrt_psd=sq)
        ax = a
        ctx.check(not other.lines, "other axes are left alone", "")
    got = lines(ax)
    ctx.check(len(got) == 1, "a plot of one noise spectrum", f"{len(got)}")
    ctx.close(got[0][0], np.arange(1, ns // 2 + 1) / (ns * dt), "noise frequencies plotted", rtol=1e-10, atol=0)
    cl(ctx, got[0][1]**(2 if sq else 1), psd[1:] * k**2, sc, "noise spectrum plotted")
    ctx.check(ax.get_xscale() == ax.get_yscale() == "log", "noise spectrum on log scales", "")
    if how == 0:
        nr.compute_autocorrelation(n_lags=ns)
        ax = plt.gca()
    else:
        if how == 1 or cont:
            nr.compute_autocorrelation(n_lags=ns, plot=False)
        a.clear()
        nr.plot_autocorrelation(axis=a)
    got = lines(ax)
    ctx.check(len(got) == 2, "a plot of one autocorrelation", f"{len(got)}")
    ctx.close(got[0][0], np.arange(ns) * dt * 1e3, "lags plotted in milliseconds", rtol=1e-10, atol=0)
    cl(ctx, got[0][1], ac, 1e4, "autocorrelation plotted", tol=1e-9)
    ctx.close(got[1][1], got[0][1][:1], "zero lag marked", rtol=1e-12, atol=0)
    if cont and rng.random() < .6:
        L = [64, 16] if rng.random() < .5 else None
        plt.close("all")
        spectra = nr.compute_fancy_power_spectra(seglength_choices=L)
        want = L
        if want is None:
            n = x.size
            want = [1]
            while want[0] <= n // 16:
                want[0] *= 2
            while want[-1] > 256:
                want.append(want[-1] // 4)
        ctx.check([v.m2 for v in spectra] == want, "segment lengths of several spectra", f"{[v.m2 for v in spectra]} {want}")
        got = lines(plt.gca())
        ctx.check(len(got) == len(spectra), "one curve for each spectrum", f"{len(got)}")
        for (xx, yy), v in zip(got, spectra):
            g = y.ravel()[:y.size // v.m2 * v.m2].reshape(-1, v.m2)
            g = g - g.mean(axis=1, keepdims=True)
            hh = .5 - .5 * np.cos(2 * np.pi * np.arange(v.m2) / (v.m2 - 1))
            cl(ctx, v.spectrum(), np.mean([dft_psd(q, hh, dt) for q in g], axis=0), scale_of(g[0], hh, dt) * 5, "spectrum of each segment length")
            f = v.frequencies()
            if len(xx):
                i = np.searchsorted(f, xx)
                ctx.close(f[np.minimum(i, len(f) - 1)], xx, "frequencies of each curve", rtol=1e-9, atol=1e-12)
                cl(ctx, yy, v.spectrum()[np.minimum(i, len(f) - 1)], sc, "values of each curve")
    plt.close("all")
    ctx.nontrivial(m, ns, nrec, cont, how)
    ctx.count("spectra drawn", 1)
