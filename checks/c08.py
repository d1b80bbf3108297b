"""C08: optimal filters are unbiased, normalised and predict their own resolution."""
import numpy as np
import scipy.linalg

from vlib import group
from vlib.core import monitor

BUILD = "fast"
RULE = ("A case draws a pulse template (one or two exponentials, ramps, plateaus, random smooth shapes, noisy pretrigger, negative-going), a noise covariance (white, AR/ARMA, exponential mixtures), record geometry, cuts and "
        "low-pass settings, makes every kind of filter, and compares values, responses, variance and resolving power with dense linear algebra. Metamorphic cases rescale signal and noise. Group cases judge filters made from data files. "
        "Non-trivial = a filter was made and compared.")
ASSUMPTIONS = ["noise covariances have a condition number below 1e7", "Fourier filters: even record length (the PSD does not determine an odd one)",
               "arrival-time-safe filters are not renormalised after band-limiting: with fmax or f_3db only their variance, resolving power, DC response and cut weights are compared"]
G = 8 * np.log(2)


def noise_acf(rng, n):
    k = rng.integers(0, 4)
    if k == 0:
        r = np.zeros(n)
        r[0] = rng.uniform(0.1, 30)
    elif k == 1:
        r = rng.uniform(0.5, 20) * np.exp(-np.arange(n) / rng.uniform(0.5, 15))
        r[0] *= 1 + rng.uniform(0.01, 1)
    elif k == 2:
        r = sum(rng.uniform(0.1, 5) * np.exp(-np.arange(n) / t) for t in rng.uniform(1, 40, size=3))
        r[0] += rng.uniform(0.05, 2)
    else:
        r = rng.uniform(0.5, 5) * np.exp(-np.arange(n) / rng.uniform(3, 20)) * np.cos(np.arange(n) * rng.uniform(0.05, 1.5))
        r[0] += rng.uniform(0.2, 2)
    return r


def template(rng, n, npre):
    t = np.arange(n) - npre
    tt = np.clip(t, 0, None)
    k = rng.integers(0, 5)
    if k == 0:
        s = np.exp(-tt / rng.uniform(5, 40)) - np.exp(-tt / rng.uniform(0.5, 4))
    elif k == 1:
        s = np.exp(-tt / rng.uniform(5, 40)) * (t >= 0)
    elif k == 2:
        s = tt / (1 + tt / rng.uniform(3, 10))**2
    elif k == 3:
        s = np.convolve(rng.random(n) * (t >= 0), np.ones(7) / 7)[:n] * np.exp(-tt / 15.) * (t >= 0)
    else:
        s = (np.exp(-tt / 12.) - np.exp(-tt / 2.)) - 0.3 * (np.exp(-tt / 30.) - np.exp(-tt / 12.))
    s = s * 10.0**rng.uniform(0, 4) / np.abs(s).max()
    s = s + (t < 0) * rng.normal(size=n) * 1e-3 * np.abs(s).max()
    return s + float(rng.choice([0, 500.3, -20, 1e4]))


def geometry(rng, tier):
    n = int(rng.choice([20, 31, 50, 64, 100, 101, 150]))
    npre = int(rng.integers(4, max(5, n - 12)))
    return n, npre


def normalised(s, npre, pre, post, dt=None):
    """The documented unit-amplitude, zero-baseline model."""
    base = s[pre:npre - 1].mean()
    a = s - base
    amp = a.max()
    a = a / amp
    a[:npre] = 0
    return a[pre:len(s) - post], base, amp


def peak5(f, x):
    c = np.array([f @ x[i:i + len(f)] for i in range(5)])
    p = np.polyfit(np.arange(-2, 3), c, 2)
    return p[2] - p[1]**2 / (4 * p[0])


def lowpass(v, dt, fmax, f3):
    if fmax is None and f3 is None:
        return v
    F = np.fft.rfft(v)
    fr = np.arange(len(F)) / (len(v) * dt)
    if fmax is not None:
        F[fr > fmax] = 0
    if f3 is not None:
        F = F / (1 + (fr / f3)**2)
    return np.fft.irfft(F, n=len(v))


def bands(rng, dt):
    r = rng.random()
    ny = 0.5 / dt      # fmax passes at least the lowest frequencies of any window here
    if r < 0.5:
        return {}
    if r < 0.7:
        return dict(fmax=float(ny * rng.uniform(0.4, 0.95)))
    if r < 0.9:
        return dict(f_3db=float(ny * rng.uniform(0.05, 2)))
    return dict(fmax=float(ny * rng.uniform(0.4, 0.95)), f_3db=float(ny * rng.uniform(0.05, 2)))


def usable(s, npre, pre, post, R):
    """The problem is well posed: a peak inside the window, and a covariance that can be inverted."""
    a, base, amp = normalised(s, npre, pre, post)
    return amp > 0 and len(a) >= 12 and np.ptp(a[2:-2]) > 0.2


def maker_case(ctx):
    import mass
    rng = ctx.rng
    n, npre = geometry(rng, ctx.tier)
    s = template(rng, n, npre)
    R = noise_acf(rng, n + int(rng.choice([0, 0, 5])))
    dt = float(rng.choice([1e-6, 1e-5, 1.0]))
    pre, post = (0, 0) if rng.random() < 0.4 else (int(rng.integers(0, npre - 2)), int(rng.integers(0, max(1, n - npre - 8))))
    ctx.case.update(n=n, npre=npre, dt=dt, pre=pre, post=post, signal=s, R=R)
    T = scipy.linalg.toeplitz(R[:n])
    w = np.linalg.eigvalsh(T)
    ctx.need(w[0] > 0 and w[-1] / w[0] < 1e7)
    ctx.need(usable(s, npre, pre, post, R))
    return mass, rng, n, npre, s, R, dt, pre, post, T


def five_reference(a, T):
    x = a[2:-2]
    m = len(x)
    C = np.linalg.inv(T[:m, :m])
    one = np.ones(m)
    f = (one @ C @ one) * (C @ x) - (one @ C @ x) * (C @ one)
    return f


@monitor(700, 12000)
def fivelag(ctx):
    mass, rng, n, npre, s, R, dt, pre, post, T = maker_case(ctx)
    kw = bands(rng, dt)
    peak = 0.0 if rng.random() < 0.6 else float(rng.uniform(1, 5000))
    s0 = s.copy()
    f = mass.FilterMaker(s, npre, R, sample_time_sec=dt, peak=peak).compute_5lag(cut_pre=pre, cut_post=post, **kw)
    ctx.same(s, s0, "input-modified")
    a, base, amp = normalised(s, npre, pre, post)
    core = f.values[pre:len(f.values) - post]
    ctx.check(len(f.values) == n - 4, "length", f"filter of length {len(f.values)} for {n} samples")
    ctx.check(np.all(f.values[:pre] == 0) and (post == 0 or np.all(f.values[-post:] == 0)), "cut-weight", "cut samples have weight")
    scale = np.abs(core).sum()
    ctx.close(peak5(core, a), 1.0, "unit-response", rtol=1e-7)
    ctx.check(abs(core.sum()) <= 1e-9 * scale, "dc-response", f"sum of weights {core.sum()} of {scale}")
    m = len(core)
    ctx.close(f.variance, core @ T[:m, :m] @ core, "variance", rtol=1e-8)
    want = peak if peak > 0 else s[pre:n - post].max() - base
    ctx.close(f.nominal_peak, want, "nominal-peak", rtol=1e-10)
    ctx.close(f.predicted_v_over_dv, want / np.sqrt(G * f.variance), "v-over-dv", rtol=1e-10)
    ctx.check(f.convolution_lags == 5 and (f.cut_pre, f.cut_post, f.fmax, f.f_3db) == (pre, post, kw.get("fmax"), kw.get("f_3db")), "metadata", "settings recorded")
    ctx.close(f.signal_model, a, "signal-model", rtol=1e-10, atol=1e-13)
    # the optimum, from dense linear algebra, then band-limited and normalised
    ref = lowpass(five_reference(a, T), dt, kw.get("fmax"), kw.get("f_3db"))
    ref = ref / peak5(ref, a)
    ctx.close(core, ref, "optimal-values", rtol=1e-5, atol=1e-5 * np.abs(ref).max())
    if not kw:
        # no filter with the same constraints does better
        x = a[2:-2]
        for _ in range(3):
            g = rng.normal(size=m)
            B = np.vstack([np.ones(m), x])
            g = g - B.T @ np.linalg.solve(B @ B.T, B @ g)
            h = core + g * scale / m * 10.0**rng.uniform(-4, 0)
            ctx.check(h @ T[:m, :m] @ h >= f.variance * (1 - 1e-9), "not-optimal", "another unbiased filter has less variance")
    elif "fmax" in kw:
        F = np.abs(np.fft.rfft(core))
        fr = np.arange(len(F)) / (m * dt)
        ctx.check(np.all(F[fr > kw["fmax"]] <= 1e-9 * F.max()), "fmax", "response above fmax")
    ctx.nontrivial(n, npre, pre, post, s.tobytes(), R.tobytes())


@monitor(600, 10000)
def ats(ctx):
    mass, rng, n, npre, s, R, dt, pre, post, T = maker_case(ctx)
    kw = bands(rng, dt)
    a, base, amp = normalised(s, npre, pre, post)
    d = np.gradient(s - base) * (0.5 if rng.random() < .5 else 1)
    d[:npre - 1] = 0
    if rng.random() < 0.2:
        d = d + rng.normal(size=n) * np.abs(d).max() * 0.05
    M = np.vstack([a, d[pre:n - post] / amp, np.ones(len(a))]).T
    ctx.need(np.linalg.cond(M) < 1e4)
    f = mass.FilterMaker(s, npre, R, dt_model=d, sample_time_sec=dt).compute_ats(cut_pre=pre, cut_post=post, **kw)
    m = len(a)
    for v in (f.values, f.dt_values, f.const_values):
        ctx.check(len(v) == n, "length", f"{len(v)} weights for {n} samples")
        ctx.check(np.all(v[:pre] == 0) and (post == 0 or np.all(v[-post:] == 0)), "cut-weight", "cut samples have weight")
    ctx.close(f.variance, f.values @ T @ f.values, "variance", rtol=1e-8)
    peak = s[pre:n - post].max() - base
    ctx.close([f.nominal_peak, f.predicted_v_over_dv], [peak, peak / np.sqrt(G * f.variance)], "v-over-dv", rtol=1e-10)
    ctx.check(f.is_arrival_time_safe and f.convolution_lags == 1, "metadata", "arrival-time safe")
    P = np.vstack([f.values, f.dt_values, f.const_values])[:, pre:n - post]
    C = np.linalg.inv(T[:m, :m])
    A = M.T @ C @ M
    ref = np.linalg.solve(A, M.T @ C)
    ref = np.array([lowpass(r, dt, kw.get("fmax"), kw.get("f_3db")) for r in ref])
    for i in range(3):
        ctx.close(P[i], ref[i], "optimal-values", rtol=1e-5, atol=1e-5 * np.abs(ref[i]).max())
    ctx.check(abs(P[0].sum()) <= 1e-7 * np.abs(P[0]).sum(), "dc-response", f"sum of weights {P[0].sum()}")
    if not kw:
        tol = 1e-7 * np.abs(P).sum(axis=1).max()
        ctx.close(P @ M, np.eye(3), "responses", atol=tol, msg="responses to (pulse, derivative, constant)")
        ctx.close(f.variance, np.linalg.inv(A)[0, 0], "optimal-variance", rtol=1e-6)
    ctx.nontrivial(n, npre, pre, post, s.tobytes(), R.tobytes())


@monitor(250, 4000)
def whitened(ctx):
    """Filters from an ARMA whitener, alone and together with the autocorrelation."""
    import mass
    from mass.core.optimal_filtering import ToeplitzWhitener
    rng = ctx.rng
    n, npre = geometry(rng, ctx.tier)
    s = template(rng, n, npre)
    pre, post = (0, 0) if rng.random() < 0.5 else (int(rng.integers(0, npre - 2)), int(rng.integers(0, max(1, n - npre - 8))))
    ctx.need(usable(s, npre, pre, post, None))

    def stable(k):
        roots = rng.uniform(-0.8, 0.8, size=k)
        return np.poly(roots) if k else np.ones(1)
    theta, phi = stable(rng.integers(0, 3)) * rng.uniform(0.5, 3), stable(rng.integers(1, 3))
    tw = ToeplitzWhitener(theta, phi)
    ctx.case.update(n=n, npre=npre, pre=pre, post=post, theta=theta, phi=phi, signal=s)
    a, base, amp = normalised(s, npre, pre, post)
    m = len(a)

    def cov(k):
        ma = scipy.linalg.toeplitz(np.r_[theta, np.zeros(k)][:k], np.r_[theta[0], np.zeros(k - 1)])
        ar = scipy.linalg.toeplitz(np.r_[phi, np.zeros(k)][:k], np.r_[phi[0], np.zeros(k - 1)])
        W = np.linalg.solve(ma, ar)
        return W
    W = cov(m)
    d = np.gradient(s - base)
    d[:npre - 1] = 0
    M = np.vstack([a, d[pre:n - post] / amp, np.ones(m)]).T
    ctx.need(np.linalg.cond(M) < 1e4)
    f = mass.FilterMaker(s, npre, None, dt_model=d, whitener=tw, sample_time_sec=1e-5).compute_ats(cut_pre=pre, cut_post=post)
    WM = W @ M
    ref = np.linalg.solve(WM.T @ WM, WM.T @ W)
    P = np.vstack([f.values, f.dt_values, f.const_values])[:, pre:n - post]
    for i in range(3):
        ctx.close(P[i], ref[i], "optimal-values", rtol=1e-6, atol=1e-6 * np.abs(ref[i]).max())
    q = f.values
    Wn = cov(n)
    ctx.close(f.variance, np.sum(np.linalg.solve(Wn.T, q)**2), "variance", rtol=1e-6)
    peak = s[pre:n - post].max() - base
    ctx.close(f.predicted_v_over_dv, peak / np.sqrt(G * f.variance), "v-over-dv", rtol=1e-10)
    g = mass.FilterMaker(s, npre, None, whitener=tw).compute_5lag(cut_pre=pre, cut_post=post)
    core = g.values[pre:len(g.values) - post]
    W5 = cov(m - 4)
    C = W5.T @ W5
    x, one = a[2:-2], np.ones(m - 4)
    r5 = (one @ C @ one) * (C @ x) - (one @ C @ x) * (C @ one)
    r5 = r5 / peak5(r5, a)
    ctx.close(core, r5, "optimal-values-5lag", rtol=1e-6, atol=1e-6 * np.abs(r5).max())
    ctx.close(g.variance, np.sum(np.linalg.solve(W5.T, core)**2), "variance-5lag", rtol=1e-6)
    # both given: the whitener decides the values, the autocorrelation the variance
    R = noise_acf(rng, n)
    h = mass.FilterMaker(s, npre, R, dt_model=d, whitener=tw, sample_time_sec=1e-5).compute_ats(cut_pre=pre, cut_post=post)
    ctx.close(h.values, f.values, "whitener-supersedes", rtol=1e-9, atol=1e-12)
    ctx.close(h.variance, h.values @ scipy.linalg.toeplitz(R) @ h.values, "variance", rtol=1e-7, atol=1e-9 * R[0] * np.sum(h.values**2))
    ctx.nontrivial(n, npre, pre, post, s.tobytes(), theta.tobytes(), phi.tobytes())


@monitor(250, 4000)
def fourier(ctx):
    import mass
    rng = ctx.rng
    n = int(rng.choice([20, 32, 50, 64, 100, 150]))
    npre = int(rng.integers(4, max(5, n - 12)))
    s = template(rng, n, npre)
    ctx.need(usable(s, npre, 0, 0, None))
    dt = float(rng.choice([1e-6, 1e-5, 1.0]))
    K = n // 2 + 1
    fr = np.arange(K) / (n * dt)
    psd = rng.uniform(0.5, 20) * (1 + rng.uniform(0, 30) / (1 + (fr * n * dt / rng.uniform(1, 10))**2)) * (1 + 0.2 * rng.random(K))
    R = noise_acf(rng, n) if rng.random() < 0.5 else None
    kw = bands(rng, dt)
    peak = 0.0 if rng.random() < 0.5 else float(rng.uniform(1, 5000))
    ctx.case.update(n=n, npre=npre, dt=dt, kw=kw, peak=peak, signal=s, psd=psd)
    f = mass.FilterMaker(s, npre, R, noise_psd=psd, sample_time_sec=dt, peak=peak).compute_fourier(**kw)
    a, base, amp = normalised(s, npre, 0, 0)
    ctx.check(len(f.values) == n - 4, "length", f"filter of length {len(f.values)} for {n} samples")
    ctx.close(peak5(f.values, a), 1.0, "unit-response", rtol=1e-7)
    ctx.check(abs(f.values.sum()) <= 1e-9 * np.abs(f.values).sum(), "dc-response", "sum of weights")
    want = peak if peak > 0 else s.max() - base
    acf = R if R is not None else np.fft.irfft(psd) / (2 * dt)
    var = f.values @ scipy.linalg.toeplitz(acf[:n - 4]) @ f.values
    ctx.close(f.variance, var, "variance", rtol=1e-8)
    ctx.close([f.nominal_peak, f.predicted_v_over_dv], [want, want / np.sqrt(G * var)], "v-over-dv", rtol=1e-7)
    # values: signal over (shortened) noise, in Fourier space
    ac = np.fft.irfft(psd)
    ps = np.fft.rfft(np.r_[ac[:K - 3], ac[-K + 2:]])
    S = np.fft.rfft(a[2:-2]) / ps
    S[0] = 0
    ref = lowpass(np.fft.irfft(S), dt, kw.get("fmax"), kw.get("f_3db"))
    ref = ref / peak5(ref, a)
    ctx.close(f.values, ref, "values", rtol=1e-6, atol=1e-6 * np.abs(ref).max())
    ctx.nontrivial(n, npre, s.tobytes(), psd.tobytes())


@monitor(250, 4000)
def rescaling(ctx):
    """Metamorphic: scale signal, offset and noise."""
    mass, rng, n, npre, s, R, dt, pre, post, T = maker_case(ctx)
    d = np.gradient(s)
    d[:npre - 1] = 0
    kw = dict(cut_pre=pre, cut_post=post, **bands(rng, dt))
    A, B, off = 10.0**rng.uniform(-3, 3), 10.0**rng.uniform(-3, 3), float(rng.normal() * 100)
    a, base, amp = normalised(s, npre, pre, post)
    ctx.need(np.linalg.cond(np.vstack([a, d[pre:n - post] / amp, np.ones(len(a))])) < 1e4)
    for kind in ("5lag", "ats"):
        def make(sig, noise, deriv):
            return getattr(mass.FilterMaker(sig, npre, noise, dt_model=deriv, sample_time_sec=dt), "compute_" + kind)(**kw)
        f = make(s, R, d)
        g = make(A * s + off, B * R, A * d)
        at = 1e-6 * np.abs(f.values).max()
        ctx.close(g.values, f.values, "values-change", rtol=1e-6, atol=at)
        ctx.close(g.variance, B * f.variance, "variance-scaling", rtol=1e-5)
        ctx.close(g.nominal_peak, A * f.nominal_peak, "peak-scaling", rtol=1e-8)
        ctx.close(g.predicted_v_over_dv, A / np.sqrt(B) * f.predicted_v_over_dv, "v-over-dv-scaling", rtol=1e-5)
        h = make(-s, R, -d)
        neg = s - s[pre:npre - 1].mean()
        if -neg[pre:n - post].min() < neg[pre:n - post].max() * 0.99 and neg.max() == neg[pre:n - post].max():
            ctx.close(h.values, -f.values, "negative-going", rtol=1e-6, atol=at)
            ctx.close([h.variance, h.nominal_peak, h.predicted_v_over_dv], [f.variance, f.nominal_peak, f.predicted_v_over_dv], "negative-going", rtol=1e-6)
        # cutting samples is the same as making the filter of a shorter record
        if kind == "ats" and (pre or post) and neg_ok(s, npre, pre, post):
            k = make_short(mass, s, R, d, npre, pre, post, dt, {q: v for q, v in kw.items() if q[:3] != "cut"})
            ctx.close(f.values[pre:n - post], k.values, "cut-vs-short", rtol=1e-6, atol=at)
    ctx.nontrivial(n, npre, pre, post, s.tobytes(), A, B)


def neg_ok(s, npre, pre, post):
    c = s - s[pre:npre - 1].mean()
    return c.max() == c[pre:len(s) - post].max()


def make_short(mass, s, R, d, npre, pre, post, dt, kw):
    n = len(s)
    return mass.FilterMaker(s[pre:n - post], npre - pre, R[:n - pre - post], dt_model=d[pre:n - post], sample_time_sec=dt).compute_ats(**kw)


@monitor(300, 3000)
def quadratic_form(ctx):
    """bracketR, and arguments that must be refused."""
    import mass
    from mass.core.optimal_filtering import bracketR
    rng = ctx.rng
    n = int(rng.integers(1, 60))
    q = rng.normal(size=n)
    r = rng.normal(size=n + int(rng.integers(0, 5)))
    ctx.close(bracketR(q, r), q @ scipy.linalg.toeplitz(r[:n]) @ q, "bracketR", rtol=1e-9, atol=1e-11 * n)
    ctx.check(ctx.raises(lambda: bracketR(np.ones(n + 1), r[:n]), ValueError) is not None, "bracketR-length", "noise too short must be refused")
    s = np.zeros(40)
    s[15:] = 1
    R = np.zeros(40)
    R[0] = 1
    mk = mass.FilterMaker(s, 12, R, dt_model=np.gradient(s), sample_time_sec=1e-5)
    for bad in (dict(cut_pre=-1), dict(cut_post=-2), dict(cut_pre=20, cut_post=20), dict(cut_pre=11), dict(cut_post=40)):
        for kind in ("compute_5lag", "compute_ats"):
            ctx.check(ctx.raises(lambda: getattr(mk, kind)(**bad)) is not None, "bad-cuts", f"{kind}({bad}) must be refused")
    ctx.check(ctx.raises(lambda: mass.FilterMaker(s, 12).compute_5lag(), ValueError) is not None, "no-noise", "no noise given")
    ctx.check(ctx.raises(lambda: mass.FilterMaker(s, 12, R).compute_ats(), ValueError) is not None, "no-dt-model", "no arrival-time model given")
    ctx.nontrivial(q.tobytes())


@monitor(10, 100)
def from_files(ctx):
    """Filters a TESGroup makes from its own average pulse and noise."""
    rng = ctx.rng
    ns = int(rng.choice([60, 100, 128]))
    npre = int(rng.integers(20, 30))
    f = group.make_files(ctx, [1, 3], n=80, nnoise=40, ns=ns, npre=npre)
    data = group.open_group(f, None, True)
    with data.hdf5_file, data.hdf5_noisefile:
        data.set_chan_good(*[ds.channum for ds in data])
        data.summarize_data(use_cython=bool(rng.integers(0, 2)))
        data.compute_noise(max_excursion=100000)
        for ds in data:
            # tame the noise estimate of few records
            R = np.asarray(ds.noise_autocorr[:]).copy()
            R *= np.exp(-np.arange(len(R)) / 4.)
            R[0] *= 1.5
            ds.noise_autocorr[:] = R
        data.avg_pulses_auto_masks()
        pre, post = int(rng.integers(0, 8)), int(rng.integers(0, 8))
        kind = str(rng.choice(["5lag", "ats"]))
        if kind == "5lag":
            data.compute_5lag_filter(cut_pre=pre, cut_post=post)
        else:
            data.compute_ats_filter(cut_pre=pre, cut_post=post, shift1=bool(rng.integers(0, 2)), optimize_dp_dt=bool(rng.integers(0, 2)))
        for ds in data:
            flt = ds.filter
            v = flt.values
            T = scipy.linalg.toeplitz(ds.noise_autocorr[:len(v)])
            core = v[pre:len(v) - post]
            q = core if kind == "5lag" else v
            ctx.close(flt.variance, q @ T[:len(q), :len(q)] @ q, "variance", rtol=1e-7)
            ctx.close(flt.predicted_v_over_dv, flt.nominal_peak / np.sqrt(G * flt.variance), "v-over-dv", rtol=1e-9)
            ctx.check(abs(v.sum()) < 1e-8 * np.abs(v).sum(), "dc-response", "sum of weights")
            g = ds.hdf5_group["filters"]
            ctx.same(g["values"][:], v, "stored-values")
            ctx.close([g["values"].attrs[k] for k in ("variance", "predicted_v_over_dv", "nominal_peak")],
                      [flt.variance, flt.predicted_v_over_dv, flt.nominal_peak], "stored-attributes", rtol=1e-12)
            if kind == "5lag":
                np2 = ds.nPresamples - ds.pretrigger_ignore_samples
                a, base, amp = normalised(np.array(ds.average_pulse[:]), np2, pre, post)
                ctx.close(peak5(core, a), 1.0, "unit-response", rtol=1e-7)
            else:
                ctx.close(v[pre:len(v) - post] @ flt.signal_model, 1.0, "unit-response", rtol=1e-7)
                ctx.close(v[pre:len(v) - post] @ flt.dt_model, 0.0, "dt-response", atol=1e-7 * np.abs(v).sum())
            ctx.nontrivial(ctx.index, ds.channum)
        group.close_group(data)
