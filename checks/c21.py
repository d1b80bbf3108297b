"""C21: Toeplitz solving and noise whitening are exact linear operators."""
import numpy as np
from scipy import linalg

from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case makes a positive-definite symmetric (or a diagonally dominant asymmetric) Toeplitz matrix of size 1-200 from ARMA models, correlation functions, random spectra or data, or an ARMA(p,q) whitener with p and q 0-5, and applies every operator to vectors "
        "and matrices of any numeric dtype and layout; dense scipy.linalg on the explicitly filled matrix is the oracle. Non-trivial = matrix not diagonal.")
ASSUMPTIONS = ["condition number at most 1e9; errors are compared with condition number times rounding"]
DTYPES = ("f8", "f8", "f4", "i8", "i4", "i2", "u1", "u2", "?")


def roots_poly(rng, k, rmax):
    """A real polynomial 1 + a1 z + ... whose recursion is stable: roots of modulus < rmax."""
    p = np.ones(1)
    while k >= 2 and rng.random() < .6:
        r, th = rng.uniform(0, rmax), rng.uniform(0, np.pi)
        p = np.convolve(p, [1, -2 * r * np.cos(th), r * r])
        k -= 2
    for _ in range(k):
        p = np.convolve(p, [1, -rng.uniform(-rmax, rmax)])
    return p


def autocorr(rng, n):
    k = int(rng.integers(8))
    t = np.arange(n)
    if k == 0:      # white
        r = np.zeros(n)
        r[0] = rng.uniform(.1, 100)
    elif k == 1:    # exponential
        r = rng.uniform(.1, .99)**t
    elif k == 2:    # two exponentials and white
        r = rng.uniform(.5, .999)**t + rng.uniform(0, 3) * rng.uniform(-.9, .9)**t
        r[0] += rng.uniform(0, 2)
    elif k == 3:    # moving average
        h = rng.normal(size=int(rng.integers(1, 12)))
        c = np.correlate(h, h, "full")[len(h) - 1:]
        r = np.zeros(n)
        r[:min(n, len(c))] = c[:n]
        r[0] *= 1 + 10**rng.uniform(-4, 0)
    elif k == 4:    # nonnegative spectrum
        r = np.fft.irfft(rng.uniform(.01, 1, 2 * n + 1))[:n]
    elif k == 5:    # sinusoids and white
        r = sum(rng.uniform(0, 3) * np.cos(t * rng.uniform(0, np.pi)) for _ in range(3))
        r[0] += 10**rng.uniform(-3, 1)
    elif k == 6:    # data
        x = rng.normal(size=4 * n + 5)
        x = np.convolve(x, rng.normal(size=5))
        r = np.correlate(x, x, "full")[len(x) - 1:][:n] / len(x)
    else:           # integers
        r = np.zeros(n)
        r[1:] = rng.integers(-3, 4, n - 1)
        r[0] = 1 + 2 * np.abs(r[1:]).sum()
        return r.astype(str(rng.choice(["i8", "i4", "f8"]))), k
    r = r * 10**rng.uniform(-6, 6) if rng.random() < .5 else r
    if r[0] == 0:
        r[0] = 1
    return r, k


def rhs(rng, n, mat=True):
    dt = str(rng.choice(DTYPES))
    shape = (n,) if not mat or rng.random() < .6 else (n, int(rng.choice([1, 2, 3, n])))
    k = int(rng.integers(4))
    v = [lambda: rng.normal(0, 100, shape), lambda: rng.integers(0, 100, shape), lambda: np.ones(shape), lambda: (rng.random(shape) < .1) * 50.][k]()
    v = np.abs(v).astype(dt) if dt[0] in "u?" else v.astype(dt)
    lay = int(rng.integers(5))
    if lay == 1 and v.ndim == 2:
        v = np.asfortranarray(v)
    elif lay == 2:
        w = np.zeros((2 * n,) + v.shape[1:], dtype=v.dtype)
        w[::2] = v
        v = w[::2]
    elif lay == 3:
        v = v[::-1].copy()[::-1]
    elif lay == 4:
        v.setflags(write=False)
    form = v.tolist() if rng.random() < .1 else v
    return v, form, dt


def close(ctx, got, want, tol, mech):
    got, want = np.asarray(got), np.asarray(want)
    ctx.check(got.shape == want.shape, mech + ": shape", f"{got.shape} {want.shape}")
    ctx.check(bool(np.all(np.isfinite(got))), mech + ": finite", "")
    e = float(np.max(np.abs(got - want))) if want.size else 0.
    ctx.check(e <= tol, mech, f"max error {e} tolerance {tol}; got {got.ravel()[:4]} want {want.ravel()[:4]}")


@monitor(1500, 30000)
def symmetric(ctx):
    from mass.mathstat.toeplitz import ToeplitzSolver
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 4, 5, 10, int(rng.integers(6, 60)), 200 if rng.random() < .2 else 20]))
    if ctx.index % 250 == 7:
        n = int(rng.choice([500, 600, 777, 1024]))   # the lengths of real records
    r, kind = autocorr(rng, n)
    T = np.array([[r[abs(i - j)] for j in range(n)] for i in range(n)], dtype=float)
    cond = np.linalg.cond(T)
    ctx.need(cond < 1e9)
    ctx.need(np.linalg.eigvalsh(T)[0] > 0)
    r0 = r.copy()
    ts = ToeplitzSolver(list(r) if rng.random() < .2 else r, symmetric=True) if rng.random() < .8 else ToeplitzSolver(r)
    ctx.case = dict(n=n, kind=kind, cond=cond, r=r[:10].tolist())
    rtol = 4e-15 * n * cond + 1e-13
    if rng.random() < .2:      # the solver keeps its own matrix
        r *= 0
        r0, r = r, r0
    for _ in range(2):
        y, form, dt = rhs(rng, n)
        y0 = np.array(y)
        ctx.case.update(dtype=dt, shape=list(y.shape), form=type(form).__name__)
        x = ts(form)
        ctx.same(np.asarray(y), y0, "solving leaves the right-hand side alone")
        yf = y0.astype(float)
        want = np.linalg.solve(T, yf)
        close(ctx, x, want, rtol * (np.abs(want).max() + 1e-300), "solution of a symmetric Toeplitz system")
        close(ctx, T @ x, yf, rtol * np.abs(yf).max() + 1e-300, "matrix times solution is the right-hand side")
        m = ts.mult(form)
        ctx.same(np.asarray(y), y0, "multiplying leaves the vector alone")
        sc = r0[0] * n * np.abs(yf).max() if kind != 7 else np.abs(T).sum(axis=1).max() * np.abs(yf).max()
        close(ctx, m, T @ yf, 1e-13 * max(sc, np.abs(T).sum(axis=1).max() * np.abs(yf).max()) + 1e-300, "Toeplitz product")
        close(ctx, ts.mult(x), yf, rtol * np.abs(yf).max() + 1e-300, "mult inverts solve")
        close(ctx, ts(m), yf, rtol * 10 * np.abs(yf).max() + 1e-300, "solve inverts mult")
        # linear
        a = float(rng.choice([2., -.5, 1e6]))
        close(ctx, ts(a * yf), a * np.asarray(x), rtol * abs(a) * np.abs(want).max() + 1e-300, "solving is linear")
    ctx.check(ctx.raises(lambda: ts(np.ones((n, 2, 2))), Exception) is not None, "three dimensions refused", "")
    ctx.check(ctx.raises(lambda: ts(np.ones(n + 1)), Exception) is not None, "wrong length refused", "")
    if n > 1 and np.any(T[0, 1:]):
        ctx.nontrivial(n, kind, dt)


@monitor(600, 10000)
def asymmetric(ctx):
    from mass.mathstat.toeplitz import ToeplitzSolver
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 4, 5, 10, int(rng.integers(6, 60))]))
    if ctx.index % 250 == 7:
        n = int(rng.choice([300, 520, 1100]))
    v = rng.normal(size=2 * n - 1) * rng.choice([1, .1, .5])
    if rng.random() < .3:
        v = np.r_[rng.uniform(.1, .9)**np.arange(n - 1, 0, -1.), 1, -rng.uniform(.1, .9)**np.arange(1., n)]
    v[n - 1] = np.abs(v).sum() * rng.choice([1.01, 1.5, 3]) * rng.choice([1, -1]) + .1
    if rng.random() < .2:
        v = np.round(v * 10).astype(int)
        v[n - 1] = 2 * np.abs(v).sum() + 1
    T = np.array([[v[i - j + n - 1] for j in range(n)] for i in range(n)], dtype=float)
    cond = np.linalg.cond(T)
    v0 = v.copy()
    ts = ToeplitzSolver(v, symmetric=False)
    y, form, dt = rhs(rng, n, mat=False)
    y0 = np.array(y)
    ctx.case = dict(n=n, cond=cond, v=v[:10].tolist(), dtype=dt)
    x = ts(form)
    ctx.same(np.asarray(y), y0, "solving leaves the right-hand side alone")
    ctx.same(v, v0, "solving leaves the matrix alone")
    rtol = 4e-15 * n * cond * 10 + 1e-13
    want = np.linalg.solve(T, y0.astype(float))
    close(ctx, x, want, rtol * (np.abs(want).max() + 1e-300), "solution of an asymmetric Toeplitz system")
    close(ctx, ts(form), x, 0, "solving again")
    ctx.check(ctx.raises(lambda: ToeplitzSolver(np.ones(2 * n), symmetric=False), Exception) is not None, "even length refused", "")
    ctx.check(ctx.raises(lambda: ts.mult(np.ones(n)), NotImplementedError) is not None, "asymmetric product refused", "")
    if n > 1:
        ctx.nontrivial(n, dt)


@monitor(1200, 20000)
def whitener(ctx):
    from mass.core.optimal_filtering import ToeplitzWhitener
    rng = ctx.rng
    p, q = int(rng.choice([0, 1, 1, 2, 3, 5])), int(rng.choice([0, 1, 1, 2, 3, 5]))
    n = int(rng.choice([1, 2, 3, 4, 6, 10, int(rng.integers(6, 90))]))
    if ctx.index % 300 == 7:
        n = int(rng.choice([500, 1030]))
    phi, theta = roots_poly(rng, p, .9), roots_poly(rng, q, .9)
    phi, theta = phi * float(rng.choice([1, 1, 2, -.3])), theta * float(rng.choice([1, 1, 3, .05]))
    if rng.random() < .15:
        phi, theta = np.array([3] + [1] * min(p, 1)), np.array([2] + [1] * min(q, 1))
        p, q = len(phi) - 1, len(theta) - 1
    a, b = phi.astype(float), theta.astype(float)
    tw = ToeplitzWhitener(list(theta), list(phi)) if rng.random() < .1 else ToeplitzWhitener(theta, phi)
    AR = linalg.toeplitz(np.r_[a, np.zeros(max(0, n - p - 1))][:n], np.zeros(n))
    MA = linalg.toeplitz(np.r_[b, np.zeros(max(0, n - q - 1))][:n], np.zeros(n))
    W = linalg.solve_triangular(MA, AR, lower=True)
    Winv = linalg.solve_triangular(AR, MA, lower=True)
    v, form, dt = rhs(rng, n)
    v0 = np.array(v)
    x = v0.astype(float)
    ctx.case = dict(p=p, q=q, n=n, phi=a.tolist(), theta=b.tolist(), dtype=dt, shape=list(v.shape))
    ctx.check(tw.p == p and tw.q == q, "order of the model", f"{tw.p},{tw.q}")
    cond = np.linalg.cond(AR) + np.linalg.cond(MA)
    ctx.need(cond < 1e9)

    def tol(M):
        return 1e-14 * n * cond * np.abs(M).sum(axis=1).max() * np.abs(x).max() + 1e-300

    for name, fn, M in (("whitening", tw, W), ("whiten()", tw.whiten, W), ("unwhitening", tw.solveW, Winv), ("transposed whitening", tw.applyWT, W.T), ("transposed unwhitening", tw.solveWT, Winv.T)):
        got = fn(form)
        ctx.same(np.asarray(v), v0, name + " leaves its input alone")
        close(ctx, got, M @ x, tol(M), name + " agrees with the dense matrix")
    close(ctx, tw.W(n), W, 1e-14 * n * cond * np.abs(W).max(), "the stated matrix W")
    close(ctx, tw.solveW(tw(x)), x, 1e-14 * n * cond**2 * np.abs(x).max() + 1e-300, "unwhitening inverts whitening")
    close(ctx, tw.solveWT(tw.applyWT(x)), x, 1e-14 * n * cond**2 * np.abs(x).max() + 1e-300, "transposed unwhitening inverts transposed whitening")
    # delay: zero padding at the front delays the result
    k = int(rng.integers(1, 5))
    pad = np.concatenate([np.zeros((k,) + x.shape[1:]), x])
    got = tw(pad)
    close(ctx, got[k:], tw(x), tol(W), "delayed data are whitened alike")
    ctx.check(not np.any(got[:k]), "nothing before the delay", "")
    for f in (tw, tw.solveW, tw.applyWT, tw.solveWT):
        ctx.check(ctx.raises(lambda: f(np.ones((n, 2, 2))), ValueError) is not None, "three dimensions refused", "")
    ctx.same(np.asarray(tw.phi, float), a, "AR coefficients unchanged")
    ctx.same(np.asarray(tw.theta, float), b, "MA coefficients unchanged")
    if p + q and n > 1:
        ctx.nontrivial(p, q, n, dt)


@monitor(150, 3000)
def white(ctx):
    """Noise of the ARMA model (its exact covariance) comes out white with unit variance, after the transient."""
    from mass.core.optimal_filtering import ToeplitzWhitener
    rng = ctx.rng
    p, q = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    phi, theta = roots_poly(rng, p, .75) * float(rng.choice([1, 2, .1])), roots_poly(rng, q, .75) * float(rng.choice([1, 3, .1]))
    n, big = 120, 600
    h = np.zeros(big)       # impulse response of the model: phi(B) x = theta(B) e
    for i in range(big):
        s = theta[i] if i <= q else 0.
        for j in range(1, min(p, i) + 1):
            s -= phi[j] * h[i - j]
        h[i] = s / phi[0]
    R = linalg.toeplitz([np.dot(h[:big - k], h[k:]) for k in range(n)])
    tw = ToeplitzWhitener(theta, phi)
    ctx.case = dict(p=p, q=q, phi=phi.tolist(), theta=theta.tolist())
    C = tw(tw(R).T)
    half = C[n // 2:, n // 2:]
    ctx.check(bool(np.all(np.abs(half - np.eye(n - n // 2)) < 1e-3)), "noise of the model is whitened", f"max deviation {np.abs(half - np.eye(n - n // 2)).max()}")
    # a realization: exactly the innovations, once started from zero
    e = rng.normal(size=n)
    x = np.zeros(n)
    for i in range(n):
        x[i] = (sum(theta[j] * e[i - j] for j in range(min(q, i) + 1)) - sum(phi[j] * x[i - j] for j in range(1, min(p, i) + 1))) / phi[0]
    close(ctx, tw(x), e, 1e-8, "whitened noise is its innovations")
    close(ctx, tw.solveW(e), x, 1e-8 * np.abs(x).max(), "unwhitened innovations are the noise")
    ctx.nontrivial(p, q)
