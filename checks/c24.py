"""C24: spline and function objects interpolate and differentiate exactly."""
import math

import numpy as np
from scipy.interpolate import CubicSpline as SciSpline, splev

from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case makes random knots (2-20, any order and scale, clamped or natural ends) or a random expression tree and compares values and derivatives 0-4 with scipy's splines, with truncated Taylor arithmetic, "
        "with a saddle-point solution of the Gaussian-process equations or with the optimality conditions of smoothing splines; every evaluation is repeated for scalars, lists, integer, size-1 and 2-D arrays. Non-trivial = at least three knots or two operations.")
ASSUMPTIONS = ["expressions are judged where their intermediate values are finite, positive under powers and logarithms, and of moderate size (log is documented to clip at 1e-6)",
               "derivatives of third order are judged away from knots, where they jump", "abscissas of Gaussian-process splines are positive, as their kernel needs"]


def forms(ctx, f, x, want, what, rtol=1e-9, atol=0.0):
    """f at scalars and arrays of several kinds; none may be modified."""
    rng = ctx.rng
    keep = x.copy()
    got = f(x)
    ctx.same(x, keep, what + ": input modified")
    ctx.close(np.asarray(got), want, what, rtol, atol)
    i = int(rng.integers(len(x)))
    for v in (float(x[i]), np.float64(x[i])):
        r = f(v)
        ctx.check(np.ndim(r) == 0, what + ": scalar in, scalar out", f"{np.shape(r)}")
        ctx.close(float(r), want[i], what + " of a scalar", rtol, atol)
    for shape in ((1,), (1, 1)):
        one = x[i:i + 1].reshape(shape).copy()
        r = f(one)
        ctx.check(one.shape == shape, what + ": shape of input modified", f"{one.shape}")
        ctx.close(np.asarray(r).ravel(), want[i:i + 1], what + " of a size-1 array", rtol, atol)
    z = np.array(x[i])
    r = f(z)
    ctx.check(z.shape == (), what + ": shape of input modified", f"{z.shape}")
    ctx.close(np.asarray(r).ravel(), want[i:i + 1], what + " of a 0-d array", rtol, atol)
    n = len(x) // 2 * 2
    r = f(x[:n].reshape(2, -1))
    ctx.close(np.asarray(r), want[:n].reshape(2, -1), what + " of a 2-D array", rtol, atol)
    ctx.close(np.asarray(f(x[::-1])), want[::-1], what + " in another order", rtol, atol)


def knots(rng, n):
    x = np.cumsum(rng.uniform(.1, 2, n))
    x = (x - x.mean() * rng.choice([0, 1])) * 10 ** rng.uniform(-3, 4)
    y = rng.normal(size=n) * 10 ** rng.uniform(-2, 3) + rng.choice([0, 0, 1e3])
    return x, y


def oracle(x, y, a, b):
    bc = ((1, a) if a is not None else (2, 0.0), (1, b) if b is not None else (2, 0.0))
    s = SciSpline(x, y, bc_type=bc)

    def f(t, der=0):
        t = np.asarray(t, float)
        v = s(np.clip(t, x[0], x[-1]), der) if der < 4 else np.zeros(t.shape)
        m0, m1 = float(s(x[0], 1)), float(s(x[-1], 1))
        lo, hi = t < x[0], t > x[-1]
        if der == 0:
            v = np.where(lo, y[0] + m0 * (t - x[0]), np.where(hi, y[-1] + m1 * (t - x[-1]), v))
        elif der == 1:
            v = np.where(lo, m0, np.where(hi, m1, v))
        else:
            v = np.where(lo | hi, 0.0, v)
        return v
    return f


def testpoints(rng, x, der):
    span = x[-1] - x[0]
    t = rng.uniform(x[0] - .4 * span, x[-1] + .4 * span, 60)
    if der < 2:
        t = np.hstack([t, x])
    elif der >= 2:
        t = t[np.min(np.abs(t[:, None] - x[None, :]), axis=1) > 1e-6 * span]
    return t


@monitor(250, 2500)
def cubic(ctx):
    from mass.mathstat.interpolate import CubicSpline, CubicSplineFunction, LinterpCubicSpline
    rng = ctx.rng
    n = int(rng.choice([2, 3, 4, 6, 10, 20]))
    x, y = knots(rng, n)
    small = rng.random() < .25  # data of an integer type
    if small:
        y = rng.integers(0, 250, n).astype(float)
    ity = str(rng.choice(["u1", "i2", "u4", "i8"])) if small else "f8"
    sl = np.ptp(y) / np.ptp(x) + 1e-3 / np.ptp(x)
    a, b = (float(rng.normal() * sl) if rng.random() < .4 else None for _ in range(2))
    p = rng.permutation(n) if rng.random() < .4 else np.arange(n)
    ctx.case = dict(x=x.tolist(), y=y.tolist(), ends=[a, b], order=p.tolist())
    kx, ky = x[p].copy(), y[p].astype(ity)
    s = CubicSpline(kx, ky, yprime1=a, yprimeN=b)
    F = CubicSplineFunction(list(kx), list(ky), yprime1=a, yprimeN=b)
    ctx.same(kx, x[p], "knots modified")
    ctx.same(ky.astype(float), y[p], "knots modified")
    f = oracle(x, y, a, b)
    h = np.diff(x).min()
    amp = np.ptp(y) + abs(sl) * np.ptp(x)
    ctx.close(s(x), y, "through the knots", 1e-9, 1e-9 * amp)
    for der in range(5):
        t = testpoints(rng, x, der)
        tol = 1e-8 * amp / h ** der
        forms(ctx, lambda v: s(v, der=der), t, f(t, der), f"cubic spline derivative {der}", 1e-7, tol)
        forms(ctx, lambda v: F(v, der=der), t, f(t, der), f"cubic spline function derivative {der}", 1e-7, tol)
        D = F.derivative(der)
        forms(ctx, D, t, f(t, der), f"derivative object {der} of cubic spline", 1e-6, 10 * tol)
        if der < 3:
            ctx.close(D(t, der=1), f(t, der + 1), "derivative of a derivative", 1e-6, 1e-7 * amp / h ** (der + 1)) if der < 1 else None
    ctx.check(len(s(np.array([]))) == 0, "empty input", "")
    if a is not None:
        ctx.close(s(float(x[0]), der=1), a, "slope at the first knot", 1e-7, 1e-9 * amp / h)
    else:
        ctx.close(s(float(x[0] + 1e-9 * h), der=2), 0.0, "natural first end", 0, 1e-6 * amp / h ** 2)
    if b is not None:
        ctx.close(s(float(x[-1]), der=1), b, "slope at the last knot", 1e-7, 1e-9 * amp / h)
    else:
        ctx.close(s(float(x[-1] - 1e-9 * h), der=2), 0.0, "natural last end", 0, 1e-6 * amp / h ** 2)
    y2 = y + rng.normal(size=n) * np.ptp(y)
    c, d = (float(rng.normal() * sl) if rng.random() < .4 else None for _ in range(2))
    s2 = CubicSpline(x, y2, yprime1=c, yprimeN=d)
    f2 = oracle(x, y2, c, d)
    fr = float(rng.choice([0, 1, .5, rng.random()]))
    L = LinterpCubicSpline(CubicSpline(x, y, yprime1=a, yprimeN=b), s2, fr)
    for der in range(3):
        t = testpoints(rng, x, der)
        forms(ctx, lambda v: L(v, der=der), t, fr * f(t, der) + (1 - fr) * f2(t, der), f"interpolated splines derivative {der}", 1e-7, 1e-7 * (amp + np.ptp(y2)) / h ** der)
    if n > 2:
        ctx.check(ctx.raises(lambda: LinterpCubicSpline(s, CubicSpline(x[:-1], y[:-1]), fr), ValueError) is not None, "splines of different length refused", "")
        ctx.nontrivial(n, a is None, b is None, bool((p != np.arange(n)).any()))


@monitor(120, 1200)
def basis(ctx):
    from mass.mathstat.interpolate import NaturalBsplineBasis
    rng = ctx.rng
    n = int(rng.choice([2, 3, 4, 5, 8, 15]))
    x = np.cumsum(rng.uniform(.2, 2, n)) - rng.choice([0, 3])
    ctx.case = dict(x=x.tolist())
    B = NaturalBsplineBasis(x if rng.random() < .5 else list(x))
    y = rng.normal(size=n)
    M = B.values_matrix()
    ctx.check(M.shape == (n, n), "values matrix shape", f"{M.shape}")
    t = np.sort(rng.uniform(x[0], x[-1], 50))
    for j in range(n):
        ctx.close(B(x, j), M[:, j], "values matrix", 1e-9, 1e-9)
        ends = np.array([x[0], x[-1]])
        ctx.close(B(ends, j, der=2), np.zeros(2), f"natural boundary of basis function", 0, 1e-7 / np.diff(x).min() ** 2)
        ctx.close(B(x, j, der=1), B.values_matrix(der=1)[:, j], "derivatives matrix", 1e-9, 1e-9)
        num = (B(t + 1e-6, j) - B(t - 1e-6, j)) / 2e-6
        inside = (t > x[0] + 1e-5) & (t < x[-1] - 1e-5)
        ctx.close(B(t, j, der=1)[inside], num[inside], "derivative of basis function", 1e-4, 1e-4)
    beta = np.linalg.solve(M, y)
    f = oracle(x, y, None, None)
    val = sum(beta[j] * B(t, j) for j in range(n))
    ctx.close(val, f(t), "the basis represents the natural spline", 1e-6, 1e-7)
    c = B.expand_coeff(beta)
    ctx.check(len(c) == n + 2, "expanded coefficients", f"{len(c)}")
    ctx.close(splev(t, (B.padknots, c, 3)), val, "expanded coefficients", 1e-8, 1e-8)
    for bad in (-1, n, n + 3):
        ctx.check(ctx.raises(lambda: B(t, bad), ValueError) is not None, "unknown basis function refused", f"{bad}")
    if n > 2:
        ctx.nontrivial(n, int(x[0] * 10))


@monitor(120, 1200)
def smoothing(ctx):
    from mass.mathstat.interpolate import SmoothingSpline, SmoothingSplineFunction, SmoothingSplineLog
    rng = ctx.rng
    n = int(rng.choice([3, 4, 5, 8, 12]))
    sc = 10 ** rng.uniform(-1, 3)
    x = np.cumsum(rng.uniform(.3, 2, n)) * sc
    power = rng.choice([1.0, 1.2, 2])
    y = (x / sc) ** power * 10 ** rng.uniform(-1, 3)
    dy = np.full(n, np.ptp(y) * 10 ** rng.uniform(-4, -1)) * rng.uniform(.5, 2, n)
    y = y + dy * rng.normal(size=n) * rng.choice([.1, 1, 3])
    dx = x * 1e-3 * rng.uniform(.5, 2, n) if rng.random() < .4 else None
    maxchi = None if rng.random() < .6 else float(n * rng.choice([.1, .5, 2]))
    ctx.case = dict(x=x.tolist(), y=y.tolist(), dy=dy.tolist(), dx=None if dx is None else dx.tolist(), maxchisq=maxchi)
    ins = [v.copy() if v is not None else None for v in (x, y, dy, dx)]
    S = SmoothingSpline(*ins, maxchisq=maxchi)
    F = SmoothingSplineFunction(*ins, maxchisq=maxchi)
    for v, k in zip((x, y, dy, dx), ins):
        if v is not None:
            ctx.same(k, v, "data modified")
    target = n if maxchi is None else maxchi
    err = dy if dx is None else np.hypot(dx * np.poly1d(np.polyder(np.polyfit(x, y, 2)))(x), dy)
    g = S(x)
    chisq = float(np.sum(((y - g) / err) ** 2))
    line = np.polyval(np.polyfit(x, y, 1, w=1 / err), x)
    lc = float(np.sum(((y - line) / err) ** 2))
    ctx.check(chisq <= target * (1 + 1e-5) + 1e-9, "chi-squared budget", f"{chisq} > {target}")
    ctx.check(abs(S.actualchisq - chisq) <= 1e-5 * target + 1e-9, "reported chi-squared", f"{S.actualchisq} but {chisq}")
    if lc < target * .999:
        ctx.close(g, line, "a line that meets the budget is the smoothest curve", 1e-6, 1e-5 * np.ptp(y))
        ctx.count("lines", 1)
    elif lc > target * 1.001:
        ctx.check(abs(chisq - target) < 1e-4 * target, "budget used up", f"{chisq} {target}")
        # optimality: the jumps of the third derivative are proportional to the weighted residuals
        fit = SciSpline(x, g, bc_type="natural")
        h = np.diff(x)
        third = fit((x[:-1] + x[1:]) / 2, 3)
        jump = np.diff(np.hstack([0, third, 0]))
        w = (y - g) / err ** 2
        lam = float(jump @ w) / float(w @ w)
        res = np.abs(jump - lam * w).max() / np.abs(jump).max()
        ctx.check(res < 1e-2 and lam > 0, "least curvature within the budget", f"jumps {jump} residuals {w}")
        ctx.count("curves", 1)
    f = oracle(x, g, None, None)
    amp, h = np.ptp(y) + np.abs(y).max(), np.diff(x).min()
    for der in range(4):
        t = testpoints(rng, x, der)
        tol = 1e-6 * amp / h ** der
        forms(ctx, lambda v: S(v, der=der), t, f(t, der), f"smoothing spline derivative {der}", 1e-5, tol)
        forms(ctx, lambda v: F(v, der=der), t, f(t, der), f"smoothing spline function derivative {der}", 1e-5, tol)
        forms(ctx, F.derivative(der), t, f(t, der), f"derivative object {der} of smoothing spline", 1e-5, tol)
    ctx.close(F(t, der=4), np.zeros(len(t)), "fourth derivative", 0, 0)
    if np.all(y > 0):
        L = SmoothingSplineLog(*[v.copy() if v is not None else None for v in (x, y, dy, dx)], maxchisq=maxchi)
        q = SmoothingSpline(np.log(x), np.log(y), dy / y, None if dx is None else dx / x, maxchisq=maxchi)
        t = rng.uniform(.7 * x[0], 1.3 * x[-1], 30)
        forms(ctx, L, t, np.exp(q(np.log(t))), "log smoothing spline", 1e-9)
        forms(ctx, lambda v: L(v, der=1), t, np.exp(q(np.log(t))) * q(np.log(t), der=1) / t, "log smoothing spline derivative", 1e-8)
        ctx.check(ctx.raises(lambda: SmoothingSplineLog(x, -y, dy), ValueError) is not None, "negative data refused", "")
    ctx.nontrivial(n, dx is None, maxchi is None, lc < target)


@monitor(100, 1000)
def gpr(ctx):
    from mass.mathstat.interpolate import GPRSpline, GPRSplineFunction
    rng = ctx.rng
    n = int(rng.choice([3, 4, 6, 10]))
    x = rng.uniform(.5, 3) + np.cumsum(rng.uniform(.3, 1.5, n))
    y = 2 + x + .1 * rng.normal() * x ** 2
    dy = np.full(n, 10 ** rng.uniform(-2.5, -.7)) * rng.uniform(.7, 1.4, n)
    y = y + dy * rng.normal(size=n)
    dx = 10 ** rng.uniform(-3, -1.5) * rng.uniform(.7, 1.4, n) if rng.random() < .4 else None
    given = float(10 ** rng.uniform(-2, 1)) if rng.random() < .6 else None
    ctx.case = dict(x=x.tolist(), y=y.tolist(), dy=dy.tolist(), dx=None if dx is None else dx.tolist(), sigmaf=given)
    ins = [v.copy() if v is not None else None for v in (x, y, dy, dx)]
    S = GPRSpline(*ins, sigmaf=given)
    for v, k in zip((x, y, dy, dx), ins):
        if v is not None:
            ctx.same(k, v, "data modified")
    sf = S.sigmaf
    if given is not None:
        ctx.check(sf == given, "sigmaf as given", f"{sf}")
    err = dy if dx is None else np.hypot(dx * np.poly1d(np.polyder(np.polyfit(x, y, 2)))(x), dy)

    def kern(a, b, s):
        v = np.minimum(a[:, None], b[None, :])
        return s ** 2 * (v ** 3 / 3 + v ** 2 / 2 * np.abs(a[:, None] - b[None, :]))

    H = np.vstack([np.ones(n), x])
    K = kern(x, x, sf) + np.diag(err ** 2)
    M = np.block([[K, H.T], [H, np.zeros((2, 2))]])
    t = rng.uniform(.8 * x[0], x[-1] + 1, 30)
    rhs = np.vstack([kern(x, t, sf), np.ones(len(t)), t])
    sol = np.linalg.solve(M, rhs)
    mean = np.hstack([y, 0, 0]) @ sol
    cov = kern(t, t, sf) - rhs.T @ sol
    amp = np.ptp(y)
    inside = (t > x[0])  # below the first knot the kernel's curve is the same straight line
    forms(ctx, S, t[inside], mean[inside], "posterior mean", 1e-6, 1e-6 * amp)
    scale = np.diag(cov).max()
    ctx.close(S.variance(t), np.diag(cov), "posterior variance", 1e-4, 1e-6 * scale)
    ctx.close(S.covariance(t), cov, "posterior covariance", 1e-4, 1e-6 * scale)
    ctx.close(S.variance(float(t[0])), cov[0, 0], "variance of a scalar", 1e-4, 1e-6 * scale)
    ctx.close(np.asarray(S.covariance(float(t[0]))).ravel(), cov[:1, 0], "covariance of a scalar", 1e-4, 1e-6 * scale)
    g = S(x)
    f = oracle(x, g, None, None)
    h = np.diff(x).min()
    if given is None:
        def like(s):
            K = kern(x, x, s) + np.diag(err ** 2)
            Ki = np.linalg.inv(K)
            A = H @ Ki @ H.T
            C = Ki @ H.T @ np.linalg.solve(A, H @ Ki)
            return -.5 * (y @ Ki @ y - y @ C @ y + np.linalg.slogdet(K)[1] + np.linalg.slogdet(A)[1])
        if 1e-5 < sf < 1e3:
            best = like(sf)
            for k in (.5, .8, 1.25, 2):
                ctx.check(like(sf * k) <= best + 1e-3, "sigmaf maximizes the marginal likelihood", f"{sf}: {best} < {like(sf * k)} at {k}")
            ctx.count("likelihoods", 1)
    F = GPRSplineFunction(*ins)
    fF = oracle(x, F(x), None, None)
    for der in range(4):
        tt = testpoints(rng, x, der)
        tol = 1e-6 * amp / h ** der
        forms(ctx, lambda v: S(v, der=der), tt, f(tt, der), f"GPR spline derivative {der}", 1e-6, tol)
        forms(ctx, lambda v: F(v, der=der), tt, fF(tt, der), f"GPR spline function derivative {der}", 1e-6, tol)
        forms(ctx, F.derivative(der), tt, fF(tt, der), f"derivative object {der} of GPR spline", 1e-6, tol)
    ctx.nontrivial(n, dx is None, given is None, int(10 * x[0]))


class Jet:
    """Taylor coefficients 0..5 at an array of points."""
    N = 6

    def __init__(self, c):
        self.c = c

    @staticmethod
    def const(v, like):
        z = np.zeros_like(like.c)
        z[0] = v
        return Jet(z)

    def __add__(self, o):
        return Jet(self.c + o.c)

    def __sub__(self, o):
        return Jet(self.c - o.c)

    def __mul__(self, o):
        z = np.zeros_like(self.c)
        for i in range(self.N):
            for j in range(self.N - i):
                z[i + j] += self.c[i] * o.c[j]
        return Jet(z)

    def apply(self, taylor):
        """Compose with a function whose Taylor coefficients at c[0] are `taylor`."""
        d = Jet(self.c.copy())
        d.c[0] = 0
        out = Jet.const(0, self)
        p = Jet.const(1, self)
        for k in range(self.N):
            out = out + Jet(p.c * taylor[k])
            p = p * d
        return out

    def power(self, n):
        b = self.c[0]
        t, coef = [], 1.0
        for k in range(self.N):
            t.append(coef * b ** (n - k) if coef != 0 else 0 * b)
            coef = coef * (n - k) / (k + 1)
        return self.apply(t)

    def exp(self):
        e = np.exp(self.c[0])
        return self.apply([e / math.factorial(k) for k in range(self.N)])

    def log(self):
        b = self.c[0]
        return self.apply([np.log(b)] + [(-1) ** (k + 1) / (k * b ** k) for k in range(1, self.N)])

    def spline(self, f):
        return self.apply([f(self.c[0], k) / math.factorial(k) for k in range(self.N)])


class Node:
    """A Function object together with the jet computation of the same expression."""

    def __init__(self, fun, jet, text):
        self.fun, self.jet, self.text = fun, jet, text


def leaf(rng, d, splines):
    k = int(rng.integers(6))
    if k == 0:
        v = float(rng.choice([0, 1, 2, -1.5, 3])) if rng.random() < .7 else int(rng.integers(1, 4))
        return Node(d.ConstantFunction(v), lambda x: Jet.const(v, x), f"C{v}")
    if k == 1:
        return Node(d.Identity(), lambda x: x, "x")
    if k == 2:
        n = [2, 3, .5, -1, 1.5, 0, 1, -2][int(rng.integers(8))]
        return Node(d.PowerFunction(n), lambda x: pw(x, n), f"P{n}")
    if k == 3:
        return Node(d.LogFunction(), lambda x: lg(x), "log")
    if k == 4:
        return Node(d.ExponentialFunction(), lambda x: x.exp(), "exp")
    F, f = splines[int(rng.integers(len(splines)))]
    return Node(F, lambda x: x.spline(f), "spl")


BAD = []


def pw(x, n):
    ok = np.abs(x.c[0]) > 1e-3 if float(n).is_integer() else x.c[0] > 1e-3
    BAD.append(~ok)
    y = Jet(x.c.copy())
    y.c[0] = np.where(ok, y.c[0], 1.0)
    return y.power(n)


def lg(x):
    ok = x.c[0] > 1e-3
    BAD.append(~ok)
    y = Jet(x.c.copy())
    y.c[0] = np.where(ok, y.c[0], 1.0)
    return y.log()


def tree(rng, d, splines, depth):
    if depth == 0 or rng.random() < .1:
        return leaf(rng, d, splines)
    a = tree(rng, d, splines, depth - 1)
    op = str(rng.choice(["+", "-", "*", "/", "neg", "pow", "<<", ">>", "n+", "+n", "n-", "-n", "n*", "*n", "n/", "/n"]))
    num = [2, 1.5, -1, .25, 0, 3][int(rng.integers(6))]
    if op in ("+", "-", "*", "/", "<<", ">>"):
        b = tree(rng, d, splines, depth - 1)
        t = f"({a.text}{op}{b.text})"
        if op == "+":
            return Node(a.fun + b.fun, lambda x: a.jet(x) + b.jet(x), t)
        if op == "-":
            return Node(a.fun - b.fun, lambda x: a.jet(x) - b.jet(x), t)
        if op == "*":
            return Node(a.fun * b.fun, lambda x: a.jet(x) * b.jet(x), t)
        if op == "/":
            return Node(a.fun / b.fun, lambda x: a.jet(x) * pw(b.jet(x), -1), t)
        if op == "<<":
            return Node(a.fun << b.fun, lambda x: a.jet(b.jet(x)), t)
        return Node(a.fun >> b.fun, lambda x: b.jet(a.jet(x)), t)
    t = f"({op} {num} {a.text})"
    c = lambda x: Jet.const(num, x)  # noqa: E731
    if op == "neg":
        return Node(-a.fun, lambda x: Jet(-a.jet(x).c), t)
    if op == "pow":
        n = [2, .5, 3, -1, 1, 1.5][int(rng.integers(6))]
        return Node(a.fun ** n, lambda x: pw(a.jet(x), n), f"({a.text}^{n})")
    if op == "n+":
        return Node(num + a.fun, lambda x: c(x) + a.jet(x), t)
    if op == "+n":
        return Node(a.fun + num, lambda x: c(x) + a.jet(x), t)
    if op == "n-":
        return Node(num - a.fun, lambda x: c(x) - a.jet(x), t)
    if op == "-n":
        return Node(a.fun - num, lambda x: a.jet(x) - c(x), t)
    if op == "n*":
        return Node(num * a.fun, lambda x: c(x) * a.jet(x), t)
    if op == "*n":
        return Node(a.fun * num, lambda x: c(x) * a.jet(x), t)
    if op == "n/":
        return Node(num / a.fun, lambda x: c(x) * pw(a.jet(x), -1), t)
    num = num or 2
    return Node(a.fun / num, lambda x: a.jet(x) * Jet.const(1 / num, x), t)


@monitor(800, 8000)
def functions(ctx):
    from mass.mathstat import derivative as d
    from mass.mathstat.interpolate import CubicSplineFunction
    rng = ctx.rng
    splines = []
    for _ in range(2):
        x = np.cumsum(rng.uniform(.5, 1.5, 5))
        y = rng.uniform(.5, 3, 5)
        splines.append((CubicSplineFunction(x, y), oracle(x, y, None, None)))
    if ctx.index % 8 == 0:  # powers and inverse functions of one another, which are simplified
        node = None
        for _ in range(int(rng.integers(2, 4))):
            n = [2, 2, .5, .5, 3, -1, 1.5, -2, 1, 1 / 3, 4][int(rng.integers(11))]
            nxt = Node(d.PowerFunction(n), lambda x, n=n: pw(x, n), f"P{n}") if rng.random() < .8 else leaf(rng, d, splines)
            node = nxt if node is None else Node(node.fun << nxt.fun, lambda x, a=node, b=nxt: a.jet(b.jet(x)), f"({node.text}<<{nxt.text})")
    else:
        node = tree(rng, d, splines, int(rng.integers(1, 4)))
    ctx.case = dict(expression=node.text)
    t = rng.uniform(.3, 4, 24)
    if rng.random() < .2:
        t = rng.integers(1, 5, 24).astype(float)
    if rng.random() < .4 or ctx.index % 8 == 0:
        t *= rng.choice([-1, 1], len(t))
    c = np.zeros((Jet.N, len(t)))
    c[0], c[1] = t, 1
    del BAD[:]
    with np.errstate(all="ignore"):
        j = node.jet(Jet(c)).c
        bad = np.zeros(len(t), bool)
        for b in BAD:
            bad |= b
        bad |= ~np.all(np.isfinite(j), axis=0) | (np.abs(j).max(axis=0) > 1e6)
        # rounding of an arbitrary expression: judge only where a nearby point gives nearby values
        c2 = c.copy()
        c2[0] = t * (1 + 1e-7)
        j2 = node.jet(Jet(c2)).c
        bad |= ~np.all(np.isfinite(j2), axis=0) | (np.abs(j2 - j).max(axis=0) > 1e-3 * (1 + np.abs(j).max(axis=0)))
    ctx.need((~bad).sum() >= 2)
    t, j = t[~bad], j[:, ~bad]
    mag = 1 + np.abs(j).max()
    with np.errstate(all="ignore"):
        forms(ctx, node.fun, t, j[0], "value", 1e-7, 1e-8 * mag)
        for der in range(1, 6 if ctx.index % 3 == 0 else 4):
            want = j[der] * math.factorial(der)
            tol = (1e-5, 1e-6 * mag) if der < 4 else (1e-2, 1e-3 * mag)  # (high derivatives are differences of large terms)
            ctx.close(np.broadcast_to(node.fun(t, der=der), t.shape), want, f"derivative {der}", *tol)
            D = node.fun.derivative(der) if der > 1 or ctx.index % 2 else node.fun.derivative()
            ctx.close(np.broadcast_to(D(t), t.shape), want, f"derivative object {der}", *tol)
        ctx.close(float(node.fun << float(t[0])), j[0][0], "evaluation by <<", 1e-7, 1e-8 * mag)
        ctx.close(float(float(t[0]) >> node.fun), j[0][0], "evaluation by >>", 1e-7, 1e-8 * mag)
        ctx.check(isinstance(repr(node.fun), str), "printable", "")
        ti = t[t == np.round(t)].astype(int)
        if len(ti):
            ctx.close(np.broadcast_to(node.fun(ti), ti.shape), j[0][t == np.round(t)], "values at integers", 1e-7, 1e-8 * mag)
    if any(o in node.text for o in "+-*/<>^"):
        ctx.nontrivial(node.text)
