"""Generators and an independent model of energy calibration curves."""
import numpy as np
from scipy.interpolate import CubicSpline

CURVES = ("loglog", "linear", "linear+0", "gain", "invgain", "loggain")


def points(rng, n, gentle=True):
    """n monotone points (ph, energy) of a detector with a plausible gain; sorted."""
    e = np.sort(rng.uniform(1.0, 10.0, n)) * 10 ** rng.uniform(2.3, 3.7)
    while n > 1 and np.min(np.diff(e) / e[1:]) < .01:
        e = np.sort(rng.uniform(1.0, 10.0, n)) * 10 ** rng.uniform(2.3, 3.7)
    kind = rng.integers(3)
    scale = 10 ** rng.uniform(-.5, 1)
    if kind == 0:
        ph = scale * e ** rng.uniform(.75, 1.0)
    elif kind == 1:
        ph = scale * e / (1 + e / e.max() * rng.uniform(0, .5))
    else:
        ph = scale * e * np.exp(-e / e.max() * rng.uniform(0, .4))
    if not gentle and n > 1:
        ph = ph + rng.uniform(-.25, .25, n) * min(np.min(np.diff(ph)), ph[0])
    return ph, e


def _nat(x, y):
    """Natural cubic spline with linear extrapolation: (value, slope) functions."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    if len(x) == 2:
        m = (y[1] - y[0]) / (x[1] - x[0])
        return (lambda t: y[0] + m * (t - x[0])), (lambda t: np.full(np.shape(t), m))
    s = CubicSpline(x, y, bc_type="natural")
    m0, m1 = float(s(x[0], 1)), float(s(x[-1], 1))

    def val(t):
        t = np.asarray(t, float)
        return np.where(t < x[0], y[0] + m0 * (t - x[0]), np.where(t > x[-1], y[-1] + m1 * (t - x[-1]), s(np.clip(t, x[0], x[-1]))))

    def der(t):
        t = np.asarray(t, float)
        return np.where(t < x[0], m0, np.where(t > x[-1], m1, s(np.clip(t, x[0], x[-1]), 1)))
    return val, der


def oracle(curve, ph, e, nonlinearity):
    """(E(p), dE/dp) of the interpolating curve through the points, from its documented definition."""
    ph, e = np.asarray(ph, float), np.asarray(e, float)
    if len(ph) == 0:
        return (lambda p: np.asarray(p, float)), (lambda p: np.ones(np.shape(p)))
    if len(ph) == 1:
        a = nonlinearity if curve == "loglog" else 1.0
        return (lambda p: e[0] * (np.asarray(p) / ph[0]) ** a), (lambda p: e[0] * a / ph[0] * (np.asarray(p) / ph[0]) ** (a - 1))
    if curve == "loglog":
        v, d = _nat(np.log(ph), np.log(e))
        return (lambda p: np.exp(v(np.log(p)))), (lambda p: np.exp(v(np.log(p))) * d(np.log(p)) / p)
    if curve == "linear":
        return _nat(ph, e)
    if curve == "linear+0":
        return _nat(np.hstack([0, ph]), np.hstack([0, e]))
    if curve == "gain":
        v, d = _nat(ph, ph / e)
        return (lambda p: p / v(p)), (lambda p: 1 / v(p) - p * d(p) / v(p) ** 2)
    if curve == "invgain":
        v, d = _nat(ph, e / ph)
        return (lambda p: p * v(p)), (lambda p: v(p) + p * d(p))
    v, d = _nat(ph, np.log(ph / e))
    return (lambda p: p * np.exp(-v(p))), (lambda p: np.exp(-v(p)) * (1 - p * d(p)))


def evalgrid(ph):
    return np.hstack([np.linspace(ph[0] * .02, ph[0], 60), np.linspace(ph[0], ph[-1], 400)[1:], np.linspace(ph[-1], 2 * ph[-1], 200)[1:]])
