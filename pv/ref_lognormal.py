"""Definitions of the log-normal-only statistics (Quesenberry-Miller on probability-transformed data, Kullback-Leibler pair)."""
import math
import numpy as np


def qm(x, kw, null):
    d = np.diff(np.concatenate([[0.0], np.sort(null.cdf(x)), [1.0]]))
    return float(d @ d + d[1:] @ d[:-1])


_SER = [((k - 2) ** 2 / math.factorial(k), 2 * k) for k in range(3, 60)]


def _sigma(r):
    """sqrt(e^{r^2} (r^4 - 3 r^2 + 4) - (4 + r^2)); its Taylor coefficients are (k-2)^2 / k! in r^2."""
    small = np.abs(r) < 1.5
    u = np.where(small, 1.0, r) ** 2
    big = np.exp(u) * (u * u - 3 * u + 4) - 4 - u
    ser = sum(c * np.where(small, r, 0.0) ** p for c, p in _SER)
    return np.sqrt(np.where(small, ser, big))


def _ratio(x, r):
    y = np.log(x)
    y = (y - y.mean()) / math.sqrt(float(((y - y.mean()) ** 2).mean()))
    e = np.exp(np.outer(r, y))
    m = e.mean(axis=1)
    d = 2 * np.log(m) - r * (e * y).mean(axis=1) / m - r * float(y.mean())
    return d / _sigma(r)


def kl_sup(x, kw, null):
    return math.sqrt(len(x)) * float(np.max(np.abs(_ratio(x, np.linspace(-5, 5, 1000)))))


def kl_int(x, kw, null):
    # Gauss-Legendre on panels away from 0; the integrand is smooth on each side and bounded at 0
    t, w = np.polynomial.legendre.leggauss(40)
    tot = 0.0
    for lo, hi in ((.002, .5), (.5, 1.5), (1.5, 3), (3, 5)):
        r = (hi - lo) / 2 * t + (hi + lo) / 2
        for s in (1, -1):
            tot += float((w * _ratio(x, s * r) ** 2).sum()) * (hi - lo) / 2
    edge = _ratio(x, np.array([.002, -.002]))
    return len(x) * (tot + .002 * float((edge ** 2).sum()))


REFS = {"QuesenberryMillerLogNormalGofStatistic": qm, "KLSupremumLogNormalGoFStatistic": kl_sup, "KLIntegralLogNormalGoFStatistic": kl_int}
TOL = {"KLSupremumLogNormalGoFStatistic": (1e-4, 1e-6), "KLIntegralLogNormalGoFStatistic": (1e-3, 1e-5)}
