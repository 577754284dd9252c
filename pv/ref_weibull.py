"""Definitions of the Weibull statistics (Krit, Gaudoin & Remy; R package EWGoF; original papers)."""
import math
import numpy as np
import scipy.optimize as so
import scipy.stats as st
from scipy.special import gamma


def mle(x):
    """Weibull (shape, scale) maximum likelihood: root of the profile score."""
    l = np.log(x)
    m, top = l.mean(), l.max()

    def g(k):
        w = np.exp(k * (l - top))
        return (l * w).sum() / w.sum() - 1 / k - m
    k = so.brentq(g, 1e-6, 1e4, xtol=1e-14, rtol=1e-13)
    eta = math.exp(top) * float(np.mean(np.exp(k * (l - top)))) ** (1 / k)
    return k, eta


def std_log(x):
    """Standardised log observations: smallest-extreme-value distributed under the null."""
    k, eta = mle(x)
    return k * (np.log(x) - math.log(eta))


def _ok_parts(x):
    n = len(x)
    y = np.sort(np.log(x))
    w = [math.log((n + 1) / (n - i + 1)) for i in range(1, n)]
    wn = [v * (1 + math.log(v)) - 1 for v in w]
    w.append(n - sum(w))
    wn.append(.4228 * n - sum(wn))
    num = .6079 * float(np.dot(wn, y)) - .257 * float(np.dot(w, y))
    return n, y, num


def ok(x, kw, null):
    n, y, num = _ok_parts(x)
    sig = sum((2 * i - 1 - n) * v for i, v in enumerate(y, 1)) / (math.log(2) * (n - 1))
    return (num / sig - 1 - .13 / math.sqrt(n) + 1.18 / n) / (.49 / math.sqrt(n) - .36 / n)


def sb(x, kw, null):
    n, y, num = _ok_parts(x)
    return n * (num / n) ** 2 / float(((y - y.mean()) ** 2).sum())


def st1(x, kw, null):
    return (float(st.skew(-np.log(x))) - 1.139547) ** 2 / (20 / len(x))


def st2(x, kw, null):
    y = -np.log(x)
    return (float(st.kurtosis(y, fisher=False)) - 7.55 * float(st.skew(y)) + 3.21) ** 2 / (219.72 / len(x))


def gq(p):
    return np.log(-np.log1p(-p))


def r2(a, b):
    a, b = a - a.mean(), b - b.mean()
    return float((a @ b) ** 2 / ((a @ a) * (b @ b)))


def rsb(x, kw, null):
    n = len(x)
    m = gq(np.arange(1, n + 1) / (n + 1))
    l = np.log(x)
    return n * (1 - r2(np.sort(l), m)), {"RSB-pairs-the-unsorted-sample-with-ordered-quantiles": n * (1 - r2(l, m))}


def rejg(x, kw, null):
    n = len(x)
    m = gq((np.arange(1, n + 1) - .3175) / (n + .365))
    return r2(np.sort(np.log(x)), m) ** 2


def spp(x, kw, null):
    n = len(x)
    r = 2 / math.pi * np.arcsin(np.sqrt((np.arange(1, n + 1) - .5) / n))
    u = -np.expm1(-np.exp(np.sort(std_log(x))))
    s = 2 / math.pi * np.arcsin(np.sqrt(u))
    return float(np.max(np.abs(r - s))), {"SPP-pairs-ascending-plotting-positions-with-descending-values": float(np.max(np.abs(r - s[::-1])))}


def gumbel_scores(n):
    """David-Johnson approximation of the expected order statistics of the smallest extreme value law."""
    out = []
    for i in range(1, n + 1):
        p = i / (n + 1)
        q = 1 - p
        L = math.log(q)
        d1 = -1 / (q * L)
        d2 = d1 / q - d1 ** 2
        d3 = d2 / q + d1 / q ** 2 - 2 * d1 * d2
        d4 = d3 / q + 2 * d2 / q ** 2 + 2 * d1 / q ** 3 - 2 * (d2 ** 2 + d1 * d3)
        out.append(math.log(-L) + p * q / (2 * (n + 2)) * d2 + p * q / (n + 2) ** 2 * ((q - p) * d3 / 3 + p * q * d4 / 8))
    return np.array(out)


def _g(x):
    return np.diff(np.sort(np.log(x))) / np.diff(gumbel_scores(len(x)))


def ts(x, kw, null):
    n, g = len(x), _g(x)
    return 2 * sum((n - 1 - i) * g[i - 1] for i in range(1, n - 1)) / ((n - 2) * g.sum())


def los(x, kw, null):
    n, g = len(x), _g(x)
    if g[:1].min() <= 0 or g[-1] <= 0:
        return float("nan")
    z = np.sort(np.cumsum(g)[:n - 2] / g.sum())
    z1 = np.sort((np.cumsum(g[::-1]) / g.sum())[:n - 2])   # 1 - z, ascending
    k = n - 2
    return -k - sum((2 * i - 1) * (math.log(z[i - 1]) + math.log(z1[i - 1])) for i in range(1, k + 1)) / k


def msf(x, kw, null):
    n, g = len(x), _g(x)
    return float(g[n // 2:].sum() / g.sum())


def md(x, kw, null):
    n = len(x)
    F = null.cdf(np.sort(x))
    if F[0] <= 0:
        return float("nan")
    e = np.arange(1, n) / n
    return n * (float(np.sum((e - 1) ** 2 * np.diff(np.log(F)))) + 2 * float(np.sum((e - 1) * np.diff(F))) + .5)


def kl(x, kw, null):
    n = len(x)
    m = kw.get("m") or n // 2
    y = np.sort(np.log(x))
    gaps = np.array([y[min(n - 1, i + m)] - y[max(0, i - m)] for i in range(n)])
    if gaps.min() <= 0:
        return float("nan")
    h = float(np.mean(np.log(n / (2 * m) * gaps)))
    full = -h - float(np.mean(null.logpdf(x) + np.log(x)))
    std = -h - float(np.mean(y)) + float(np.mean(x))
    return full, {"KullbackLeibler-ignores-the-declared-parameters": std}


def lt(kind):
    def f(x, kw, null):
        n, m, a = len(x), kw.get("m", 100), kw.get("_call", {}).get("a", -5)
        y = std_log(x)
        t = np.array([-(m - i) / m for i in range(m)]) if kind == 2 else np.linspace(-2.5, .49, m)
        return n * sum(math.exp(-math.exp(a * v) + a * v) * (math.gamma(1 - v) - float(np.mean(np.exp(-y * v)))) ** 2 for v in t)
    return f


def cq(x, kw, null):
    n, y = len(x), std_log(x)
    v = np.array([math.sqrt(n) * (float(np.mean(np.exp(-y * s))) - float(gamma(1 - s))) for s in (-.1, .02)])
    V = np.array([[1.59, .91], [.91, .53]])
    return float(v @ np.linalg.solve(V, v))


def chi2(x, kw, null):
    n = len(x)
    k = math.ceil(math.sqrt(n))
    edges = np.linspace(x.min(), x.max(), k + 1)
    o = np.histogram(x, edges)[0] / n
    e = np.where(null.cdf(edges[1:]) < .5, np.diff(null.cdf(edges)), -np.diff(null.sf(edges)))
    return float(np.sum((o - e) ** 2 / e)) if e.min() > 0 else float("nan")


S = "WeibullGofStatistic"
REFS = {k + S: v for k, v in {"OK": ok, "Sb": sb, "SB": sb, "ST1": st1, "ST2": st2, "RSB": rsb, "REJG": rejg, "SPP": spp, "TikuSingh": ts,
                              "LOS": los, "MSF": msf, "MahdiDoostparast": md, "KullbackLeibler": kl, "LaplaceTransform2": lt(2),
                              "LaplaceTransform3": lt(3), "CabanaQuiroz": cq, "Chi2Pearson": chi2}.items()}
CALLS = {"KullbackLeibler" + S: [{}, dict(m=1), dict(m=2), lambda n: dict(m=n - 1), lambda n: dict(m=max(1, 3 * n // 4)), lambda n: dict(m=n // 2 + 1)],
         "LaplaceTransform2" + S: [{}, dict(m=20), dict(m=301), dict(a=-10), dict(a=-2.5)], "LaplaceTransform3" + S: [{}, dict(m=33), dict(m=4), dict(a=-10), dict(a=-1, m=50)]}
TOL = {"SPP" + S: (1e-4, 1e-6), "LaplaceTransform2" + S: (1e-4, 1e-6), "LaplaceTransform3" + S: (1e-4, 1e-6), "CabanaQuiroz" + S: (1e-4, 1e-6),
       "MahdiDoostparast" + S: (1e-6, 1e-8), "LOS" + S: (1e-6, 1e-8)}
