"""Published definitions of the exponentiality statistics (Henze & Meintanis 2005, Ascher 1990, R package exptest)."""
import itertools
import math
import numpy as np
import scipy.special as sp


def ep(x, kw, null):
    y = x / x.mean()
    return math.sqrt(48 * len(x)) * float(np.mean(np.exp(-y) - .5))


def ahs(x, kw, null):
    n = len(x)
    d = np.abs(x[:, None] - x[None, :]).ravel()
    m = 2 * np.minimum(x[:, None], x[None, :]).ravel()
    return (sum(int((d < v).sum()) for v in x) - sum(int((m < v).sum()) for v in x)) / n ** 3


def atk(x, kw, null):
    p = kw.get("p", .99)
    return math.sqrt(len(x)) * abs(float(np.mean(x ** p)) ** (1 / p) / x.mean() - math.gamma(1 + p) ** (1 / p))


def co(x, kw, null):
    y = x / x.mean()
    return len(x) + float(np.sum((1 - y) * np.log(y)))


def dsp(x, kw, null):
    n, b = len(x), kw.get("b", .44)
    return sum(1 for i, j in itertools.permutations(range(n), 2) if x[i] > b * x[j]) / (n * (n - 1))


def spacings(x):
    x = np.sort(x)
    n = len(x)
    return np.array([(n - i) * (x[i] - (x[i - 1] if i else 0.0)) for i in range(n)])


def eps(x, kw, null):
    n, d = len(x), spacings(x)
    if d.min() <= 0:
        return float("nan")
    return 2 * n * (math.log(d.mean()) - float(np.mean(np.log(d)))) / (1 + (n + 1) / (6 * n))


def fz(x, kw, null):
    n = len(x)
    y = np.sort(x) / x.mean()
    return sum(abs(1 - math.exp(-v) - (i - .5) / n) for i, v in enumerate(y, 1)) / math.sqrt(n)


def gini(x, kw, null):
    n = len(x)
    if n > 3000:  # sum over pairs of |x_i - x_j| through the order statistics
        return float(np.sum((2.0 * np.arange(1, n + 1) - n - 1) * np.sort(x))) / (n * (n - 1.0) * x.mean())
    return float(np.abs(x[:, None] - x[None, :]).sum()) / (2 * n * (n - 1) * x.mean())


def gd(x, kw, null):
    n, d = len(x), spacings(x)
    r = kw.get("r") or round(n / 2)
    return float(d[:r].mean() / d[r:].mean())


def hm(x, kw, null):
    n, d = len(x), spacings(x)
    r = kw.get("r") or round(n / 4)
    return float(np.concatenate([d[:r], d[n - r:]]).mean() / d[r:n - r].mean())


def hg(p):
    def f(x, kw, null):
        n = len(x)
        return sum(abs(kw.get("lam", 1) * v + math.log(1 - i / (n + 1))) ** p for i, v in enumerate(np.sort(x), 1)) / n
    return f


def hp(x, kw, null):
    n = len(x)
    t = sum(1 for i in range(n) for j, k in itertools.combinations([a for a in range(n) if a != i], 2) if x[i] > x[j] + x[k])
    return 2 * t / (n * (n - 1) * (n - 2))


def km(x, kw, null):
    n = len(x)
    y = np.sort(x) / x.mean()
    return max(abs(2 / math.pi * (math.asin(math.sqrt((i - .5) / n)) - math.asin(math.sqrt(-math.expm1(-v))))) for i, v in enumerate(y, 1))


def kc(x, kw, null):
    n = len(x)
    J = lambda u: 2 * (1 - u) * (1 - math.log(1 - u)) - 1
    return math.sqrt(108 * n / 17) * sum(J(i / (n + 1)) * v for i, v in enumerate(np.sort(x), 1)) / x.sum()


def lz(x, kw, null):
    return float(np.sort(x)[:int(len(x) * kw.get("p", .5))].sum() / x.sum())


def mn(x, kw, null):
    return float(np.euler_gamma + np.mean(np.log(x / x.mean())))


def pt(x, kw, null):
    return float(np.mean(np.abs(x - x.mean())) / (2 * x.mean()))


def sw(x, kw, null):
    n = len(x)
    return float(n * (x.mean() - x.min()) ** 2 / ((n - 1) * ((x - x.mean()) ** 2).sum()))


def rs(x, kw, null):
    n = len(x)
    h = [sorted(t)[1] - min(t) for t in itertools.combinations(x, 3)]  # middle minus smallest
    g = [min(t) for t in itertools.combinations(x, 2)]
    if np.min(np.abs(np.subtract.outer(np.array(h), x))) < 1e-12 * np.max(x):
        return float("nan")                                            # decided by rounding
    sh = sum(sum(1 for v in h if v < m) for m in x) / math.comb(n, 3)
    sg = sum(sum(1 for v in g if v < m) for m in x) / math.comb(n, 2)
    return (sh - sg) / n


def we(x, kw, null):
    n = len(x)
    return float(((x - x.mean()) ** 2).sum() / (n * x.mean()) ** 2)


def ww(x, kw, null):
    return float(x.max() / x.min())


S = "ExponentialityGofStatistic"
REFS = {k + S: v for k, v in {
    "EppsPulley": ep, "Ahsanullah": ahs, "Atkinson": atk, "CoxOakes": co, "Deshpande": dsp, "Epstein": eps, "Frozini": fz, "Gini": gini,
    "Gnedenko": gd, "Harris": hm, "HegazyGreen1": hg(1), "HegazyGreen2": hg(2), "HollanderProshan": hp, "KimberMichael": km, "Kochar": kc,
    "Lorenz": lz, "Moran": mn, "Pietra": pt, "ShapiroWilk": sw, "Rossberg": rs, "We": we, "WongWong": ww}.items()}
CALLS = {"Atkinson" + S: [{}, dict(p=.5), dict(p=2.0)], "Deshpande" + S: [{}, dict(b=.2), dict(b=.9)], "Lorenz" + S: [{}, dict(p=.25), dict(p=.9)],
         "Gnedenko" + S: [{}, lambda n: dict(r=1), lambda n: dict(r=n - 1)], "Harris" + S: [{}, lambda n: dict(r=1)]}
