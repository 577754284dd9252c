"""Definitions of the non-distance uniformity, gamma, beta and Student statistics."""
import math
import numpy as np
import scipy.stats as st
from scipy.special import betaln, psi
from numpy.polynomial import legendre as L

U = "UniformGofStatistic"
G = "GammaGofStatistic"
B = "BetaGofStatistic"


def divergence(o, e, lam):
    """Cressie-Read power divergence, with the limits at 0 (G) and -1 (modified G)."""
    tot = 0.0
    for a, b in zip(o, e):
        if a == 0 and b == 0:
            continue
        if lam == 0:
            tot += 2 * a * math.log(a / b) if a else 0.0
        elif lam == -1:
            if a == 0:
                return float("nan")
            tot += 2 * b * math.log(b / a)
        else:
            if a == 0:
                if lam < 0:
                    if lam < -1:
                        return float("nan")
                    continue   # a * (a/b)^lam -> 0
                if lam == 1:
                    tot += b
                continue
            tot += (a - b) ** 2 / b if lam == 1 else 2 / (lam * (lam + 1)) * a * ((a / b) ** lam - 1)
    return tot


def counts(x, edges):
    """Counts in the cells; None when an observation sits on an inner edge (within rounding)."""
    inner = np.asarray(edges[1:-1], float)
    scale = max(np.ptp(x), 1e-300)
    if len(inner) and np.min(np.abs(x[:, None] - inner[None, :])) < 1e-9 * scale:
        return None
    idx = (x[:, None] > inner[None, :]).sum(axis=1)
    return [int((idx == j).sum()) for j in range(len(edges) - 1)]


def cells(null, edges, n):
    """Expected counts, each taken from the tail in which it does not cancel."""
    f, g = null.cdf(edges), null.sf(edges)
    return [n * (f[i + 1] - f[i] if f[i] < .5 else g[i] - g[i + 1]) for i in range(len(f) - 1)]


def std01(x, null):
    a, b = null.support()
    return (np.asarray(x) - a) / (b - a)


def spac(x, null):
    return np.diff(np.concatenate([[0.0], np.sort(null.cdf(x)), [1.0]]))


# ---- uniform --------------------------------------------------------------------------------------------------------
def u_chi2(x, kw, null):
    n, how = len(x), kw.get("bins", "sturges")
    a, b = null.support()
    if how == "sturges":
        k = math.ceil(math.log2(n) + 1)
    elif how == "sqrt":
        k = math.isqrt(n - 1) + 1
    elif how == "auto":
        k = math.ceil((b - a) * n ** (1 / 3) / (3.5 * float(np.std(x))))
    else:
        k = int(how)
    k = max(2, k)
    o = counts(x, np.linspace(a, b, k + 1))
    return float("nan") if o is None else divergence(o, [n / k] * k, kw.get("lambda_", 1))


def u_greenwood(x, kw, null):
    return float((spac(x, null) ** 2).sum())


def u_bickel(x, kw, null):
    z, n = std01(x, null), len(x)
    h = kw.get("bandwidth", "auto")
    if h == "auto":
        h = 1.06 * math.sqrt(float(np.mean((z - z.mean()) ** 2))) / n ** .2
    g = np.linspace(0, 1, 1000)
    f = np.exp(-.5 * ((g[:, None] - z[None, :]) / h) ** 2).sum(axis=1) / (n * h * math.sqrt(2 * math.pi))
    return float(((f - 1) ** 2).sum() / 999)


def _h(p, q):
    return max(p, q) - p - q + (p * p + q * q) / 2


def u_stein(x, kw, null):
    z, n = std01(x, null), len(x)
    return sum(_h(z[i], z[j]) for i in range(n) for j in range(i)) * 2 / (n * (n - 1))


def u_cstein(x, kw, null):
    c = kw.get("censoring_indices")
    if c is None:
        return u_stein(x, kw, null)
    z, n, c = std01(x, null), len(x), list(c)
    if len(set(z.tolist())) < n:
        return float("nan")   # the convention at ties of censored and uncensored values is not fixed

    def surv(t):   # Kaplan-Meier estimate of the censoring survival function
        s = 1.0
        for v, d in sorted(zip(z, c)):
            if v <= t and d:
                s *= 1 - 1 / sum(1 for w in z if w >= v)
        return s
    keep = [(v, surv(v)) for v, d in zip(z, c) if not d]
    if any(s < 1e-9 for _, s in keep):
        return float("nan")
    tot = sum(_h(keep[i][0], keep[j][0]) / (keep[i][1] * keep[j][1]) for i in range(len(keep)) for j in range(i))
    return 2 * tot / (n * (n - 1))


def u_neyman(x, kw, null):
    z = std01(x, null)
    tot = 0.0
    for j in range(1, kw.get("k", 4) + 1):
        c = [0] * j + [1]
        tot += (2 * j + 1) * float(L.legval(2 * z - 1, c).sum()) ** 2 / len(x)
    return tot


def u_sherman(x, kw, null):
    return float(np.abs(spac(x, null) - 1 / (len(x) + 1)).sum() / 2)


def u_qm(x, kw, null):
    d = spac(x, null)
    return float(d @ d + d[1:] @ d[:-1])


def marks(p):
    def f(n):
        r = np.random.default_rng(n * 7 + int(p * 100))
        c = (r.uniform(size=n) < p).astype(int)
        return {"censoring_indices": c}
    return f


UREFS = {"Chi2Pearson" + U: u_chi2, "GreenwoodTest" + U: u_greenwood, "BickelRosenblatt" + U: u_bickel, "Stein" + U: u_stein,
         "CensoredStein" + U: u_cstein, "NeymanSmoothTest" + U: u_neyman, "Sherman" + U: u_sherman, "QuesenberryMiller" + U: u_qm}
UCALLS = {"CensoredStein" + U: [{}, marks(.2), marks(.5), marks(.05), lambda n: {"censoring_indices": [0] * n},
                                lambda n: {"censoring_indices": [1] + [0] * (n - 1)}]}


# ---- gamma ----------------------------------------------------------------------------------------------------------
def g_binned(lam):
    def f(x, kw, null):
        k = kw.get("bins", 8)
        o = counts(x, null.ppf(np.linspace(0, 1, k + 1)))
        power = kw.get("power", lam)
        return float("nan") if o is None else divergence(o, [len(x) / k] * k, power)
    return f


def g_moran(x, kw, null):
    x = np.sort(x)
    F, S = np.r_[0, null.cdf(x), 1], np.r_[1, null.sf(x), 0]
    d = np.where(F[:-1] < .5, np.diff(F), -np.diff(S))    # resolved next to one as well as next to zero
    if d.min() <= 1e-14 * min(1.0, *S[1:-1], *F[1:-1]):
        return float("nan")
    return -float(np.sum(np.log(len(x) * d)))


def g_ppcc(x, kw, null):
    n = len(x)
    m = null.ppf((np.arange(1, n + 1) - .375) / (n + .25))
    return 1 - float(np.corrcoef(np.sort(x), m)[0, 1])


# ---- Student --------------------------------------------------------------------------------------------------------
def s_chi2(x, kw, null):
    k = kw.get("n_bins", 10)
    o = counts(x, null.ppf(np.linspace(0, 1, k + 1)))
    return float("nan") if o is None else divergence(o, [len(x) / k] * k, 1)


# ---- beta -----------------------------------------------------------------------------------------------------------
def b_chi2(x, kw, null):
    n = len(x)
    k = math.isqrt(n - 1) + 1
    edges = np.linspace(0, 1, k + 1)
    o = counts(x, edges)
    return float("nan") if o is None else divergence(o, cells(null, edges, n), kw.get("lambda_", 1))


def b_moment(x, kw, null):
    m, v = (float(t) for t in null.stats("mv"))
    n, xm = len(x), float(np.mean(x))
    s2 = float(((x - xm) ** 2).sum()) / (n - 1)
    return n * ((xm - m) ** 2 + (s2 - v) ** 2) / v


def b_sk(x, kw, null):
    n, c = len(x), x - np.mean(x)
    m2, m3, m4 = (float((c ** p).mean()) for p in (2, 3, 4))
    sk = m3 / m2 ** 1.5 * math.sqrt(n * (n - 1)) / (n - 2)
    ku = (n - 1) / ((n - 2) * (n - 3)) * ((n + 1) * (m4 / m2 ** 2 - 3) + 6)
    ts, tk = (float(t) for t in null.stats("sk"))
    return n * ((sk - ts) ** 2 / 6 + (ku - tk) ** 2 / 24)


def b_ratio(x, kw, null):
    a, b = kw.get("alpha", 1), kw.get("beta", 1)
    r = math.exp(float(np.log(x).mean())) / float(x.mean())
    return math.sqrt(len(x)) * abs(r - math.exp(psi(a) - psi(a + b)) / float(null.mean()))


def b_entropy(x, kw, null):
    n = len(x)
    m = kw.get("m", n // 4)
    y = np.sort(x)
    h = 0.0
    for i in range(n):
        w = y[min(i + m, n - 1)] - y[max(i - m, 0)]
        h += math.log(n * w / (2 * m)) if w > 0 else 0.0
    return math.sqrt(n) * abs(h / n - float(null.entropy()))


def b_mode(x, kw, null):
    a, b = kw.get("alpha", 2), kw.get("beta", 2)
    n = len(x)
    h = float(np.std(x, ddof=1)) * n ** (-.2)          # Scott's rule
    g = np.linspace(.01, .99, 200)
    f = np.exp(-.5 * ((g[:, None] - x[None, :]) / h) ** 2).sum(axis=1)
    top = np.sort(f)[-2:]
    if top[1] - top[0] < 1e-9 * top[1]:
        return float("nan")                            # two modes of equal height
    return math.sqrt(n) * abs(float(g[f.argmax()]) - (a - 1) / (a + b - 2))


GREFS = {"Chi2Pearson" + G: g_binned(1), "LikelihoodRatio" + G: g_binned(0), "CressieRead" + G: g_binned(2 / 3), "Greenwood" + G: u_greenwood,
         "Moran" + G: g_moran, "ProbabilityPlotCorrelation" + G: g_ppcc, "ChiSquareStudentGofStatistic": s_chi2, "Chi2Pearson" + B: b_chi2,
         "MomentBased" + B: b_moment, "SkewnessKurtosis" + B: b_sk, "Ratio" + B: b_ratio, "Entropy" + B: b_entropy, "Mode" + B: b_mode}
GCALLS = {"Entropy" + B: [{}, dict(m=1), dict(m=2)]}
TOL = {"SkewnessKurtosis" + B: (1e-6, 1e-8), "Moran" + G: (1e-6, 1e-6), "Entropy" + B: (1e-6, 1e-7)}
