"""Published definitions of the composite-normality statistics (Romao, Delgado & Costa 2010; PoweR; original papers)."""
import math
import numpy as np
import scipy.stats as st

PHI, phi, Q = st.norm.cdf, st.norm.pdf, st.norm.ppf


def mom(x, k):
    return float(np.mean((x - x.mean()) ** k))


def std1(x):
    return (x - x.mean()) / math.sqrt(((x - x.mean()) ** 2).sum() / (len(x) - 1))


def corr(a, b):
    a, b = a - a.mean(), b - b.mean()
    return float((a @ b) / math.sqrt((a @ a) * (b @ b)))


def jb(x, kw, null):
    g1, g2 = mom(x, 3) / mom(x, 2) ** 1.5, mom(x, 4) / mom(x, 2) ** 2 - 3
    return len(x) / 6 * g1 ** 2 + len(x) / 24 * g2 ** 2


def skew(x, kw, null):
    # SciPy's skewtest replaces a skewness of exactly zero by one standard error; the published statistic is zero there
    return 0.0 if abs(st.skew(x)) < 1e-13 else float(st.skewtest(x).statistic)


def kurt(x, kw, null):
    return float(st.kurtosistest(x).statistic)


def dap(x, kw, null):
    return float(skew(x, kw, null) ** 2 + st.kurtosistest(x).statistic ** 2)


def filli(x, kw, null):
    n = len(x)
    m = [(i - .3175) / (n + .365) for i in range(1, n + 1)]
    m[-1] = .5 ** (1 / n)
    m[0] = 1 - m[-1]
    return corr(np.sort(x), Q(np.array(m)))


def lg(x, kw, null):
    n = len(x)
    return corr(np.sort(x), Q((np.arange(1, n + 1) - .375) / (n + .25)))


def rj(x, kw, null):
    n = len(x)
    a = {"1/2": .5, "0": 0.0}.get(kw.get("cte_alpha", "3/8"), .375)
    p = (np.arange(1, n + 1) - a) / (n + 1 - 2 * a)
    x = np.sort(x)
    if kw.get("weighted"):
        p = np.array([p[x == v].mean() for v in x])
    return corr(x, Q(p))


def sf(x, kw, null):
    n = len(x)
    return corr(np.sort(x), Q((np.arange(1, n + 1) - .375) / (n + .25))) ** 2


def sw(x, kw, null):
    """Royston's (1992) weights."""
    n = len(x)
    x = np.sort(x)
    m = Q((np.arange(1, n + 1) - .375) / (n + .25))
    s = m @ m
    u = n ** -.5
    a = m / math.sqrt(s)
    an = a[-1] + .221157 * u - .147981 * u ** 2 - 2.071190 * u ** 3 + 4.434685 * u ** 4 - 2.706056 * u ** 5
    w = m.copy()
    if n <= 5:
        f = (s - 2 * m[-1] ** 2) / (1 - 2 * an ** 2)
        w /= math.sqrt(f)
    else:
        an1 = a[-2] + .042981 * u - .293762 * u ** 2 - 1.752461 * u ** 3 + 5.682633 * u ** 4 - 3.582633 * u ** 5
        f = (s - 2 * m[-1] ** 2 - 2 * m[-2] ** 2) / (1 - 2 * an ** 2 - 2 * an1 ** 2)
        w /= math.sqrt(f)
        w[-2], w[1] = an1, -an1
    w[-1], w[0] = an, -an
    return float((w @ x) ** 2 / ((x - x.mean()) ** 2).sum())


def ep(x, kw, null):
    n = len(x)
    m2 = mom(x, 2)
    d = (x[:, None] - x[None, :]) ** 2
    s = np.exp(-d / (2 * m2)).sum()
    return 1 + n / math.sqrt(3) + (s - n) / n - math.sqrt(2) * np.exp(-(x - x.mean()) ** 2 / (4 * m2)).sum()


def tl(x, r, t):
    """Sample TL-moment of order r with symmetric trimming t (t = 0: L-moment)."""
    n = len(x)
    x = np.sort(x)
    tot = 0.0
    for i in range(1, n + 1):
        w = sum((-1) ** k * math.comb(r - 1, k) * math.comb(i - 1, r + t - 1 - k) * math.comb(n - i, t + k) for k in range(r))
        tot += w / math.comb(n, r + 2 * t) * x[i - 1]
    return tot / r


HOSK = {0: [(.12383, .0088038, .0049295), (.12321, .0040493, .0020802), (.12291, .0019434, .00095785)],
        1: [(.067077, .0081391, .0042752), (.064456, .0034657, .0015699), (.063424, .0016064, .00068100)],
        2: [(.044174, .0086570, .0042066), (.040389, .0033818, .0013301), (.039030, .0015120, .00054207)],
        3: [(.033180, .0095765, .0044609), (.028224, .0033813, .0011823), (.026645, .0014547, .00045107)]}


def hosking(t):
    def f(x, kw, null):
        n = len(x)
        mu, v3, v4 = HOSK[t][0 if n <= 25 else 1 if n <= 50 else 2]
        l2 = tl(x, 2, t)
        if abs(l2) < 1e-8 * np.std(x):  # the centre of the sample is constant: the ratios are 0/0
            return float("nan")
        return (tl(x, 3, t) / l2) ** 2 / v3 + (tl(x, 4, t) / l2 - mu) ** 2 / v4
    return f


def glb(x, kw, null):
    n = len(x)
    z = np.sort(std1(x))
    i = np.arange(1, n + 1)
    p = st.beta.cdf(PHI(z), i, n + 1 - i)
    q = st.beta.cdf(st.norm.sf(z), n + 1 - i, i)  # 1 - p
    o = np.lexsort((-q, p))
    p, q = p[o], q[o]
    with np.errstate(divide="ignore"):
        return float(-n - np.sum((2 * n + 1 - 2 * i) * np.log(p) + (2 * i - 1) * np.log(q)) / n)


def dh(x, kw, null):
    n = len(x)
    b1, b2 = mom(x, 3) / mom(x, 2) ** 1.5, mom(x, 4) / mom(x, 2) ** 2
    be = 3 * (n * n + 27 * n - 70) * (n + 1) * (n + 3) / ((n - 2) * (n + 5) * (n + 7) * (n + 9))
    w2 = math.sqrt(2 * (be - 1)) - 1
    z1 = math.asinh(b1 * math.sqrt((w2 - 1) / 2 * (n + 1) * (n + 3) / (6 * (n - 2)))) / math.sqrt(math.log(math.sqrt(w2)))
    de = (n - 3) * (n + 1) * (n * n + 15 * n - 4)
    a = (n - 2) * (n + 5) * (n + 7) * (n * n + 27 * n - 70) / (6 * de)
    c = (n - 7) * (n + 5) * (n + 7) * (n * n + 2 * n - 5) / (6 * de)
    k = (n + 5) * (n + 7) * (n ** 3 + 37 * n * n + 11 * n - 313) / (12 * de)
    al = a + b1 * b1 * c
    chi = max(b2 - 1 - b1 * b1, 0) * 2 * k
    z2 = (np.cbrt(chi / (2 * al)) - 1 + 1 / (9 * al)) * math.sqrt(9 * al)
    return z1 ** 2 + z2 ** 2


def avgdev(x, c):
    return math.sqrt(math.pi / 2) * float(np.mean(np.abs(x - c)))


def rjb(x, kw, null):
    n, j = len(x), avgdev(x, np.median(x))
    return n / 6 * (mom(x, 3) / j ** 3) ** 2 + n / 64 * (mom(x, 4) / j ** 4 - 3) ** 2


def gmg(x, kw, null):
    return math.sqrt(mom(x, 2)) / avgdev(x, np.median(x))


def herm(k, z):
    """Orthonormal Hermite polynomial."""
    c = np.zeros(k + 1)
    c[k] = 1
    return np.polynomial.hermite_e.hermeval(z, c) / math.sqrt(math.factorial(k))


def bm(top):
    def f(x, kw, null):
        z = std1(x)
        return sum(herm(k, z).sum() ** 2 for k in range(3, top + 1)) / len(x)
    return f


def bs(x, kw, null):
    om = 13.29 * (math.log(math.sqrt(mom(x, 2))) - math.log(np.mean(np.abs(x - x.mean()))))
    return math.sqrt(len(x) + 2) * (om - 3) / 3.54


def mi(x, kw, null):
    n, M = len(x), np.median(x)
    A = np.median(np.abs(x - M))
    if A == 0:
        return float("nan")
    z = (x - M) / (9 * A)
    k = np.abs(z) < 1
    sb2 = n * (((x - M)[k] ** 2) * (1 - z[k] ** 2) ** 4).sum() / ((1 - z[k] ** 2) * (1 - 5 * z[k] ** 2)).sum() ** 2
    return ((x - M) ** 2).sum() / (n - 1) / sb2


def cc1(x, kw, null):
    z = std1(x)
    n = len(x)
    H = {k: herm(k, z).sum() / math.sqrt(n) for k in range(3, 9)}
    # weights of the project's (PoweR) polynomial terms: He_j(z)/sqrt(c_j)
    he = [np.ones(n), z, z ** 2 - 1, z ** 3 - 3 * z, z ** 4 - 6 * z ** 2 + 3]
    c = [1, math.sqrt(2), math.sqrt(6), 2 * math.sqrt(6), 2 * math.sqrt(30)]
    v = sum(H[4 + j] * he[j] / c[j] for j in range(5))
    return float(np.max(np.abs(PHI(z) * H[3] - phi(z) * v)))


def cc2(x, kw, null):
    z = std1(x)
    n = len(x)
    h = {k: herm(k, z) for k in range(9)}
    H = {k: h[k].sum() / math.sqrt(n) for k in range(3, 9)}

    def val(double):
        v = sum((math.sqrt(j / (j - 1)) * h[j - 2] + h[j]) * H[j + 3] * (2 if double and j == 5 else 1) for j in range(2, 6))
        return float(np.max(np.abs(-phi(z) * H[3] + (PHI(z) - z * phi(z)) * H[4] - phi(z) * v)))
    return val(False), {"CabanaCabana2-counts-the-last-term-twice": val(True)}


def cs(x, kw, null):
    n = len(x)
    x = np.sort(x)
    m = Q((np.arange(1, n + 1) - .375) / (n + .25))
    s = x.std(ddof=1)
    return math.sqrt(n) * (1 - sum((x[i + 1] - x[i]) / (m[i + 1] - m[i]) for i in range(n - 1)) / ((n - 1) * s))


def _zq2(x, u):
    n = len(x)
    return sum((x[i + 4] - x[i]) / (u[i + 4] - u[i]) for i in range(n - 4)) / (n - 4)


def zq(x, kw, null):
    n = len(x)
    x = np.sort(x)
    u = Q((np.arange(1, n + 1) - .375) / (n + .25))
    q1 = sum((x[i] - x[0]) / (u[i] - u[0]) for i in range(1, n)) / (n - 1)
    return math.log(q1 / _zq2(x, u)) if _zq2(x, u) > 0 else float("nan")


def zqs(x, kw, null):
    n = len(x)
    x = np.sort(x)
    u = Q((np.arange(1, n + 1) - .375) / (n + .25))
    q1 = sum((x[-1] - x[i]) / (u[-1] - u[i]) for i in range(n - 1)) / (n - 1)
    return math.log(q1 / _zq2(x, u)) if _zq2(x, u) > 0 else float("nan")


def nscor(n):
    """Expected normal order statistics, algorithm AS 177 (NSCOR2): the n//2 largest, descending."""
    eps, dl1 = (.419885, .450536, .456936, .468488), (.112063, .121770, .239299, .215159)
    dl2, gam, lam = (.080122, .111348, -.211867, -.115049), (.474798, .469051, .208597, .259784), (.282765, .304856, .407708, .414093)
    c1 = (9.5, 28.7, 1.9, 0., -7., -6.2, -1.6)
    c2 = (-6195., -9569., -6728., -17614., -8278., -3570., 1075.)
    c3 = (93380., 175160., 410400., 2157600., 2376000., 2065000., 2065000.)
    out = []
    for i in range(1, n // 2 + 1):
        j = min(i, 4) - 1
        e1 = (i - eps[j]) / (n + gam[j])
        e2 = e1 ** (lam[j] if i <= 3 else lam[3] - .283833 / (i - .106136))
        if i * n == 4:
            co = 1.9e-5
        elif i > 7 or (i != 4 and n > 20) or (i == 4 and n > 40):
            co = 0.0
        else:
            co = 1e-6 * (c1[i - 1] + (c2[i - 1] + c3[i - 1] / n ** 2) / n ** 2)
        out.append(-Q(e1 + e2 * (dl1[j] + e2 * dl2[j]) / n - co))
    return np.array(out)


def coin(x, kw, null):
    n = len(x)
    z = np.sort(std1(x))
    s = nscor(n)
    a = np.concatenate([-s, [0.0] * (n % 2), s[::-1]])
    # least squares of z on b1*a + b3*a^3; the statistic is b3 squared
    A = np.array([[np.sum(a ** 2), np.sum(a ** 4)], [np.sum(a ** 4), np.sum(a ** 6)]])
    b = np.array([np.sum(a * z), np.sum(a ** 3 * z)])
    return float(np.linalg.solve(A, b)[1] ** 2)


def dag(x, kw, null):
    n = len(x)
    x = np.sort(x)
    t = sum((i - (n + 1) / 2) * x[i - 1] for i in range(1, n + 1))
    return math.sqrt(n) * (t / (n ** 2 * math.sqrt(mom(x, 2))) - .28209479) / .02998598


def swrg(x, kw, null):
    n = len(x)
    p = np.arange(1, n + 1) / (n + 1)
    m = Q(p)
    f = phi(m)
    mf = np.concatenate([[0], m * f, [0]])
    a = np.array([-(n + 1) * (n + 2) * f[i - 1] * (mf[i - 1] - 2 * mf[i] + mf[i + 1]) for i in range(1, n + 1)])
    a /= math.sqrt(a @ a)
    x = np.sort(x)
    return float((a @ x) ** 2 / ((x - x.mean()) ** 2).sum())


def medcouple(x):
    x = np.sort(np.asarray(x, float))
    n = len(x)
    if n < 3:
        return 0.0
    m = np.median(x)
    if x[-1] == m:
        return -1.0
    if x[0] == m:
        return 1.0
    up, lo = x[x >= m][::-1], x[x <= m]
    ku, kl = int(np.sum(up == m)), 0
    vals = []
    p = ku
    for a, u in enumerate(up):
        for b, v in enumerate(lo[::-1]):
            if u == v == m:
                i = a - (len(up) - p)   # position among the ties in the upper half
                vals.append(float(np.sign(p - 1 - i - b)))
            else:
                vals.append((u - 2 * m + v) / (u - v))
    vals.sort(reverse=True)
    return vals[len(vals) // 2]


INV_V = np.array([[.8571890822945882, -.1051268907484579, .1051268907484580], [-.1051268907484579, .3944817329840534, -.01109532299714422],
                  [.1051268907484579, -.01109532299714422, .3944817329840535]])


def bhs(x, kw, null):
    n = len(x)
    x = np.sort(x)
    h = (n + 1) // 2
    w = np.array([medcouple(x), -medcouple(x[:h]) - .198828, medcouple(x[n - h:]) - .198828])
    return float(n * w @ INV_V @ w)


def sh(x, kw, null):
    n = len(x)
    s = x.std(ddof=1)
    u = np.ptp(x) / s
    g = np.abs(x - x.mean()).sum() / (s * math.sqrt(n * (n - 1)))
    if n < 150:
        lc = math.log(.5) + math.lgamma(n + 1) / (n - 1) - math.log(n)
    else:
        lc = math.log(2 * math.pi) / (2 * (n - 1)) + math.log(n * math.sqrt(n) / math.e) / (n - 1) - math.log(2 * math.e)
    a, b = -(n - 1) * (lc + math.log(u)), -(n - 1) * math.log(g)
    hi = max(a, b)
    return math.exp((hi + math.log(math.exp(a - hi) + math.exp(b - hi))) / (n - 1))


def dl(x, kw, null):
    n = len(x)
    y = np.abs(x - x.mean()) / math.sqrt(mom(x, 2))
    with np.errstate(divide="ignore", invalid="ignore"):
        t = np.where(y > 0, y ** 2 * np.log(y), 0.0)
    r = np.array([.18240929 - .5 * t.mean(), .5348223 - np.log1p(y).mean(), .20981558 - np.log(np.log(2.71828182846 + y)).mean()])
    D = np.array([[1259.04213344, -32040.69569026, 85065.77739473], [-32040.6956903, 918649.9005906, -2425883.3443201],
                  [85065.7773947, -2425883.3443201, 6407749.8211208]])
    return float(n * r @ D @ r)


S = "NormalityGofStatistic"
REFS = {k + S: v for k, v in {
    "JB": jb, "Skew": skew, "Kurtosis": kurt, "DAP": dap, "Filli": filli, "LooneyGulledge": lg, "RyanJoiner": rj, "SF": sf, "ShapiroWilk": sw,
    "EppsPulley": ep, "Hosking1": hosking(0), "Hosking2": hosking(1), "Hosking3": hosking(2), "Hosking4": hosking(3), "GlenLeemisBarr": glb,
    "DoornikHansen": dh, "RobustJarqueBera": rjb, "GMG": gmg, "BontempsMeddahi1": bm(4), "BontempsMeddahi2": bm(6), "BonettSeier": bs,
    "MartinezIglewicz": mi, "CabanaCabana1": cc1, "CabanaCabana2": cc2, "ChenShapiro": cs, "ZhangQ": zq, "ZhangQStar": zqs, "Coin": coin,
    "Dagostino": dag, "SWRG": swrg, "BHS": bhs, "Spiegelhalter": sh, "DesgagneLafaye": dl}.items()}
def two_valued(x):
    """Doornik-Hansen takes the cube root of kurtosis - 1 - skewness^2, which is zero (up to rounding) on samples of two values only."""
    return mom(x, 4) / mom(x, 2) ** 2 - 1 - (mom(x, 3) / mom(x, 2) ** 1.5) ** 2 < 1e-9


LOOSE = {"DoornikHansen" + S: (two_valued, 1e-2)}
TOL = {"Hosking1" + S: (1e-6, 1e-8), "DesgagneLafaye" + S: (1e-6, 1e-7), "Coin" + S: (1e-7, 1e-10), "EppsPulley" + S: (1e-7, 1e-8), "GlenLeemisBarr" + S: (1e-6, 1e-6),
       "Hosking2" + S: (1e-6, 1e-8), "Hosking3" + S: (1e-6, 1e-8), "Hosking4" + S: (1e-6, 1e-8)}
