"""EDF distances: sup / quadratic distances between the empirical and the declared (or fitted) distribution function."""
import numpy as np
import scipy.optimize as so
import scipy.stats as st
from pysatl_criterion.statistics.alternative import AlternativeType as AT


def ks(F, side=AT.TWO_TAILED):
    """Suprema of F_n - F and F - F_n, from the step function itself (ties count once)."""
    F = np.sort(F)
    n = len(F)
    vals, cnt = np.unique(F, return_counts=True)
    cum = np.cumsum(cnt)
    dp = max(float(c) / n - v for v, c in zip(vals, cum))
    dm = max(v - float(c - k) / n for v, c, k in zip(vals, cum, cnt))
    return dp if side == AT.RIGHT else dm if side == AT.LEFT else max(dp, dm)


def kuiper(F):
    return ks(F, AT.RIGHT) + ks(F, AT.LEFT)


def cvm(F):
    F = np.sort(F)
    n = len(F)
    return 1 / (12 * n) + sum(((2 * i - 1) / (2 * n) - v) ** 2 for i, v in enumerate(F, 1))


def watson(F):
    return cvm(F) - len(F) * (np.mean(F) - 0.5) ** 2


def ad(logF, logS):
    """logF, logS of the ascending sample."""
    n = len(logF)
    return -n - sum((2 * i - 1) * (logF[i - 1] + logS[n - i]) for i in range(1, n + 1)) / n


def min_toshiyuki(F, S, eps=0.0):
    """F, S: distribution and survival function of the ascending sample."""
    n = len(F)
    return sum(max(i / n - v, v - (i - 1) / n) / np.sqrt(v * (s + eps)) for i, (v, s) in enumerate(zip(F, S), 1)) / np.sqrt(n)


def za(F):
    F = np.sort(F)
    n = len(F)
    return -sum(np.log(v) / (n - i + .5) + np.log1p(-v) / (i - .5) for i, v in enumerate(F, 1))


def zc(F):
    F = np.sort(F)
    n = len(F)
    return sum(np.log((1 / v - 1) / ((n - .5) / (i - .75) - 1)) ** 2 for i, v in enumerate(F, 1))


def zk(F):
    F = np.sort(F)
    n = len(F)
    return max((i - .5) * np.log((i - .5) / (n * v)) + (n - i + .5) * np.log((n - i + .5) / (n * (1 - v))) for i, v in enumerate(F, 1))


def gumbel_min_mle(y):
    """(loc, scale) maximising the smallest-extreme-value likelihood of y: profile equation in the scale."""
    y = np.asarray(y, float)
    m = y.mean()
    z = y - y.max()

    def g(s):
        w = np.exp(z / s)
        return (y * w).sum() / w.sum() - m - s
    sd = y.std()
    lo, hi = sd * 1e-3, sd * 20
    s = so.brentq(g, lo, hi, xtol=1e-14, rtol=1e-14, maxiter=500)
    loc = s * np.log(np.mean(np.exp(z / s))) + y.max()
    return loc, s


def _F(x, kw, null):
    return null.cdf(np.sort(x))


def _side(kw):
    return kw.get("alternative_type", AT.TWO_TAILED)


def r_ks(x, kw, null):
    return ks(_F(x, kw, null), _side(kw))


def r_cvm(x, kw, null):
    return cvm(_F(x, kw, null))


def r_watson(x, kw, null):
    return watson(_F(x, kw, null))


def r_kuiper(x, kw, null):
    return kuiper(_F(x, kw, null))


def r_ad(x, kw, null):
    x = np.sort(x)
    return ad(null.logcdf(x), null.logsf(x))


def r_mt(x, kw, null):
    x = np.sort(x)
    return min_toshiyuki(null.cdf(x), null.sf(x))


def norm_std(x):
    x = np.sort(x)
    return (x - x.mean()) / np.sqrt(((x - x.mean()) ** 2).sum() / (len(x) - 1))


def r_lillie_normal(x, kw, null):
    return ks(st.norm.cdf(norm_std(x)))


def r_ad_normal(x, kw, null):
    z = norm_std(x)
    return ad(st.norm.logcdf(z), st.norm.logsf(z))


def r_za_normal(x, kw, null):
    z = norm_std(x)
    n = len(z)
    lc, ls = st.norm.logcdf(z), st.norm.logsf(z)
    return -32 - 10 * sum(lc[i - 1] / (n - i + .5) + ls[i - 1] / (i - .5) for i in range(1, n + 1))  # the published scaling 10 Z_A - 32


def r_zc_normal(x, kw, null):
    z = norm_std(x)
    n = len(z)
    lc, ls = st.norm.logcdf(z), st.norm.logsf(z)
    return sum((ls[i - 1] - lc[i - 1] - np.log((n - .5) / (i - .75) - 1)) ** 2 for i in range(1, n + 1))


def r_lillie_gamma(x, kw, null):
    m, v = x.mean(), x.var(ddof=1)
    return ks(st.gamma.cdf(np.sort(x), m * m / v, scale=v / m))


def r_ad_weibull(x, kw, null):
    y = np.sort(np.log(x))
    loc, s = gumbel_min_mle(y)
    d = st.gumbel_l(loc, s)
    return ad(d.logcdf(y), d.logsf(y))


def r_zhang_uniform(x, kw, null):
    return {"A": za, "C": zc, "K": zk}[kw.get("test_type", "A").upper()](_F(x, kw, null))


def r_za_student(x, kw, null):
    return za(np.clip(_F(x, kw, null), 1e-10, 1 - 1e-10))


def r_zc_student(x, kw, null):
    return zc(np.clip(_F(x, kw, null), 1e-10, 1 - 1e-10))


def r_ls_weibull(x, kw, null):
    x = np.sort(x)
    return min_toshiyuki(null.cdf(x), null.sf(x), 1e-10)


REFS = {
    "KolmogorovSmirnovNormalityGofStatistic": r_ks, "CramerVonMiseNormalityGofStatistic": r_cvm,
    "LillieforsNormalityGofStatistic": r_lillie_normal, "AndersonDarlingNormalityGofStatistic": r_ad_normal,
    "ZhangWuANormalityGofStatistic": r_za_normal, "ZhangWuCNormalityGofStatistic": r_zc_normal,
    "KolmogorovSmirnovLogNormalGofStatistic": r_ks, "CramerVonMiseLogNormalGofStatistic": r_cvm,
    "KolmogorovSmirnovExponentialityGofStatistic": r_ks, "CramerVonMisesExponentialityGofStatistic": r_cvm,
    "KolmogorovSmirnovWeibullGofStatistic": r_ks, "CrammerVonMisesWeibullGofStatistic": r_cvm, "WatsonWeibullGofStatistic": r_watson,
    "LillieforsWeibullGofStatistic": r_ks, "MinToshiyukiWeibullGofStatistic": r_mt, "LiaoShimokawaWeibullGofStatistic": r_ls_weibull,
    "AndersonDarlingWeibullGofStatistic": r_ad_weibull,
    "KolmogorovSmirnovUniformGofStatistic": r_ks, "AndersonDarlingUniformGofStatistic": r_ad, "CrammerVonMisesUniformGofStatistic": r_cvm,
    "LillieforsTestUniformGofStatistic": r_ks, "WatsonUniformGofStatistic": r_watson, "KuiperUniformGofStatistic": r_kuiper,
    "ZhangTestsUniformGofStatistic": r_zhang_uniform,
    "KolmogorovSmirnovStudentGofStatistic": r_ks, "AndersonDarlingStudentGofStatistic": r_ad, "CramerVonMisesStudentGofStatistic": r_cvm,
    "KuiperStudentGofStatistic": r_kuiper, "WatsonStudentGofStatistic": r_watson, "ZhangZcStudentGofStatistic": r_zc_student,
    "ZhangZaStudentGofStatistic": r_za_student, "LillieforsStudentGofStatistic": r_ks,
    "KolmogorovSmirnovGammaGofStatistic": r_ks, "LillieforsGammaGofStatistic": r_lillie_gamma, "AndersonDarlingGammaGofStatistic": r_ad,
    "CramerVonMisesGammaGofStatistic": r_cvm, "WatsonGammaGofStatistic": r_watson, "KuiperGammaGofStatistic": r_kuiper,
    "MinToshiyukiGammaGofStatistic": r_mt,
    "KolmogorovSmirnovBetaGofStatistic": r_ks, "AndersonDarlingBetaGofStatistic": r_ad, "CrammerVonMisesBetaGofStatistic": r_cvm,
    "LillieforsTestBetaGofStatistic": r_ks, "WatsonBetaGofStatistic": r_watson, "KuiperBetaGofStatistic": r_kuiper,
}
TOL = {"LiaoShimokawaWeibullGofStatistic": (1e-5, 1e-7), "AndersonDarlingWeibullGofStatistic": (1e-5, 1e-6)}
