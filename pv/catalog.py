"""What the checks know about the criteria: null distributions (scipy, independent of the code under test), constructor
options, minimum sample sizes, nuisance parameters.  Classes are found by walking the subclasses of the public base."""
import inspect
import numpy as np
import scipy.stats as st

import pysatl_criterion.statistics.goodness_of_fit  # noqa: F401  (registers the classes)
from pysatl_criterion.statistics.alternative import AlternativeType as AT
from pysatl_criterion.statistics.statistic import AbstractGoodnessOfFitStatistic

# classes expected to exist with their public names (a vanished class is an observation of its own)
FAMILIES = ("normal", "exponent", "weibull", "uniform", "student", "gamma", "beta", "log_normal")


def classes():
    out = {}

    def walk(c):
        for s in c.__subclasses__():
            if not inspect.isabstract(s) and s.__module__.startswith("pysatl_criterion."):
                out[s.__name__] = s
            walk(s)
    walk(AbstractGoodnessOfFitStatistic)
    return dict(sorted(out.items()))


def family(cls):
    return {"normal": "normal", "exponential": "exponent", "weibull": "weibull", "uniform": "uniform", "student": "student",
            "gamma": "gamma", "beta": "beta", "log_normal": "log_normal", "lognormal": "log_normal",
            "students": "student", "t": "student"}[DIST[cls.distribution().name]]


DIST = {"NORMAL": "normal", "EXPONENTIAL": "exponential", "WEIBULL": "weibull", "UNIFORM": "uniform", "STUDENT": "student",
        "STUDENTS": "student", "STUDENT_T": "student", "GAMMA": "gamma", "BETA": "beta", "LOGNORMAL": "lognormal", "LOG_NORMAL": "lognormal"}

# constructor parameters of the null per family: the default first, then others (all valid)
PARAMS = {
    "normal": [dict(mean=0, var=1), dict(mean=5.0, var=4.0), dict(mean=-3.0, var=0.25), dict(mean=100, var=9)],
    "exponent": [dict(lam=1), dict(lam=0.2), dict(lam=7.5)],
    "weibull": [dict(a=1, k=1), dict(a=1, k=2.5), dict(a=2.0, k=1.5), dict(a=0.7, k=0.8)],
    "uniform": [dict(a=0, b=1), dict(a=-3, b=5), dict(a=10.0, b=10.5), dict(a=-100.0, b=-98.0)],
    "student": [dict(df=1, loc=0, scale=1), dict(df=4, loc=0, scale=1), dict(df=3.5, loc=2.0, scale=3.0), dict(df=30, loc=-7.0, scale=0.5)],
    "gamma": [dict(alpha=1.0, beta=1.0), dict(alpha=3.0, beta=0.5), dict(alpha=0.6, beta=4.0), dict(alpha=12.0, beta=2.0)],
    "beta": [dict(alpha=1, beta=1), dict(alpha=2.0, beta=5.0), dict(alpha=0.7, beta=0.6), dict(alpha=4, beta=1.5)],
    "log_normal": [dict(s=1, scale=1), dict(s=0.5, scale=3.0), dict(s=2.0, scale=0.2)],
}


def weibull(a, k):
    """SciPy's exponentiated Weibull, with the survival function computed without cancellation (SciPy's loses all digits in the far tail)."""
    d = st.exponweib(a, k)

    def logcdf(x):
        with np.errstate(all="ignore"):
            t = np.asarray(x, float) ** k
            return a * np.where(t > .5, np.log1p(-np.exp(-t)), np.log(-np.expm1(-t)))
    d.sf = lambda x: np.where(np.asarray(x) <= 0, 1.0, -np.expm1(logcdf(np.maximum(x, 0))))[()]
    return d


def null(fam, p):
    """The declared null distribution as a frozen scipy distribution."""
    if fam == "normal":
        return st.norm(p.get("mean", 0), np.sqrt(p.get("var", 1)))
    if fam == "exponent":
        return st.expon(scale=1 / p.get("lam", 1))
    if fam == "weibull":
        return weibull(p.get("a", 1), p.get("k", 1))
    if fam == "uniform":
        return st.uniform(p.get("a", 0), p.get("b", 1) - p.get("a", 0))
    if fam == "student":
        return st.t(p.get("df", 1), p.get("loc", 0), p.get("scale", 1))
    if fam == "gamma":
        return st.gamma(p.get("alpha", 1.0), scale=1 / p.get("beta", 1.0))
    if fam == "beta":
        return st.beta(p.get("alpha", 1), p.get("beta", 1))
    return st.lognorm(p.get("s", 1), scale=p.get("scale", 1))


SMALL_N = {  # minimum admissible sample sizes above the default of 4
    "Hosking2NormalityGofStatistic": 6, "Hosking3NormalityGofStatistic": 8, "Hosking4NormalityGofStatistic": 10,
    "ZhangQNormalityGofStatistic": 8, "ZhangQStarNormalityGofStatistic": 8, "DoornikHansenNormalityGofStatistic": 8,
    "SkewNormalityGofStatistic": 8, "DAPNormalityGofStatistic": 8, "KurtosisNormalityGofStatistic": 5,
    "Chi2PearsonUniformGofStatistic": 5,
}


def nmin(name):
    key = name.replace("LogNormal", "Normality")
    return SMALL_N.get(name, SMALL_N.get(key, 4))


def nmax(name):
    if name.startswith("Rossberg"):
        return 16
    if name.startswith(("Ahsanullah", "HollanderProshan")):
        return 24
    return 10 ** 6


SIMPLE = {  # criteria of a fully specified null in the families that also have composite ones
    "normal": ("KolmogorovSmirnov", "CramerVonMise"),
    "log_normal": ("KolmogorovSmirnov", "CramerVonMise", "QuesenberryMiller", "KLSupremum", "KLIntegral"),
    "exponent": ("KolmogorovSmirnov", "CramerVonMises", "HegazyGreen"),
    "weibull": ("KolmogorovSmirnov", "CrammerVonMises", "Lilliefors", "Watson", "MinToshiyuki", "LiaoShimokawa", "MahdiDoostparast",
                "Chi2Pearson", "KullbackLeibler"),
}


def composite(name, fam):
    if name.startswith("Graph"):
        return None
    if fam in SIMPLE:
        return not name.startswith(SIMPLE[fam])
    return name == "LillieforsGammaGofStatistic"


def variants(name, fam):
    """Constructor keyword arguments to exercise: null parameters crossed with the options of the class."""
    base = PARAMS[fam]
    if name == "ModeBetaGofStatistic":
        base = [dict(alpha=2, beta=2), dict(alpha=2.5, beta=4.0), dict(alpha=6.0, beta=1.5)]
    if name == "LillieforsStudentGofStatistic":
        base = [dict(df=1), dict(df=4), dict(df=12.5)]
    if name.startswith("RyanJoiner") and fam == "normal":
        return [dict(weighted=w, cte_alpha=c) for w in (False, True) for c in ("3/8", "1/2", "0")]
    if name.startswith("KullbackLeiblerWeibull"):
        base = base[:2]
    opts = [{}]
    if name.startswith("KolmogorovSmirnov"):
        opts = [dict(alternative_type=t) for t in (AT.TWO_TAILED, AT.RIGHT, AT.LEFT)]
    elif name == "Chi2PearsonUniformGofStatistic":
        opts = [{}, dict(bins="sqrt"), dict(bins="auto"), dict(bins=7), dict(lambda_=0), dict(lambda_=2 / 3, bins=4)]
    elif name == "Chi2PearsonBetaGofStatistic":
        opts = [{}, dict(lambda_=0), dict(lambda_=2 / 3), dict(lambda_=2)]
    elif name == "BickelRosenblattUniformGofStatistic":
        opts = [{}, dict(bandwidth=0.1), dict(bandwidth=0.35)]
    elif name == "ZhangTestsUniformGofStatistic":
        opts = [dict(test_type=t) for t in "ACK"]
    elif name == "NeymanSmoothTestUniformGofStatistic":
        opts = [{}, dict(k=1), dict(k=2), dict(k=3), dict(k=6)]
    elif name == "ChiSquareStudentGofStatistic":
        opts = [{}, dict(n_bins=4), dict(n_bins=17)]
    elif name in ("Chi2PearsonGammaGofStatistic", "LikelihoodRatioGammaGofStatistic"):
        opts = [{}, dict(bins=3), dict(bins=15)]
    elif name == "CressieReadGammaGofStatistic":
        opts = [{}, dict(power=1.0, bins=5), dict(power=0.0), dict(power=-1.0, bins=3), dict(power=-0.5, bins=3), dict(power=2.0)]
    out = []
    for i, o in enumerate(opts):
        for j, p in enumerate(base):
            out.append({**p, **o})
    return out


def short(name):
    return name.replace("GofStatistic", "").replace("GoFStatistic", "")


# --- samples ---------------------------------------------------------------------------------------------------------
def alt_sample(fam, kw, n, rng, kind):
    """A sample inside the support of the null, not from the null: same support, different shape."""
    d = null(fam, kw)
    u = rng.uniform(size=n)
    if kind == "low":
        u = u ** 3
    elif kind == "high":
        u = 1 - u ** 3
    elif kind == "mid":
        u = 0.5 + (rng.uniform(-1, 1, n) * 0.5) ** 3 * 2
    elif kind == "edge":
        u = rng.beta(0.4, 0.4, n)
    elif kind == "narrow":
        u = 0.3 + 0.2 * u
    u = np.clip(u, 1e-9, 1 - 1e-9)
    return d.ppf(u)


def sample(fam, kw, n, rng, kind="null"):
    d = null(fam, kw)
    if kind == "null":
        x = d.rvs(size=n, random_state=rng)
    else:
        x = alt_sample(fam, kw, n, rng, kind)
    lo, hi = d.support()
    x = np.asarray(x, float)
    if np.isfinite(lo):
        x = np.maximum(x, np.nextafter(lo, np.inf) if lo != 0 else 1e-300 if fam == "log_normal" else min(1e-12, 1e-12 * float(d.median())) if not np.isfinite(hi) else 1e-12)
    if np.isfinite(hi):
        x = np.minimum(x, np.nextafter(hi, -np.inf) if hi != 1 else 1 - 1e-12)
    return x


KINDS = ("null", "low", "high", "mid", "edge", "narrow")
