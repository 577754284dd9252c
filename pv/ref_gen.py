"""Independent cdfs of the 21 generated distributions, in the project's documented parameterisation (no scipy.stats)."""
import numpy as np
from scipy import special as sp


def lu(r, lo, hi):
    return float(np.exp(r.uniform(np.log(lo), np.log(hi))))


def un(r, lo, hi):
    return float(r.uniform(lo, hi))


def _norm(x, m, s):
    return sp.ndtr((x - m) / s)


def _truncnorm(x, mean, var, a, b):
    s = np.sqrt(var)
    al, be, z = (a - mean) / s, (b - mean) / s, (np.asarray(x, float) - mean) / s
    flip = al > 0
    if flip:
        al, be, z = -be, -al, -z
    la, lb, lz = sp.log_ndtr(al), sp.log_ndtr(be), sp.log_ndtr(z)
    num = np.exp(lz - lb) - np.exp(la - lb)
    u = num / -np.expm1(la - lb)
    return 1 - u if flip else u


def _invgauss(x, mu, lam):
    x = np.asarray(x, float)
    with np.errstate(all="ignore"):
        r = np.sqrt(lam / x)
        u = sp.ndtr(r * (x / mu - 1)) + np.exp(2 * lam / mu + sp.log_ndtr(-r * (x / mu + 1)))
    return np.where(x <= 0, 0.0, u)


def tukey_q(u, lam):
    return np.log(u / (1 - u)) if lam == 0 else (u ** lam - (1 - u) ** lam) / lam


def _tukey(x, lam):
    x = np.asarray(x, float)
    lo, hi = np.zeros_like(x), np.ones_like(x)
    for _ in range(60):
        m = (lo + hi) / 2
        with np.errstate(all="ignore"):
            up = tukey_q(m, lam) < x
        lo, hi = np.where(up, m, lo), np.where(up, hi, m)
    return (lo + hi) / 2


def _rice(x, nu, sigma):
    return sp.chndtr((np.asarray(x, float) / sigma) ** 2, 2, (nu / sigma) ** 2)


def _pos(f):
    def g(x, *a, **k):
        x = np.asarray(x, float)
        return np.where(x <= 0, 0.0, f(np.maximum(x, 0), *a, **k))
    return g


def _exponweib(x, a, k):
    with np.errstate(all="ignore"):
        return np.exp(a * np.log(-np.expm1(-np.asarray(x, float) ** k)))


INF = float("inf")
# name: (generator class, cdf, support(params), random parameters, fixed parameter sets, core (module, function, rename))
SPEC = {
    "BETA": ("BetaRVSGenerator", lambda x, a, b: sp.betainc(a, b, np.clip(x, 0, 1)), lambda a, b: (0, 1),
             lambda r: dict(a=lu(r, .2, 60), b=lu(r, .2, 60)), [dict(a=1, b=1), dict(a=.5, b=.5), dict(a=2, b=7), dict(a=200, b=3)]),
    "CAUCHY": ("CauchyRVSGenerator", lambda x, t, s: .5 + np.arctan((x - t) / s) / np.pi, lambda t, s: (-INF, INF),
               lambda r: dict(t=un(r, -50, 50), s=lu(r, .01, 100)), [dict(t=0, s=1), dict(t=.5, s=.5), dict(t=-3, s=20)]),
    "LAPLACE": ("LaplaceRVSGenerator", lambda x, t, s: np.where(x < t, .5 * np.exp(-np.abs(x - t) / s), 1 - .5 * np.exp(-np.abs(x - t) / s)),
                lambda t, s: (-INF, INF), lambda r: dict(t=un(r, -50, 50), s=lu(r, .01, 100)), [dict(t=0, s=1), dict(t=4, s=.2)]),
    "LOGISTIC": ("LogisticRVSGenerator", lambda x, t, s: sp.expit((x - t) / s), lambda t, s: (-INF, INF),
                 lambda r: dict(t=un(r, -50, 50), s=lu(r, .01, 100)), [dict(t=0, s=1), dict(t=-2, s=5)]),
    "STUDENT": ("TRVSGenerator", lambda x, df, loc=0, scale=1: sp.stdtr(df, (x - loc) / scale), lambda df, loc=0, scale=1: (-INF, INF),
                lambda r: dict(df=lu(r, .6, 200)) if r.random() < .5 else dict(df=lu(r, .6, 200), loc=un(r, -5, 5), scale=lu(r, .1, 10)),
                [dict(df=1), dict(df=2), dict(df=30), dict(df=4, loc=3), dict(df=4, scale=2.5), dict(df=7, loc=-1, scale=.3)]),
    "TUKEY": ("TukeyRVSGenerator", _tukey, lambda lam: (-1 / lam, 1 / lam) if lam > 0 else (-INF, INF),
              lambda r: dict(lam=un(r, -1.5, 4)), [dict(lam=2), dict(lam=0), dict(lam=1), dict(lam=.14), dict(lam=-.5)]),
    "LOG_NORMAL": ("LognormGenerator", lambda x, s=1, mu=0, scale=None: _pos(lambda y: sp.ndtr((np.log(np.maximum(y, 1e-320)) - (mu if scale is None else np.log(scale))) / s))(x),
                   lambda **k: (0, INF), lambda r: dict(s=lu(r, .05, 4), mu=un(r, -20, 20)),
                   [dict(s=1, mu=0), dict(s=.3, mu=5), dict(s=2, mu=-3), dict(s=.5, scale=1), dict(s=1.5, scale=7.0), dict(s=1, scale=.01)]),
    "GAMMA": ("GammaGenerator", lambda x, alfa, beta: sp.gammainc(alfa, np.maximum(x, 0) * beta), lambda **k: (0, INF),
              lambda r: dict(alfa=lu(r, .2, 200), beta=lu(r, .01, 100)), [dict(alfa=1, beta=1), dict(alfa=2, beta=5), dict(alfa=.5, beta=.1), dict(alfa=100, beta=20)]),
    "TRUNC_NORMAL": ("TruncnormGenerator", _truncnorm, lambda mean, var, a, b: (a, b),
                     lambda r: (lambda m, s, lo, w: dict(mean=m, var=s * s, a=m + s * lo, b=m + s * (lo + w)))(un(r, -20, 20), lu(r, .1, 20), un(r, -4, 3), un(r, .3, 6)),
                     [dict(mean=0, var=1, a=-10, b=10), dict(mean=1, var=4, a=0, b=2), dict(mean=5, var=.25, a=-10, b=5), dict(mean=-3, var=9, a=0, b=10),
                      dict(mean=0, var=1, a=3, b=6), dict(mean=2, var=100, a=1, b=3)]),
    "CHI_2": ("Chi2Generator", lambda x, df: sp.gammainc(df / 2, np.maximum(x, 0) / 2), lambda df: (0, INF),
              lambda r: dict(df=lu(r, .4, 300)), [dict(df=1), dict(df=2), dict(df=3.5), dict(df=100)]),
    "GUMBEL": ("GumbelGenerator", lambda x, mu, beta: np.exp(-np.exp(-(x - mu) / beta)), lambda **k: (-INF, INF),
               lambda r: dict(mu=un(r, -50, 50), beta=lu(r, .01, 100)), [dict(mu=0, beta=1), dict(mu=-4, beta=3), dict(mu=10, beta=.1)]),
    "WEIBULL": ("WeibullGenerator", _pos(_exponweib), lambda **k: (0, INF),
                lambda r: dict(a=lu(r, .2, 20), k=lu(r, .3, 20)), [dict(a=1, k=5), dict(a=1, k=1), dict(a=1, k=.5), dict(a=2, k=3), dict(a=.5, k=1.5)]),
    "LO_CON_NORMAL": ("LoConNormGenerator", lambda x, p, a: p * _norm(x, a, 1) + (1 - p) * _norm(x, 0, 1), lambda **k: (-INF, INF),
                      lambda r: dict(p=un(r, .05, .95), a=un(r, -12, 12)), [dict(p=.5, a=0), dict(p=.1, a=5), dict(p=.9, a=-3), dict(p=0, a=50), dict(p=1, a=50)]),
    "SCALE_CON_NORMAL": ("ScConNormGenerator", lambda x, p, b: p * _norm(x, 0, b) + (1 - p) * _norm(x, 0, 1), lambda **k: (-INF, INF),
                         lambda r: dict(p=un(r, .05, .95), b=lu(r, .1, 20)), [dict(p=.5, b=1), dict(p=.2, b=10), dict(p=.8, b=.2), dict(p=0, b=9), dict(p=1, b=9)]),
    "MIX_CON_NORMAL": ("MixConNormGenerator", lambda x, p, a, b: p * _norm(x, a, b) + (1 - p) * _norm(x, 0, 1), lambda **k: (-INF, INF),
                       lambda r: dict(p=un(r, .05, .95), a=un(r, -12, 12), b=lu(r, .1, 20)),
                       [dict(p=.5, a=0, b=1), dict(p=.2, a=3, b=4), dict(p=.7, a=-6, b=.5), dict(p=0, a=9, b=3), dict(p=1, a=9, b=3)]),
    "EXPONENTIAL": ("ExponentialGenerator", lambda x, lam: -np.expm1(-np.maximum(x, 0) * lam), lambda lam: (0, INF),
                    lambda r: dict(lam=lu(r, .001, 1000)), [dict(lam=.5), dict(lam=1), dict(lam=4), dict(lam=1e-6)]),
    "INV_GAUSS": ("InvGaussGenerator", _invgauss, lambda **k: (0, INF),
                  lambda r: dict(mu=lu(r, .1, 50), lam=lu(r, .1, 50)), [dict(mu=1, lam=1), dict(mu=2, lam=3), dict(mu=5, lam=.5), dict(mu=.5, lam=20)]),
    "RICE": ("RiceGenerator", _rice, lambda **k: (0, INF), lambda r: dict(nu=un(r, 0, 20), sigma=lu(r, .2, 20)),
             [dict(nu=0, sigma=1), dict(nu=2, sigma=3), dict(nu=5, sigma=.5), dict(nu=0, sigma=7)]),
    "GOMPERTZ": ("GompertzGenerator", lambda x, eta, b: -np.expm1(-eta * np.expm1(np.maximum(x, 0) / b)), lambda **k: (0, INF),
                 lambda r: dict(eta=lu(r, .05, 20), b=lu(r, .05, 50)), [dict(eta=1, b=1), dict(eta=2, b=3), dict(eta=.2, b=10)]),
    "NORMAL": ("NormalGenerator", lambda x, mean, var: _norm(x, mean, np.sqrt(var)), lambda **k: (-INF, INF),
               lambda r: dict(mean=un(r, -100, 100), var=lu(r, 1e-4, 1e4)), [dict(mean=0, var=1), dict(mean=3, var=16), dict(mean=-1e6, var=.01)]),
    "UNIFORM": ("UniformGenerator", lambda x, a, b: np.clip((x - a) / (b - a), 0, 1), lambda a, b: (a, b),
                lambda r: (lambda lo, w: dict(a=lo, b=lo + w))(un(r, -50, 50), lu(r, .01, 100)), [dict(a=0, b=1), dict(a=2, b=7), dict(a=-3, b=-1)]),
}
# documented defaults of the generator constructors (distributions whose constructor has none are absent)
DEFAULTS = {"BETA": dict(a=1, b=1), "LOG_NORMAL": dict(s=1, mu=0), "GAMMA": dict(alfa=1, beta=1), "TRUNC_NORMAL": dict(mean=0, var=1, a=-10, b=10),
            "CHI_2": dict(df=2), "GUMBEL": dict(mu=0, beta=1), "WEIBULL": dict(a=1, k=5), "LO_CON_NORMAL": dict(p=.5, a=0),
            "SCALE_CON_NORMAL": dict(p=.5, b=1), "MIX_CON_NORMAL": dict(p=.5, a=0, b=1), "EXPONENTIAL": dict(lam=.5), "RICE": dict(nu=0, sigma=1),
            "NORMAL": dict(mean=0, var=1), "UNIFORM": dict(a=0, b=1), "INV_GAUSS": dict(mu=1, lam=1), "GOMPERTZ": dict(eta=1, b=1)}
SLOW = {"LO_CON_NORMAL", "SCALE_CON_NORMAL", "MIX_CON_NORMAL"}
CORE = {"BETA": ("beta", "generate_beta"), "CAUCHY": ("cauchy", "generate_cauchy"), "LAPLACE": ("laplace", "generate_laplace"),
        "LOGISTIC": ("logistic", "generate_logistic"), "STUDENT": ("student", "generate_t"), "TUKEY": ("tukey", "generate_tukey"),
        "LOG_NORMAL": ("lognormal", "generate_lognorm"), "GAMMA": ("gamma", "generate_gamma"), "TRUNC_NORMAL": ("truncnormal", "generate_truncnorm"),
        "CHI_2": ("chi2", "generate_chi2"), "GUMBEL": ("gumbel", "generate_gumbel"), "WEIBULL": ("weibull", "generate_weibull"),
        "LO_CON_NORMAL": ("lo_con_norm", "generate_lo_con_norm"), "SCALE_CON_NORMAL": ("scale_con_norm", "generate_scale_con_norm"),
        "MIX_CON_NORMAL": ("mix_con_norm", "generate_mix_con_norm"), "EXPONENTIAL": ("expon", "generate_expon"),
        "INV_GAUSS": ("invgauss", "generate_invgauss"), "RICE": ("rice", "generate_rice"), "GOMPERTZ": ("gompertz", "generate_gompertz"),
        "NORMAL": ("norm", "generate_norm"), "UNIFORM": ("uniform", "generate_uniform")}


def cls_of(name):
    import pysatl_criterion.generator.generators as g
    return getattr(g, SPEC[name][0])


def uniformity(u, alpha=1e-10):
    """p-values below alpha of four tests that u is an i.i.d. uniform sample: [(test, p, statistic)]."""
    from scipy.special import kolmogorov
    u = np.asarray(u, float)
    n = len(u)
    out = []
    s = np.sort(u)
    i = np.arange(1, n + 1)
    D = max(np.max(i / n - s), np.max(s - (i - 1) / n))
    if n >= 20:
        p = float(kolmogorov(D * (np.sqrt(n) + .12 + .11 / np.sqrt(n))))
        out.append(("ks", p, float(D)))
    z = sp.ndtri(np.clip(u, 1e-15, 1 - 1e-15))
    if n >= 200:
        m, q = float(np.mean(z)), float(np.sum(z * z))
        out.append(("score-mean", float(2 * sp.ndtr(-abs(m) * np.sqrt(n))), m))
        out.append(("score-square", float(2 * min(sp.gammainc(n / 2, q / 2), sp.gammaincc(n / 2, q / 2))), q / n))
    if n >= 50000:
        h = float(np.mean(z ** 3 - 3 * z))
        out.append(("score-third", float(2 * sp.ndtr(-abs(h) * np.sqrt(n / 6) * .75)), h))
    for q in (1e-3, 1e-2):
        if n * q >= 5:
            for tag, c in (("low", int(np.sum(u < q))), ("high", int(np.sum(u > 1 - q)))):
                p = 2 * min(sp.bdtr(c, n, q), sp.bdtrc(c - 1, n, q) if c else 1.0)
                out.append((f"tail-{tag}-{q}", float(p), c))
    if n >= 500:
        for lag in (1, 2, 3):
            c = float(np.mean(z[:-lag] * z[lag:]))
            out.append((f"lag-{lag}", float(2 * sp.ndtr(-abs(c) * np.sqrt(n - lag))), c))
    return [o for o in out if o[1] < alpha], len(out)
