"""C31: maximised likelihoods against independently computed maxima, on generated samples."""
import math
import numpy as np
import scipy.optimize as so
import scipy.special as sp
import scipy.stats as st
from pv.core import observe, parallel
RULE = ("20 families x samples of size 2..1500 (3000 thorough; large ones in the unit in which the likelihood is about one) over scales 1e-4..1e4 (1e-9..1e9 up to 40 observations) (integer and floating dtype, permuted, one value moved outside "
        "the support); evaluation = one likelihood value compared with the independently computed maximum, with the likelihood at "
        "random other parameters, with a permuted sample, or required to be zero; non-trivial = non-degenerate sample")
ASSUMPTIONS = ["samples are NumPy arrays (as documented) and not all equal", "chi-squared, t and F are fitted with a free scale, as the project's tests fix",
               "comparison on the log scale, 1e-7 relative (2e-3 absolute for the families fitted by numerical search)"]
P = "likelihood_function_"


def nm(f, starts):
    best = -math.inf
    for s in starts:
        q = so.minimize(lambda p: -f(p), s, method="Nelder-Mead", options=dict(xatol=1e-9, fatol=1e-10, maxiter=6000, maxfev=6000))
        q = so.minimize(lambda p: -f(p), q.x, method="Nelder-Mead", options=dict(xatol=1e-9, fatol=1e-10, maxiter=6000, maxfev=6000))
        best = max(best, -q.fun)
    return best


def gamma_max(x):
    m, s = np.mean(x), math.log(np.mean(x)) - np.mean(np.log(x))
    a = so.brentq(lambda a: math.log(a) - sp.digamma(a) - s, 1e-8, 1e14, xtol=1e-300, rtol=1e-13)
    return float(np.sum(st.gamma.logpdf(x, a, scale=m / a)))


def weibull_max(x):
    l = np.log(x)
    c = l - l.max()

    def g(k):
        w = np.exp(k * c)
        return 1 / k + c.mean() - np.sum(w * c) / np.sum(w)
    k = so.brentq(g, 1e-6, 1e9, xtol=1e-300, rtol=1e-14)
    lam = math.exp(l.max() + math.log(np.mean(np.exp(k * c))) / k)
    return float(np.sum(st.weibull_min.logpdf(x, k, scale=lam))), k


def beta_max(x):
    m1, m2 = np.mean(np.log(x)), np.mean(np.log1p(-x))
    n = len(x)

    def f(p):
        a, b = np.exp(p)
        return n * ((a - 1) * m1 + (b - 1) * m2 - sp.betaln(a, b))
    m, v = x.mean(), x.var()
    c = max(m * (1 - m) / v - 1, .1)
    return nm(f, [np.log([m * c, (1 - m) * c])])


def wigner_max(x):
    M = np.max(np.abs(x))
    h = lambda R: float(np.sum(x ** 2 / (R * R - x ** 2))) - len(x)
    R = so.brentq(h, M * (1 + 1e-13), 2 * M, xtol=1e-300, rtol=1e-14)
    return len(x) * math.log(2 / (math.pi * R * R)) + .5 * float(np.sum(np.log(R * R - x ** 2)))


def cauchy_max(x):
    s0 = math.log(st.iqr(x) / 2 + 1e-9 * np.ptp(x))
    f = lambda p: float(np.sum(st.cauchy.logpdf(x, p[0], math.exp(p[1]))))
    return nm(f, [(np.median(x), s0), (np.mean(np.sort(x)[len(x) // 4:-(len(x) // 4) or None]), s0)])


def laplace_max(x):
    b = np.mean(np.abs(x - np.median(x)))
    return -len(x) * (math.log(2 * b) + 1)


def norm_max(x):
    return -len(x) / 2 * (math.log(2 * math.pi * np.var(x)) + 1)


def pareto_max(x):
    a = len(x) / np.sum(np.log(x / x.min()))
    return float(len(x) * math.log(a) + np.sum(a * np.log(x.min() / x) - np.log(x)))


def xl(a, b):
    return float(sp.xlogy(a, b))


CLOSED = {
    "uniform_continuous": lambda x: -len(x) * math.log(np.ptp(x)),
    "normal": norm_max,
    "lognormal": lambda x: norm_max(np.log(x)) - float(np.sum(np.log(x))),
    "exponential": lambda x: -len(x) * (math.log(np.mean(x)) + 1),
    "weibull": lambda x: weibull_max(x)[0],
    "gamma": gamma_max,
    "beta": beta_max,
    "rayleigh": lambda x: float(np.sum(st.rayleigh.logpdf(x, scale=math.sqrt(np.mean(x ** 2) / 2)))),
    "wigner": wigner_max,
    "pareto": pareto_max,
    "laplace": laplace_max,
    "cauchy": cauchy_max,
    "discrete_uniform": lambda x: -len(x) * math.log(x.max() - x.min() + 1),
    "bernoulli": lambda x: xl(x.sum(), x.mean()) + xl(len(x) - x.sum(), 1 - x.mean()),
    "poisson": lambda x: float(np.sum(sp.xlogy(x, x.mean()) - x.mean() - sp.gammaln(x + 1))),
    "geometric": lambda x: xl(len(x), 1 / x.mean()) + xl(x.sum() - len(x), 1 - 1 / x.mean()),
}
NUMERIC = {"cauchy", "gamma", "beta"}


def data(r, fam, n):
    sc = 10.0 ** (r.integers(-4, 5) if r.random() < .75 or n > 40 else r.integers(-9, 10))
    if fam == "uniform_continuous":
        return r.uniform(-1, 2, n) * sc
    if fam in ("normal", "laplace", "cauchy", "t_distribution"):
        k = int(r.integers(4))
        x = [r.normal(size=n), r.laplace(size=n), r.standard_t(3, n), np.append(r.normal(size=n - 1), 60.)][k]
        return (x + r.normal() * 3) * sc
    if fam == "lognormal":
        return np.exp(r.normal(r.normal() * 3, 10.0 ** r.uniform(-2, .7), n))
    if fam in ("exponential", "gamma", "chi_squared", "fisher", "rayleigh", "pareto", "weibull"):
        k = int(r.integers(4))
        x = [r.gamma(10.0 ** r.uniform(-.3, 1.5), size=n), r.weibull(10.0 ** r.uniform(-.4, .6), n), r.pareto(3, n) + 1,
             np.append(r.exponential(size=n - 1), 300.0)][k]
        return np.maximum(x, 1e-12) * sc
    if fam == "beta":
        return np.clip(r.beta(10.0 ** r.uniform(-.9, 1.8), 10.0 ** r.uniform(-.9, 1.8), n), 1e-9, 1 - 1e-9)
    if fam == "wigner":
        return (r.beta(1.5, 1.5, n) - .5) * sc if r.random() < .7 else r.normal(size=n) * sc
    if fam == "discrete_uniform":
        return (r.integers(-5, int(r.choice([-4, 0, 40, 10 ** 6])), n) + int(r.choice([0, 0, -10 ** 5, 10 ** 9]))).astype(float)
    if fam == "bernoulli":
        return (r.random(n) < (r.random() if r.random() < .6 else [1.5 / n, 1 - 1.5 / n][int(r.integers(2))])).astype(float)
    if fam == "poisson":
        return r.poisson(10.0 ** r.uniform(-2.5, 4), n).astype(float)
    if fam == "geometric":
        return r.geometric(10.0 ** r.uniform(-6, 0) if r.random() < .8 else 1 - min(.5, 1.5 / n), n).astype(float)
    raise KeyError(fam)


def others(r, fam, x, k):
    """Log-likelihoods at random parameter values of the family (any of them is a lower bound of the maximum)."""
    m, s = float(np.mean(x)), float(np.std(x)) or 1.0
    out = []
    for _ in range(k):
        e = lambda w=.5: math.exp(r.normal() * w)
        if fam == "uniform_continuous":
            a, b = x.min() - s * r.random() * .1, x.max() + s * r.random() * .1
            f = st.uniform(a, b - a).logpdf
        elif fam == "normal":
            f = st.norm(m + s * .3 * r.normal(), s * e()).logpdf
        elif fam == "lognormal":
            l = np.log(x)
            f = st.lognorm(max(l.std(), 1e-9) * e(), scale=math.exp(l.mean() + .3 * l.std() * r.normal())).logpdf
        elif fam == "exponential":
            f = st.expon(scale=m * e()).logpdf
        elif fam == "weibull":
            f = st.weibull_min(min(9.9, max(.11, e(1))), scale=m * e()).logpdf
        elif fam in ("gamma", "chi_squared"):
            a = m * m / s / s * e(.3)
            f = st.gamma(a, scale=m / a * e(.2)).logpdf
        elif fam == "beta":
            c = max(m * (1 - m) / s / s - 1, .2)
            f = st.beta(m * c * e(.3), (1 - m) * c * e(.3)).logpdf
        elif fam in ("cauchy", "t_distribution"):
            f = st.cauchy(np.median(x) + s * .2 * r.normal(), (st.iqr(x) or s) * e(.7)).logpdf
        elif fam == "fisher":
            f = st.f(20 * e(), 20 * e(), scale=m * e(.3)).logpdf
        elif fam == "rayleigh":
            f = st.rayleigh(scale=math.sqrt(np.mean(x ** 2) / 2) * e(.3)).logpdf
        elif fam == "wigner":
            f = st.semicircular(scale=np.max(np.abs(x)) * (1 + r.random())).logpdf
        elif fam == "pareto":
            a = len(x) / np.sum(np.log(x / x.min()))
            f = st.pareto(a * e(.4), scale=x.min() * (1 - .1 * r.random())).logpdf
        elif fam == "laplace":
            f = st.laplace(np.median(x) + .2 * s * r.normal(), s * e(.5)).logpdf
        elif fam == "discrete_uniform":
            f = st.randint(int(x.min()) - int(r.integers(3)), int(x.max()) + 1 + int(r.integers(3))).logpmf
        elif fam == "bernoulli":
            f = st.bernoulli(r.random()).logpmf
        elif fam == "poisson":
            f = st.poisson((m or .1) * e(.5)).logpmf
        elif fam == "geometric":
            f = st.geom(min(.999, e(.5) / m)).logpmf
        v = float(np.sum(f(x)))
        if v == v:
            out.append(v)
    return max(out) if out else -math.inf


SCALED = {"uniform_continuous", "normal", "lognormal", "exponential", "weibull", "gamma", "cauchy", "rayleigh", "wigner", "pareto", "laplace",
          "chi_squared", "t_distribution", "fisher"}


def unit(fam, x):
    """The sample in the unit of measurement in which its likelihood is about one: large samples neither under- nor overflow."""
    lv = CLOSED[fam](x) if fam in CLOSED else (max(norm_max(x), cauchy_max(x)) if fam == "t_distribution" else gamma_max(x))
    c = math.exp(lv / len(x)) if math.isfinite(lv) and abs(lv / len(x)) < 300 else 1.0
    y = x * c
    return y if np.all(np.isfinite(y)) and len(set(y.tolist())) == len(set(x.tolist())) else x


def bad_values(fam):
    return {"lognormal": (0.0, -1.0), "exponential": (-1e-9, -5.0), "weibull": (0.0, -2.0), "gamma": (0.0, -2.0), "beta": (0.0, 1.0, 1.5, -.2),
            "chi_squared": (0.0, -2.0), "fisher": (0.0, -1.0), "rayleigh": (-1e-9, -3.0, 0.0), "pareto": (0.0, -1.0), "discrete_uniform": (.5,),
            "bernoulli": (2.0, -1.0, .5), "poisson": (-1.0, .5), "geometric": (0.0, -1.0, 1.5)}.get(fam, ())


def logv(v):
    v = float(v)
    return math.log(v) if v > 0 and v < math.inf else (math.inf if v > 0 else -math.inf)


def agree(v, ref, tol):
    """v: likelihood value returned; ref: log of the true maximum."""
    if ref > 709.5:
        return v == math.inf or (v > 0 and logv(v) > 709 - tol * (1 + ref))
    if ref < -700:
        return 0 <= v and logv(v) < -690
    return v > 0 and abs(logv(v) - ref) <= tol


def outside(ck, fn, fam, x, args, r):
    for b in bad_values(fam) if fam != "binomial" else (-1.0, args[0] + 1.0, .5):
        y = x.copy()
        y[int(r.integers(len(y)))] = b
        p = observe(fn, y, *args, cpu=60)
        ck.ev()
        ck.count("outside-support")
        if p.kind != "ok" or p.value != 0:
            ck.violation(f"{fam}:outside-support", f"sample with {b} gives {p.short()} instead of 0", {"family": fam, "sample": y, "args": args})


def other_fit(fam, x, lv, generic):
    """A fit other than scipy's default: acceptable when it lies between what the default reaches and the best we can find."""
    c, s = float(np.median(x)), float(st.iqr(x) or np.std(x))
    if fam == "t_distribution":
        f = lambda p: float(np.sum(st.t.logpdf(x, math.exp(min(p[0], 12)), p[1], math.exp(p[2]))))
        starts = [(d, m, math.log(s * k)) for d in (-1, 0., 1.5, 8.) for m in (c, np.mean(x)) for k in (.3, 1)]
    elif fam == "fisher":
        f = lambda p: float(np.sum(st.f.logpdf(x, math.exp(min(p[0], 14)), math.exp(min(p[1], 14)), scale=math.exp(p[2]))))
        starts = [(a, b, math.log(c)) for a in (0., 2., 6.) for b in (0., 2., 6.)]
    else:
        return generic - 1e-3 <= lv <= gamma_max(x) + 2e-3
    return generic - 1e-3 <= lv <= nm(f, starts) + 2e-3


def one(ck, task):
    import pysatl_criterion.estimation.maximum_likelihood.function_for_maximum_likelihood as F
    fam, rep = task
    r = ck.rng(fam, rep)
    fn = getattr(F, P + fam, None)
    if fn is None:
        ck.violation(f"{fam}:missing", "likelihood function not found", fam)
        return
    slow = fam in ("cauchy", "chi_squared", "t_distribution", "fisher", "beta")
    for it in range((4 if slow else 12) if not ck.thorough else (30 if slow else 150)):
        n = int(r.choice([2, 3, 5, 10, 40] if slow else [2, 3, 5, 10, 40, 400]))
        large = it == 0 and rep < (2 if not ck.thorough else 4)
        if large:
            n = int(r.choice([150, 450, 600, 1100, 1500] if not ck.thorough else [150, 450, 600, 1100, 1500, 2100, 3000]))
        if fam == "binomial":
            N = int(r.choice([1, 2, 10, 200, 1100, 5000]))
            x = r.binomial(N, [r.random(), min(1.0, float(r.uniform(.5, 4)) / (N * n)), max(0.0, 1 - float(r.uniform(.5, 4)) / (N * n))][it % 3], n).astype(float)
            args = (N,)
            ref = sum(math.log(math.comb(N, int(v))) for v in x) + xl(x.sum(), x.sum() / (n * N)) + xl(n * N - x.sum(), 1 - x.sum() / (n * N))
        else:
            x, args = data(r, fam, n), ()
            ref = None
            if fam in SCALED and np.ptp(x) > 0 and (large or r.random() < .2):
                x = unit(fam, x)
        degenerate = np.ptp(x) == 0
        case = {"family": fam, "sample": x, "args": args}
        x0 = x.copy()
        o = observe(fn, x, *args, cpu=60)
        ck.ev()
        if not np.array_equal(x, x0):
            ck.violation(f"{fam}:mutates", "the sample was modified", case)
            x = x0.copy()
        if o.kind != "ok":
            ck.violation(f"{fam}:raised", o.short(), case)
            continue
        v = o.value
        if not (np.ndim(v) == 0 and float(v) == float(v) and v >= 0):
            ck.violation(f"{fam}:not-a-likelihood", f"{v!r}", case)
            continue
        v = float(v)
        discrete = fam in ("bernoulli", "binomial", "poisson", "geometric", "discrete_uniform")
        if discrete and v > 1 + 1e-9:
            ck.violation(f"{fam}:above-one", f"probability {v!r}", case)
        if degenerate and not discrete and fam not in ("exponential", "rayleigh"):
            ck.count("degenerate")
            continue
        ck.nontrivial(fam, n, float(x[0]), it)
        if fam in ("t_distribution", "fisher", "chi_squared"):
            d, kw = {"t_distribution": (st.t, {}), "fisher": (st.f, dict(floc=0)), "chi_squared": (st.chi2, dict(floc=0))}[fam]
            fit = d.fit(x, **kw)
            generic = float(np.sum(d.logpdf(x, *fit)))
            if agree(v, generic, 1e-6 * (1 + abs(generic))):
                lo = max(norm_max(x), cauchy_max(x)) if fam == "t_distribution" else gamma_max(x)
                lo = max(lo, others(r, fam, x, 5))
                if logv(v) < lo - 2e-3 and lo < 700 and lo > -700:
                    ck.violation(f"{fam}:numerical-fit-stops-below-maximum", f"log-likelihood {logv(v):.6g}, parameters of the family reach {lo:.6g} "
                                 f"(scipy's generic fit stops early)", case)
            elif not other_fit(fam, x, logv(v), generic):
                ck.violation(f"{fam}:not-the-fitted-likelihood", f"log value {logv(v):.9g}, density product at the fit {generic:.9g}", case)
            ck.count("numeric-fits")
            ck.count(fam)
            outside(ck, fn, fam, x, args, r)
            continue
        if fam == "weibull":
            ref, k = weibull_max(x)
            if not .1 <= k <= 10:
                ck.count("weibull-outside")
                if v != 0 and not agree(v, ref, 1e-6 * (1 + abs(ref))):
                    ck.violation("weibull:wrong-outside", f"{v!r}", case)
                elif v == 0 and ref > -700:
                    ck.violation("weibull:shape-outside-0.1-10-gives-zero", f"maximising shape {k:.4g}: value 0, true maximum exp({ref:.6g})", case)
                continue
        elif ref is None:
            ref = CLOSED[fam](x)
        tol = (2e-3 if fam in NUMERIC else 1e-7) + 1e-9 * abs(ref) + (1e-12 * n / max(1e-12, np.std(np.log(x))) if fam in ("pareto", "gamma", "chi_squared") else 0)
        ck.count(fam)
        if not agree(v, ref, tol):
            ck.violation(f"{fam}:value", f"log of the returned value {logv(v):.12g}, log of the maximum {ref:.12g} (n={n})", case)
            continue
        if fam != "binomial":
            lo = others(r, fam, x, 8)
            ck.count("other-parameters", 8)
            if lo > max(logv(v), -700) + tol + 1e-6 and v < math.inf:
                ck.violation(f"{fam}:not-maximal", f"log value {logv(v):.9g} below {lo:.9g} reached at another parameter", case)
        p = observe(fn, r.permutation(x), *args, cpu=60)
        ck.ev()
        ck.count("permuted")
        if p.kind != "ok" or not (agree(p.value, ref, tol)):
            ck.violation(f"{fam}:order", f"permuted sample gives {p.short()}, original {v!r}", case)
        if np.all(x == np.floor(x)) and np.max(np.abs(x)) < 2 ** 53:
            p = observe(fn, x.astype(int), *args, cpu=60)
            ck.ev()
            ck.count("integer-dtype")
            if p.kind != "ok" or not agree(p.value, ref, tol):
                ck.violation(f"{fam}:integer-dtype", f"integer array gives {p.short()}, floating {v!r}", case)
        outside(ck, fn, fam, x, args, r)
        if rep == 0:
            ck.sample(fam, {"sample": x[:8], "n": n, "value": v, "log_max": ref})


def search(ck):
    from pysatl_criterion.estimation.maximum_likelihood import function_for_maximum_likelihood as F
    o = observe(__import__, "pysatl_criterion.estimation.maximum_likelihood.maximum_likelihood", fromlist=["x"])
    if o.kind != "ok":
        ck.violation("search:import", o.short(), None)
        return
    M = o.value
    fams = list(CLOSED) + ["t_distribution", "fisher", "chi_squared"]
    r = ck.rng("search")
    for i in range(12 if not ck.thorough else 120):
        kind = ("uniform_continuous", "exponential", "lognormal", "poisson", "bernoulli", "beta")[i % 6]
        x = data(r, kind, int(r.choice([3, 8, 25])))
        if np.ptp(x) == 0:
            continue
        vals = {f: observe(getattr(F, P + f), x, cpu=60) for f in fams}
        if any(v.kind != "ok" for v in vals.values()):
            ck.violation("search:candidate-raised", str([(f, v.short()) for f, v in vals.items() if v.kind != "ok"][:2]), x)
            continue
        best = max(float(v.value) for v in vals.values())
        for name, arg in (("find_max_probability_function", x), ("find_result_of_likelihood_function", list(map(float, x)))):
            o = observe(getattr(M, name), arg, cpu=120)
            ck.ev()
            ck.count("searches")
            if best == 0:
                continue
            if o.kind != "ok":
                ck.violation(f"search:{name}:raised", o.short(), x)
                continue
            f, v = (o.value, None) if name == "find_max_probability_function" else (o.value if isinstance(o.value, tuple) else (o.value, None))
            got = observe(f, x) if callable(f) else None
            if got is None or got.kind != "ok" or float(got.value) < best * (1 - 1e-9):
                ck.violation(f"search:{name}:not-the-best", f"chose {getattr(f, '__name__', f)!r}, best value {best!r}: " +
                             str({k: float(w.value) for k, w in vals.items()}), x)
            elif v is not None and float(v) != best and not abs(float(v) - best) <= 1e-9 * best:
                ck.violation(f"search:{name}:value", f"{v!r} vs {best!r}", x)
    # close calls: along a path of samples, the two sides of the point where the leading family changes
    fun = {f: getattr(F, P + f) for f in fams}

    def best_of(x, names):
        v = {f: observe(fun[f], x, cpu=60) for f in names}
        v = {f: float(o.value) for f, o in v.items() if o.kind == "ok"}
        return (max(v, key=v.get), max(v.values())) if v else (None, 0.0)
    for i in range(40 if not ck.thorough else 300):
        if ck.counters.get("close-calls", 0) >= (30 if not ck.thorough else 240):
            break
        n = int(r.integers(5, 30))
        kind = i % 4
        z = [r.gamma(r.uniform(.8, 4), 1, n), r.weibull(r.uniform(.7, 3), n), r.exponential(size=n), np.abs(r.normal(0, 1, n))][int(r.integers(4))] + 1e-3
        z2 = [r.normal(4, 1, n), r.uniform(1, 2, n), r.pareto(2, n) + 1, np.exp(r.normal(0, .7, n))][int(r.integers(4))]
        z2 = np.abs(z2) + 1e-3
        path = (lambda t: np.abs(z) ** t) if kind == 0 else (lambda t: z * (2.3 - t) + z2 * t) if kind == 1 else (lambda t: np.sort(z) * (2.3 - t) + np.sort(z2) * t) if kind == 2 else \
            (lambda t: (z - .9 * z.min()) + t * z.mean())
        ts = np.linspace(.3, 2.2, 9)
        lead = [best_of(path(t), fams)[0] for t in ts]
        for (t0, a), (t1, b) in zip(zip(ts, lead), zip(ts[1:], lead[1:])):
            if a == b or None in (a, b):
                continue
            for _ in range(40):
                m = (t0 + t1) / 2
                t0, t1 = (m, t1) if best_of(path(m), (a, b))[0] == a else (t0, m)
            for d in (-3e-3, -1e-4, -1e-6, 1e-6, 1e-4, 3e-3):
                x = path(t0 + d)
                w, best = best_of(x, fams)
                o = observe(M.find_result_of_likelihood_function, list(map(float, x)), cpu=120)
                ck.ev()
                ck.count("close-calls")
                if best <= 0:
                    continue
                ok = o.kind == "ok" and callable(o.value[0]) and best_of(x, [o.value[0].__name__[len(P):]])[1] >= best * (1 - 1e-9) and abs(float(o.value[1]) - best) <= 1e-9 * best
                if not ok:
                    ck.violation("search:close-call", f"{o.short()}, but {w} reaches {best!r}", {"sample": x})
                else:
                    ck.nontrivial("close", w, n, float(x[0]))
    ck.need("close-calls", 12)
    # histories: the answer for a sample must not depend on the samples searched before (same size, sum, extremes, or even the same array object)
    for i in range(4 if not ck.thorough else 40):
        n = int(r.choice([6, 8, 12]))
        a = r.integers(1, 30, n).astype(float)
        a[0], a[1] = 1.0, 29.0
        b = a.copy()
        k = n // 2
        b[2:] = r.permutation(np.concatenate([[a[2:].sum() - 15.0 * (n - 3)], np.full(n - 3, 15.0)])) if i % 2 else a[2:]
        if i % 2 == 0:
            b[2:4] += [40.5, -40.5]
        arr = a.copy()
        for step, y in enumerate((a, b, a, b)):
            arr[:] = y
            vals = {f: observe(getattr(F, P + f), y.copy(), cpu=60) for f in fams}
            best = max((float(v.value) for v in vals.values() if v.kind == "ok"), default=0)
            o = observe(M.find_max_probability_function, arr, cpu=120)
            o2 = observe(M.find_result_of_likelihood_function, list(map(float, arr)), cpu=120)
            ck.ev(2)
            ck.count("history-searches", 2)
            if best <= 0 or any(v.kind != "ok" for v in vals.values()):
                continue
            for name, w, f in (("find_max_probability_function", o, o.value), ("find_result_of_likelihood_function", o2, o2.value[0] if o2.kind == "ok" else None)):
                got = observe(f, y.copy(), cpu=60) if w.kind == "ok" and callable(f) else None
                if got is None or got.kind != "ok" or float(got.value) < best * (1 - 1e-9) or (w is o2 and abs(float(w.value[1]) - best) > 1e-9 * best):
                    ck.violation(f"search:{name}:history", f"step {step}: {w.short()}, best value {best!r}", {"first": a, "second": b, "step": step})
    ck.need("history-searches", 16)
    for bad, exc in (([], ValueError), (["a", "b"], TypeError)):
        ck.ev()
        o = observe(M.find_result_of_likelihood_function, bad)
        if o.kind != "exc" or not isinstance(o.exc, exc):
            ck.violation("search:bad-data", f"{bad!r} gave {o.short()}", bad)


def run(ck):
    fams = list(CLOSED) + ["t_distribution", "fisher", "chi_squared", "binomial"]
    reps = 4
    parallel(ck, [(f, i) for i in range(reps) for f in fams], one)
    search(ck)
    for f in fams:
        ck.need(f, 8)
    for c in ("permuted", "outside-support", "integer-dtype"):
        ck.need(c, 100)
    ck.need("searches", 10)
