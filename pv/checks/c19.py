"""C19: the distribution helpers are watched over grids reaching deep into the tails and compared with independent formulas."""
import math
from fractions import Fraction
import numpy as np
from scipy import special as sp
from pv.core import observe
RULE = ("cdf_norm, pdf_norm, cdf_expon, generate_weibull_cdf/logcdf/logsf on grids from deep tails to the centre, scalars/lists/arrays, random "
        "and extreme parameters, against math.erfc / expm1 / log1p formulas, monotonicity, limits, density integral and mutual consistency; "
        "sample.moment / central_moment against exact rational arithmetic for orders 0..12, 1-D and 2-D samples; evaluation = one judged value "
        "array; non-trivial = one (function, parameters, grid) or (sample, order)")
ASSUMPTIONS = ["math.erfc, expm1, log1p are accurate"]


def lu(r, lo, hi):
    return float(np.exp(r.uniform(np.log(lo), np.log(hi))))


def phi(x, mean, var):
    return .5 * math.erfc(-(x - mean) / math.sqrt(2 * var))


def npdf(x, mean, var):
    z2 = (x - mean) ** 2 / var / 2
    return math.exp(-z2) / math.sqrt(2 * math.pi * var)


def ecdf(x, lam):
    return 0.0 if x <= 0 else -math.expm1(-lam * x)


def w_logbase(x, k):
    """log(1 - exp(-x^k))"""
    lz = k * math.log(x)
    if lz < -600:
        return lz
    z = math.exp(min(lz, 700))
    return math.log(-math.expm1(-z)) if z < .6 else math.log1p(-math.exp(-z))


def wlogcdf(x, a, k):
    if x <= 0:
        return -math.inf
    return 0.0 if math.isinf(x) else a * w_logbase(x, k)


def wlogsf(x, a, k):
    if x <= 0:
        return 0.0
    if math.isinf(x):
        return -math.inf
    lc = wlogcdf(x, a, k)
    if lc < -.7:
        return math.log1p(-math.exp(lc))
    if lc < -1e-290:
        return math.log(-math.expm1(lc))
    return math.log(a) - math.exp(min(k * math.log(x), 709))


def wcdf(x, a, k):
    return math.exp(wlogcdf(x, a, k)) if x > 0 else 0.0


def compare(ck, key, f, ref, xs, par, rtol, atol=0.0):
    """Array, list, scalar and 2-D calls agree with the reference and with each other."""
    want = np.array([ref(float(x), **par) for x in xs])
    case = {"function": key, "params": par}
    o = observe(f, xs, **par)
    ck.ev()
    ck.count("grid-values", len(xs))
    if o.kind != "ok":
        ck.violation(f"{key}:raised", f"{par}: {o.short()}", case)
        return None
    got = np.asarray(o.value, float)
    if got.shape != xs.shape:
        ck.violation(f"{key}:shape", f"{par}: shape {got.shape} for input {xs.shape}", case)
        return None
    with np.errstate(all="ignore"):
        bad = ~((np.abs(got - want) <= atol + rtol * np.abs(want)) | (got == want))
    if np.any(bad):
        i = int(np.argmax(bad))
        ck.violation(f"{key}:value", f"{par}: f({xs[i]!r}) = {got[i]!r}, expected {want[i]!r}", {**case, "x": float(xs[i])})
        return None
    ck.nontrivial(key, sorted(par.items()), len(xs))
    for form, arg in (("list", list(map(float, xs[:40]))), ("2-D", xs[:40].reshape(2, -1)), ("float", float(xs[len(xs) // 2])), ("reversed", xs[::-1])):
        o = observe(f, arg, **par)
        ck.ev()
        w = got[:40] if form == "list" else got[:40].reshape(2, -1) if form == "2-D" else got[len(xs) // 2] if form == "float" else got[::-1]
        if o.kind != "ok" or np.shape(o.value) != np.shape(w) or not np.allclose(np.asarray(o.value, float), w, rtol=1e-13, atol=0, equal_nan=True):
            ck.violation(f"{key}:{form}", f"{par}: {form} argument gives {o.short()}", case)
    return got


def monotone(ck, key, xs, got, par, sign=1):
    ck.ev()
    ck.count("monotone-grids")
    with np.errstate(all="ignore"):
        d = sign * np.diff(got)
        slack = 1e-13 * np.maximum(np.abs(got[1:]), 1e-300)
    bad = np.where(d < -np.where(np.isfinite(slack), slack, 0))[0]
    if len(bad):
        i = int(bad[0])
        ck.violation(f"{key}:monotone", f"{par}: f({xs[i]}) = {got[i]}, f({xs[i + 1]}) = {got[i + 1]}", par)


def norm_part(ck, r, n):
    from pysatl_criterion.core.distributions.norm import cdf_norm, pdf_norm
    pars = [dict(mean=0, var=1), dict(mean=3, var=16), dict(mean=-7.5, var=.01), dict(mean=1e6, var=1.0), dict(mean=0, var=1e-8), dict(mean=2, var=1e8)]
    pars += [dict(mean=float(r.normal() * 10 ** r.uniform(-2, 4)), var=lu(r, 1e-4, 1e6)) for _ in range(n)]
    z = np.concatenate([np.linspace(-37, 37, 297), np.linspace(-6, 6, 200), [-1e3, -40, 40, 1e3, 0.0]])
    z = np.sort(z)
    for par in pars:
        xs = par["mean"] + np.sqrt(par["var"]) * z
        # the reference sees the rounded x; its own rounding error is amplified by |z|
        eps = 1e-12 + 4e-13 * (1 + abs(par["mean"]) / math.sqrt(par["var"])) * 37
        c = compare(ck, "cdf_norm", cdf_norm, phi, xs, par, rtol=eps * 37, atol=1e-300)
        p = compare(ck, "pdf_norm", pdf_norm, npdf, xs, par, rtol=eps * 37, atol=1e-300)
        if c is None or p is None:
            continue
        monotone(ck, "cdf_norm", xs, c, par)
        if not (c[0] == 0 and c[-1] == 1):
            ck.violation("cdf_norm:limits", f"{par}: ends {c[0]}, {c[-1]}", par)
        lo = np.asarray(cdf_norm(np.array([-np.inf, np.inf]), **par))
        if list(lo) != [0.0, 1.0]:
            ck.violation("cdf_norm:limits", f"{par}: cdf(-inf), cdf(inf) = {lo}", par)
        # the density integrates to the cdf between random points (Gauss-Legendre, 60 nodes)
        t, w = np.polynomial.legendre.leggauss(60)
        for _ in range(6):
            a, b = np.sort(r.uniform(-5, 5, 2)) * math.sqrt(par["var"]) + par["mean"]
            q = float(np.sum(w * np.asarray(pdf_norm((b - a) / 2 * t + (a + b) / 2, **par))) * (b - a) / 2)
            d = float(np.diff(cdf_norm(np.array([a, b]), **par))[0])
            ck.ev()
            ck.count("integrals")
            if abs(q - d) > 1e-9 + 1e-8 * abs(d):
                ck.violation("pdf_norm:integral", f"{par}: integral over [{a}, {b}] is {q}, cdf difference {d}", par)
    o = observe(cdf_norm, np.array([-1.0, 0.0, 2.0]))
    if o.kind != "ok" or not np.allclose(o.value, [phi(-1, 0, 1), .5, phi(2, 0, 1)], rtol=1e-13):
        ck.violation("cdf_norm:defaults", o.short(), None)
    o = observe(pdf_norm, np.array([-1.0, 0.0, 2.0]))
    if o.kind != "ok" or not np.allclose(o.value, [npdf(-1, 0, 1), npdf(0, 0, 1), npdf(2, 0, 1)], rtol=1e-13):
        ck.violation("pdf_norm:defaults", o.short(), None)


def expon_part(ck, r, n):
    from pysatl_criterion.core.distributions.expon import cdf_expon
    for lam in [1, .5, 4, 1e-6, 1e6, 3.0] + [lu(r, 1e-5, 1e5) for _ in range(n)]:
        y = np.concatenate([-np.logspace(3, -3, 20), [0.0], np.logspace(-300, -8, 80), np.logspace(-7, 3, 300)])
        xs = y / lam
        c = compare(ck, "cdf_expon", cdf_expon, ecdf, xs, dict(lam=lam), rtol=1e-12, atol=1e-320)
        if c is not None:
            monotone(ck, "cdf_expon", xs, c, dict(lam=lam))
            e = np.asarray(cdf_expon(np.array([-np.inf, 0.0, np.inf]), lam=lam))
            if list(e) != [0.0, 0.0, 1.0]:
                ck.violation("cdf_expon:limits", f"lam={lam}: cdf(-inf), cdf(0), cdf(inf) = {e}", lam)
    o = observe(cdf_expon, np.array([.5, 2.0]))
    if o.kind != "ok" or not np.allclose(o.value, [ecdf(.5, 1), ecdf(2, 1)], rtol=1e-13):
        ck.violation("cdf_expon:defaults", o.short(), None)


def weibull_part(ck, r, n):
    from pysatl_criterion.core.distributions import weibull as W
    pars = [dict(a=1, k=5), dict(a=1, k=1), dict(a=2, k=3), dict(a=.5, k=.7), dict(a=10, k=2), dict(a=1, k=.2), dict(a=50, k=.5), dict(a=.05, k=8)]
    pars += [dict(a=lu(r, .05, 50), k=lu(r, .2, 20)) for _ in range(n)]
    for par in pars:
        k = par["k"]
        # x^k from 1e-280 to 1e6: both tails, and beyond the underflow of cdf and survival function
        lz = np.concatenate([np.linspace(-640, -30, 70), np.linspace(-30, 6, 300), np.linspace(6, 13.8, 60)])
        xs = np.exp(lz / k)
        xs = np.unique(np.concatenate([[-5.0, -1e-9, 0.0], xs[(xs > 1e-300) & (xs < 1e300)]]))
        rt = 2e-11 * max(1, k)
        c = compare(ck, "weibull_cdf", W.generate_weibull_cdf, wcdf, xs, par, rtol=1e-9 * max(1, par["a"]), atol=1e-300)
        lc = compare(ck, "weibull_logcdf", W.generate_weibull_logcdf, wlogcdf, xs, par, rtol=rt, atol=1e-300)
        ls = compare(ck, "weibull_logsf", W.generate_weibull_logsf, wlogsf, xs, par, rtol=rt * 50, atol=1e-290)
        if c is not None:
            monotone(ck, "weibull_cdf", xs, c, par)
        if lc is not None:
            monotone(ck, "weibull_logcdf", xs, lc, par)
        if ls is not None:
            monotone(ck, "weibull_logsf", xs, ls, par, -1)
        if c is not None and lc is not None and ls is not None:
            ck.ev(2)
            ck.count("consistency-grids")
            if np.max(np.abs(np.exp(lc) - c)) > 1e-9 * max(1, par["a"]) or np.max(np.abs(np.exp(ls) + c - 1)) > 1e-9 * max(1, par["a"]):
                ck.violation("weibull:consistency", f"{par}: exp(logcdf), cdf and 1 - exp(logsf) disagree", par)
        e = [np.asarray(f(np.array([-np.inf, 0.0, np.inf]), **par)) for f in (W.generate_weibull_cdf, W.generate_weibull_logcdf, W.generate_weibull_logsf)]
        if list(e[0]) != [0, 0, 1] or list(e[1]) != [-np.inf, -np.inf, 0] or list(e[2]) != [0, 0, -np.inf]:
            ck.violation("weibull:limits", f"{par}: {e}", par)
    for f, ref in ((W.generate_weibull_cdf, wcdf), (W.generate_weibull_logcdf, wlogcdf), (W.generate_weibull_logsf, wlogsf)):
        o = observe(f, np.array([.4, 1.1]))
        ck.ev()
        if o.kind != "ok" or not np.allclose(o.value, [ref(.4, 1, 5), ref(1.1, 1, 5)], rtol=1e-10):
            ck.violation(f"{f.__name__}:defaults", o.short(), None)


def exact(col, order, center):
    c = Fraction(center)
    return float(sum((Fraction(float(v)) - c) ** order for v in col) / len(col))


def scale_of(col, order, center):
    return float(sum(abs(Fraction(float(v)) - Fraction(center)) ** order for v in col) / len(col))


def moment_part(ck, r, n):
    from pysatl_criterion.core.distributions.sample import central_moment, moment
    samples = [("ints", [1, 2, 3, 4, 10]), ("one", [3.5]), ("two", [-1.0, 4.0]), ("const", [2.0] * 6), ("shifted", [100.0 + v for v in (.1, .5, .9, 2.0)]),
               ("tuple", (1.5, -2.5, 0.0)), ("int-array", np.array([3, -4, 7, 7])), ("neg", -np.arange(1.0, 9.0)),
               ("big-ints", [123456, -99999, 54321, 7]), ("big-int-array", np.array([123456, -99999, 54321, 7])), ("int32", np.array([70000, -3, 5], np.int32)), ("large", [1e6, 2e6, -3e6])]
    for i in range(n):
        m = int(r.choice([2, 3, 5, 11, 40, 200]))
        samples.append((f"random-{i}", np.round(r.normal(r.uniform(-3, 3), lu(r, .1, 10), m) * 2 ** 20) / 2 ** 20))
    for tag, x in samples:
        col = [float(v) for v in np.asarray(x, float)]
        mu = float(sum(map(Fraction, col)) / len(col))
        for order in range(0, 13):
            cases = [("raw", lambda: moment(x, mom=order), 0.0), ("raw", lambda: moment(x, mom=order, center=0), 0.0), ("raw", lambda: moment(x, order), 0.0)]
            for cen in (1.5, -2.0, 10.25):
                cases.append(("centred", lambda cen=cen: moment(x, mom=order, center=cen), cen))
            cases.append(("central", lambda: central_moment(x, mom=order), mu))
            for kind, f, cen in cases:
                o = observe(f)
                ck.ev()
                ck.count("moments")
                want = exact(col, order, cen)
                tol = 1e-10 * scale_of(col, order, cen) + 1e-300
                if kind == "central":      # the centre itself is rounded
                    tol += 1e-11 * order * (1 + abs(mu)) * (scale_of(col, order - 1, cen) if order else 0)
                    tol += (1e-14 * (1 + abs(mu))) ** order if order else 0
                if o.kind != "ok" or np.shape(o.value) != () or not abs(float(o.value) - want) <= tol:
                    ck.violation(f"{'central_moment' if kind == 'central' else 'moment'}:{kind}", f"order {order}, center {cen}: got {o.short()}, expected {want} for {col[:6]}", {"sample": col, "order": order, "center": cen})
                else:
                    ck.nontrivial(tag, order, kind, cen)
        for f, want in ((lambda: moment(x), mu), (lambda: central_moment(x), 0.0)):
            o = observe(f)
            ck.ev()
            if o.kind != "ok" or abs(float(o.value) - want) > 1e-12 * (1 + max(map(abs, col))):
                ck.violation("moment:defaults", f"{o.short()} expected {want}", col)
        if isinstance(x, np.ndarray):
            keep = x.copy()
            moment(x, 3, 1.0), central_moment(x, 3)
            if not np.array_equal(keep, x):
                ck.violation("moment:modifies-sample", tag, col)
    for i in range(max(3, n // 2)):          # 2-D samples: moments along the first axis
        a = np.round(r.normal(size=(int(r.integers(2, 9)), int(r.integers(1, 5)))) * 1024) / 1024
        for order in range(0, 7):
            cols = [a[:, j].tolist() for j in range(a.shape[1])]
            for kind, f, cens in (("raw", lambda: moment(a, order), [0.0] * len(cols)), ("centred", lambda: moment(a, order, 1.5), [1.5] * len(cols)),
                                  ("array-centre", lambda: moment(a, order, np.arange(a.shape[1]) * .5), [j * .5 for j in range(a.shape[1])]),
                                  ("central", lambda: central_moment(a, order), [float(sum(map(Fraction, c)) / len(c)) for c in cols])):
                o = observe(f)
                ck.ev()
                ck.count("moments-2d")
                want = [exact(c, order, m) for c, m in zip(cols, cens)]
                if o.kind != "ok" or np.shape(o.value) != (len(cols),) or not np.allclose(o.value, want, rtol=1e-9, atol=1e-10):
                    ck.violation(f"moment-2d:{kind}", f"order {order}: got {o.short()}, expected {want}", {"sample": a.tolist(), "order": order})


def run(ck):
    r = ck.rng("c19")
    n = 150 if ck.thorough else 12
    norm_part(ck, r, n)
    expon_part(ck, r, n)
    weibull_part(ck, r, 3 * n)
    moment_part(ck, r, 2 * n)
    ck.sample("cdf_norm(mean=3, var=16) at -150", phi(-150, 3, 16))
    ck.need("grid-values", 40000)
    ck.need("moments", 2000)
    ck.need("integrals", 60)
    ck.need("consistency-grids", 10)
