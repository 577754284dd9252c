"""Runner of the formula checks: real criterion vs an independent reference on generated samples.

A reference is `fn(x, kw, null)` -> float, or (float, {finding_key: value_of_a_recorded_deviation}).
x is the sample as a float array in the order given to the criterion; kw the constructor arguments; null the scipy null.
"""
import numpy as np
from pv import catalog as C
from pv.core import observe, close, parallel
from pv.ref_normal import LOOSE
from pysatl_criterion.statistics.alternative import AlternativeType as AT  # noqa: F401


def shaped(fam, kw, n, rng, kind):
    """Samples of the family's support: null / alternatives / ties / heavy / clustered / wide scale."""
    d = C.null(fam, kw)
    lo, hi = d.support()
    if kind in C.KINDS:
        x = C.sample(fam, kw, n, rng, kind)
    elif kind == "ties":
        x = C.sample(fam, kw, n, rng, "null")
        s = np.std(x) or 1.0
        q = 10.0 ** np.floor(np.log10(max(s, 1e-12 * float(abs(d.ppf(.75) - d.ppf(.25))), 1e-300))) / 2
        x = np.round(x / q) * q
        x = np.clip(x, d.ppf(.02), d.ppf(.98))
    elif kind == "repeat":
        base = C.sample(fam, kw, max(3, n // 3), rng, "null")
        x = rng.choice(base, n)
        x[:len(base)][:n] = base[:n]
    elif kind == "outlier":
        x = C.sample(fam, kw, n, rng, "null")
        x[rng.integers(n)] = d.ppf(1 - 1e-5)
        x[rng.integers(n)] = d.ppf(1e-5)
    elif kind == "wild":
        # one or two observations tens of standard deviations away: gross errors of measurement
        x = C.sample(fam, kw, n, rng, "null")
        s = max(d.ppf(.84) - d.ppf(.16), 1e-300)
        for i in rng.choice(n, 1 + int(rng.uniform() < .4), replace=False):
            far = s * rng.uniform(5, 50)
            v = x[i] + far if fam not in ("normal", "student") or rng.uniform() < .5 else x[i] - far
            x[i] = v if lo < v < hi and d.sf(v) > 1e-290 else x[i]
        return np.asarray(x, float)
    elif kind == "whole":
        # whole numbers (counts, ages, prices), as far as the support has them
        x = C.sample(fam, kw, n, rng, "null")
        w = np.round(x)
        return np.asarray(np.where((w > lo) & (w < hi) & (np.abs(w) < 2 ** 50), w, x), float)
    elif kind == "tail":
        # observations whose tail probability is anything down to the smallest normal numbers
        x = C.sample(fam, kw, n, rng, "null")
        for i in rng.choice(n, max(1, n // 10), replace=False):
            p = 10.0 ** -rng.uniform(5, 290 if rng.uniform() < .3 else 20)
            x[i] = d.isf(p) if rng.uniform() < .5 and not np.isfinite(hi) else d.ppf(p)
        x = np.where(np.isfinite(x), x, d.median())
        if np.isfinite(lo):
            x = np.where(x > lo, x, d.median())
        return np.asarray(np.where(x < hi, x, d.median()), float)
    else:
        raise ValueError(kind)
    if np.isfinite(lo):
        x = np.maximum(x, d.ppf(1e-9))
    if np.isfinite(hi):
        x = np.minimum(x, d.ppf(1 - 1e-9))
    return np.asarray(x, float)


ALLKINDS = C.KINDS + ("ties", "repeat", "outlier", "tail", "wild", "whole")
# sizes far beyond the unit tests' samples, where thresholds, approximations and overflow live; fewer samples per size
BIG = [172, 187, 203, 260, 333, 502, 1001, 1030, 2051, 5003]
# sizes where counters, squares and products leave the 32-bit range
HUGE = [20011, 66001, 100003]
BLOCK = 25
SLOW = {"BHSNormality": 0, "EppsPulleyNormality": 0, "Deshpande": 0, "CensoredStein": 0, "Stein": 0, "BickelRosenblatt": 20011, "LOS": 20011,
        "Coin": 66001, "ShapiroWilkNormality": 20011}


def huge_cap(name):
    return min([C.nmax(name)] + [v for k, v in SLOW.items() if name.startswith(k)])


def random_kw(name, fam, rng, extreme=.2):
    """A further valid null parameterisation, drawn at random; a share of them far from the usual ones."""
    r = lambda lo, hi: float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
    if rng.uniform() < extreme:
        kw = {"normal": dict(mean=float(rng.normal(0, 1e3)), var=r(1e-4, 1e6)), "exponent": dict(lam=r(1e-5, 1e5)),
              "weibull": dict(a=r(.15, 25), k=r(.2, 25)), "student": dict(df=r(.4, 250), loc=float(rng.normal(0, 100)), scale=r(1e-3, 1e3)),
              "gamma": dict(alpha=r(.1, 600), beta=r(1e-4, 1e4)), "beta": dict(alpha=r(.2, 120), beta=r(.2, 120)),
              "log_normal": dict(s=r(.02, 6), scale=r(1e-4, 1e4)), "uniform": dict(w=r(1e-3, 1e5))}
        a = float(rng.normal(0, 1e3))
    else:
        kw = {"normal": dict(mean=float(rng.normal(0, 10)), var=r(.01, 100)), "exponent": dict(lam=r(.01, 50)),
              "weibull": dict(a=r(.5, 4), k=r(.5, 6)), "student": dict(df=r(.8, 40), loc=float(rng.normal(0, 5)), scale=r(.1, 20)),
              "gamma": dict(alpha=r(.4, 20), beta=r(.05, 20)), "beta": dict(alpha=r(.4, 9), beta=r(.4, 9)),
              "log_normal": dict(s=r(.2, 2.5), scale=r(.05, 20)), "uniform": dict(w=r(.1, 50))}
        a = float(rng.normal(0, 20))
    kw = kw[fam]
    if fam == "uniform":
        return dict(a=a, b=a + kw["w"])
    if name == "ModeBetaGofStatistic":
        kw = {k: v + 1.05 for k, v in kw.items()}
    if name == "LillieforsStudentGofStatistic":
        kw = {"df": kw["df"]}
    return kw


def scaled_kw(name, fam, rng):
    """A null on a scale (unit of measurement) far from one; None where the family has no scale."""
    kw, s = random_kw(name, fam, rng, 0), 10.0 ** float(rng.choice((-1, 1)) * rng.uniform(6, 12))
    new = {"normal": lambda: dict(mean=kw["mean"] * s, var=kw["var"] * s * s), "exponent": lambda: dict(lam=kw["lam"] / s),
           "student": lambda: dict(df=kw["df"], loc=kw["loc"] * s, scale=kw["scale"] * s) if "loc" in kw else None,
           "gamma": lambda: dict(alpha=kw["alpha"], beta=kw["beta"] / s), "log_normal": lambda: dict(s=kw["s"], scale=kw["scale"] * s),
           "uniform": lambda: dict(a=float(rng.choice((0, -1, .25))) * s, b=float(rng.uniform(1, 3)) * s)}.get(fam)
    return new and new()


def random_opts(name, rng):
    """Constructor options of a criterion at values nobody listed."""
    i = lambda lo, hi: int(rng.integers(lo, hi))
    lam = float(rng.choice([rng.uniform(-.9, 3), 1 + rng.uniform(-.1, .1), rng.uniform(-.1, .1)]))
    return {"Chi2PearsonUniform": lambda: dict(bins=i(2, 40), lambda_=lam), "Chi2PearsonBeta": lambda: dict(lambda_=lam),
            "BickelRosenblattUniform": lambda: dict(bandwidth=float(rng.uniform(.02, .8))), "NeymanSmoothTestUniform": lambda: dict(k=i(1, 12)),
            "ChiSquareStudent": lambda: dict(n_bins=i(2, 40)), "Chi2PearsonGamma": lambda: dict(bins=i(2, 40)),
            "LikelihoodRatioGamma": lambda: dict(bins=i(2, 40)), "CressieReadGamma": lambda: dict(power=lam, bins=i(2, 30))}.get(C.short(name), dict)()


def random_call(name, n, rng):
    """Call options of a criterion at values nobody listed."""
    u, i = lambda lo, hi: float(rng.uniform(lo, hi)), lambda lo, hi: int(rng.integers(lo, max(hi, lo + 1)))
    lt = lambda: dict(m=i(2, 400), a=-u(.5, 12))
    return {"AtkinsonExponentiality": lambda: dict(p=u(.05, 3.5)), "DeshpandeExponentiality": lambda: dict(b=u(.02, .98)),
            "LorenzExponentiality": lambda: dict(p=u(.02, .98)), "GnedenkoExponentiality": lambda: dict(r=i(1, n)),
            "HarrisExponentiality": lambda: dict(r=i(1, (n - 1) // 2 + 1)), "KullbackLeiblerWeibull": lambda: dict(m=i(1, n)),
            "LaplaceTransform2Weibull": lt, "LaplaceTransform3Weibull": lt, "EntropyBeta": lambda: dict(m=i(1, max(2, n // 2)))}.get(C.short(name), dict)()


def build(ck, name, kw):
    o = observe(C.classes()[name], **kw)
    if o.kind != "ok":
        ck.violation(f"{name}:constructor", f"{name}({kw}) {o.short()}", {"class": name, "kwargs": kw})
        return None
    return o.value


def judge(ck, name, kw, x, ref, call=None, rtol=1e-7, atol=1e-9, tag=""):
    stat = build(ck, name, kw)
    if stat is None:
        return
    fam = C.family(C.classes()[name])
    call = call or {}
    o = observe(stat.execute_statistic, x.copy(), **call, cpu=60)
    ck.ev()
    ck.count(f"executions:{C.short(name)}")
    with np.errstate(all="ignore"):
        want = ref(x, {**kw, **call, "_call": call}, C.null(fam, kw))
    alt = {}
    if isinstance(want, tuple):
        want, alt = want
    case = {"class": name, "kwargs": kw, "call": call, "n": len(x), "sample": x, "expected": want, "got": o.short()}
    defined = want is not None and np.isfinite(want)
    if o.kind == "exc" and isinstance(o.exc, ValueError) and not defined:
        ck.count("undefined-reference")
        return
    if o.kind != "ok":
        ck.violation(f"{name}:raised", f"n={len(x)} {kw} {call}: {o.short()}; the definition gives {want}", case)
        return
    if not defined:
        ck.count("undefined-reference")
        return
    ck.nontrivial(name, sorted(map(str, kw.items())), len(x), round(float(x[0]), 9))
    ck.sample(name, case)
    if name in LOOSE and LOOSE[name][0](x):
        rtol = LOOSE[name][1]
    if close(o.value, want, rtol, atol):
        ck.count("equal")
        return
    for k, v in alt.items():
        if close(o.value, v, rtol, atol):
            ck.violation(k, f"n={len(x)} {kw}: got {o.short()}, the definition gives {want:.12g}", case)
            return
    ck.violation(f"{name}:differs{tag}", f"n={len(x)} {kw} {call}: got {o.short()}, the definition gives {want:.12g}", case)


def run_family(ck, refs, sizes, reps=1, kinds=ALLKINDS, calls=None, tol=None, caps=None, big=(), bigcaps=None):
    """refs: {class name: reference}; sizes: list; calls: {class: [call kwargs]}; tol: {class: (rtol, atol)}"""
    calls, tol, caps, bigcaps = calls or {}, tol or {}, caps or {}, bigcaps or {}
    have = C.classes()
    for name in refs:
        if name not in have:
            ck.violation(f"{name}:missing", f"criterion class {name} is no longer offered", {"class": name})

    def worker(sub, task):
        name, rep, n = task
        cls = have[name]
        fam = C.family(cls)
        rng = sub.rng(*task)
        vs = C.variants(name, fam)
        if rep == "each":
            # one sample of every size in a block: a branch on the size has nowhere to hide
            rt, at = tol.get(name, (1e-7, 1e-9))
            for k in range(n, min(n + BLOCK, each[name] + 1)):
                kw = dict(vs[int(rng.integers(len(vs)))])
                if rng.uniform() < .5:
                    kw.update(random_opts(name, rng))
                kind = str(rng.choice(kinds)) if rng.uniform() < .3 else "null"
                x = shaped(fam, kw, k, rng, kind)
                if np.ptp(x) > 0:
                    cl = calls.get(name, [{}])
                    c = cl[int(rng.integers(len(cl)))] if kind == "null" else cl[0]
                    c = c(k) if callable(c) else c
                    if kind == "null" and name in calls and rng.uniform() < .5:
                        c = {**c, **random_call(name, k, rng)}
                    judge(sub, name, kw, x, refs[name], c, rt, at)
                    sub.count("every-size")
            return
        opts = [{k: v for k, v in kw.items() if k not in C.PARAMS[fam][0]} for kw in vs]
        rt, at = tol.get(name, (1e-7, 1e-9))
        if n in HUGE:
            kw = vs[int(rng.integers(len(vs)))]
            for kind in ("null", str(rng.choice(("low", "high", "mid")))):
                judge(sub, name, kw, shaped(fam, kw, n, rng, kind), refs[name], {}, rt, at)
                sub.count("executions-over-20000")
            return
        large = n not in sizes and n not in edge[name]
        jobs = [(n, kw, "null") for kw in (vs if not large else [vs[int(rng.integers(len(vs)))] for _ in range(3)])]
        # every kind of sample at every size, with rotating parameters
        jobs += [(n, vs[(i + n + rep) % len(vs)], kind) for i, kind in enumerate(kinds)] if not large else \
            [(n, vs[int(rng.integers(len(vs)))], str(rng.choice(kinds)))]
        if not name.startswith("RyanJoiner"):
            kw = {**opts[int(rng.integers(len(opts)))], **random_kw(name, fam, rng), **(random_opts(name, rng) if rng.uniform() < .5 else {})}
            jobs += [(n, kw, "null"), (n, kw, kinds[int(rng.integers(len(kinds)))])]
        if n in odd[name] and not name.startswith("RyanJoiner") and (kw := scaled_kw(name, fam, rng)):
            jobs += [({**opts[int(rng.integers(len(opts)))], **kw}, k) for k in ("null", kinds[int(rng.integers(len(kinds)))])]
            jobs = [j if len(j) == 3 else (n, *j) for j in jobs]
            sub.count("far-scales")
        for n, kw, kind in jobs:
            x = shaped(fam, kw, n, rng, kind)
            if np.ptp(x) == 0:
                continue
            if (o := rng.uniform()) < .12:
                # recordings often come sorted
                x = np.sort(x) if o < .07 else np.sort(x)[::-1]
            cl = calls.get(name, [{}])
            for c in cl if kind == "null" else cl[:1]:
                c = c(n) if callable(c) else c
                judge(sub, name, kw, x, refs[name], c, rt, at)

    def ns(name):
        lo, hi = C.nmin(name), min(C.nmax(name), caps.get(name, 10 ** 6))
        return sorted({min(max(n, lo), hi) for n in sizes} | {n for n in big if n <= min(C.nmax(name), bigcaps.get(name, 10 ** 6))}, reverse=True)
    # sizes nobody thought of
    edge, odd = {}, {}
    for name in refs:
        lo, hi = C.nmin(name), min(C.nmax(name), caps.get(name, 10 ** 6))
        edge[name] = {lo, hi}
        rng = ck.rng("odd sizes", name)
        m = [int(np.exp(rng.uniform(np.log(max(lo, 12)), np.log(640)))) for _ in range(7 if not ck.thorough else 40)]
        odd[name] = {n for n in m if n <= min(hi, bigcaps.get(name, 10 ** 6))} - set(ns(name))
    top = 700 if ck.thorough else 200
    each = {name: min(top, C.nmax(name), caps.get(name, 10 ** 6), 60 if huge_cap(name) == 0 and not ck.thorough else top) for name in refs}
    hs = HUGE if ck.thorough else [HUGE[0], HUGE[-1]]
    parallel(ck, [(name, 0, n) for n in sorted(hs, reverse=True) for name in refs if name in have and huge_cap(name) >= n] +
             [(name, rep, n) for name in refs if name in have for rep in range(reps) for n in ns(name)
                  if n not in big or rep == 0 or n in sizes or n < 600] +
             [(name, 0, n) for name in refs if name in have for n in sorted(odd[name])] +
             [(name, "each", n) for name in refs if name in have for n in range(C.nmin(name), each[name] + 1, BLOCK)], worker)
    for n in refs:
        if n in have:
            ck.need(f"executions:{C.short(n)}", 20)
