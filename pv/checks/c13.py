"""C13: one finite real number within the theoretical range, on every valid sample."""
import math
import numbers
import time
import numpy as np
from pv import catalog as C
from pv.core import parallel, observe
from pv.formula import shaped, random_kw, huge_cap
from pv.meta import call_options

RULE = ("every criterion class x constructor variants x sizes from the class minimum up x hostile shapes (extreme outliers, all mass far away, near a support "
        "boundary, 12 decades of spread, relative spread 1e-6, large offset, ties, discrete, large n); evaluation = one execution whose outcome was classified; "
        "non-trivial = distinct (class, parameters, sample)")
ASSUMPTIONS = ["statistics built on logarithms of spacings are undefined (infinite or a ValueError) when observations tie, and power divergences of order <= -1 or an "
               "empty expected cell are infinite by definition: those inputs count as outside the domain of these statistics",
               "the theoretical ranges are those of the published definitions"]
INF = math.inf
# longest matching prefix wins; None: any real number
RANGE = {
    "Ahsanullah": (-1, 1), "AndersonDarling": (0, INF), "Atkinson": (0, INF), "BHS": (0, INF), "BickelRosenblatt": (0, INF), "BontempsMeddahi": (0, INF),
    "CabanaCabana": (0, INF), "CabanaQuiroz": (0, INF), "Chi": (0, INF), "Coin": (0, INF), "Cramer": (0, INF), "Crammer": (0, INF),
    "DAP": (0, INF), "DesgagneLafaye": (0, INF), "Deshpande": (0, 1), "DoornikHansen": (0, INF), "EppsPulleyNorm": (0, INF), "EppsPulleyLog": (0, INF),
    "Epstein": (0, INF), "Filli": (0, 1), "Frozini": (0, INF), "GMG": (0, INF), "Gini": (0, 1), "Gnedenko": (0, INF), "GlenLeemis": (0, INF),
    "Graph": (0, INF), "GreenwoodTest": (0, 1), "GreenwoodGamma": (0, 1), "Harris": (0, INF), "HegazyGreen": (0, INF), "HollanderProshan": (0, 1),
    "Hosking": (0, INF), "JB": (0, INF), "KL": (0, INF), "KimberMichael": (0, 1), "KolmogorovSmirnov": (0, 1), "Kuiper": (0, 1),
    "KullbackLeibler": None, "LOS": (-1, INF), "LaplaceTransform": (0, INF), "LiaoShimokawa": (0, INF), "LikelihoodRatio": (0, INF),
    "Lilliefors": (0, 1), "LooneyGulledge": (-1, 1), "Lorenz": (0, 1), "MSF": (0, 1), "MahdiDoostparast": (0, INF), "MartinezIglewicz": (0, INF),
    "MinToshiyuki": (0, INF), "ModeBeta": (0, INF), "MomentBased": (0, INF), "NeymanSmooth": (0, INF), "Pietra": (0, 1), "ProbabilityPlotCorrelation": (0, 2),
    "QuesenberryMiller": (0, 2), "REJG": (0, 1), "RSB": (0, INF), "Ratio": (0, INF), "RobustJarqueBera": (0, INF), "Rossberg": (-1, 1), "RyanJoiner": (-1, 1),
    "SF": (0, 1), "SPP": (-1, 1), "ST1": (0, INF), "ST2": (0, INF), "SWRG": (0, 1), "SB": (0, INF), "Sb": (0, INF), "ShapiroWilkExp": (0, 1.0000001), "ShapiroWilk": (0, 1),
    "Sherman": (0, 1), "SkewnessKurtosis": (0, INF), "Stein": (-.334, .334), "CensoredStein": (-.334, .334), "TikuSingh": (0, 2), "Watson": (0, INF),
    "We": (0, INF), "WongWong": (1, INF), "Zhang": None, "ZhangTests": (0, INF), "ZhangZ": (0, INF), "ZhangWuC": (0, INF),
    "Spiegelhalter": (0, INF),
}
KINDS = ("null", "low", "edge", "narrow", "ties", "outlier", "far", "near", "away", "wide", "concentrated", "offset", "few-ties", "discrete", "two-clusters", "few-values")


def limits(name):
    keys = [k for k in RANGE if name.startswith(k)]
    r = RANGE[max(keys, key=len)] if keys else None
    return r or (-INF, INF)


def hostile(fam, kw, n, rng, kind):
    if kind in ("null", "low", "edge", "narrow", "ties", "outlier"):
        return shaped(fam, kw, n, rng, kind)
    d = C.null(fam, kw)
    lo, hi = d.support()
    m, w = float(d.median()), float(d.ppf(.84) - d.ppf(.16))
    u = rng.uniform(size=n)
    z = rng.normal(size=n)
    bounded = np.isfinite(hi)
    positive = lo == 0 and not bounded
    base = C.sample(fam, kw, n, rng, "null")
    i = int(rng.integers(n))
    big = float(np.exp(rng.uniform(math.log(10), math.log(1e4))))
    if kind == "far":
        x = base
        if bounded:
            x[i] = hi - (hi - lo) * 10.0 ** -rng.integers(6, 14)
        elif fam == "log_normal":
            x[i] = m * math.exp(float(rng.uniform(5, 60)) * d.args[0] if d.args else 30.0)
        elif positive:
            x[i] = m * big
        else:
            x[i] = m + w * big * rng.choice((-1, 1))
    elif kind == "near":
        x = base
        if bounded or positive:
            x[i] = lo + (m - lo) * 10.0 ** -rng.integers(4, 14)
        else:
            x[i] = m + w * 1e-9
    elif kind == "away":
        if bounded:
            x = lo + (hi - lo) * (.9 + .0999 * u) if rng.uniform() < .5 else lo + (hi - lo) * (1e-6 + 1e-4 * u)
        elif positive:
            x = m * big / 10 * (1 + .2 * u) if rng.uniform() < .5 else m / big * (1 + u)
        else:
            x = m + w * (big / 10 * rng.choice((-1, 1)) + z)
    elif kind == "wide":
        e = np.exp(rng.uniform(math.log(1e-6), math.log(1e6), n))
        x = lo + (hi - lo) * e / (1e6 * 1.0001) if bounded else m * e if positive else m + w * e * rng.choice((-1, 1), n)
    elif kind == "concentrated":
        c = float(d.ppf(rng.uniform(.2, .8)))
        x = c + 1e-6 * abs(c if c else w) * (u - .5) if not bounded else c + 1e-6 * (hi - lo) * (u - .5)
    elif kind == "offset":
        x = m * (1 + .3 * u) * big if positive else m + 1e6 * w + w * z if not bounded else base
    elif kind == "few-ties":
        x = base
        for j in range(max(1, n // 8)):
            x[j] = x[-1 - j]
    elif kind == "discrete":
        x = d.ppf((rng.integers(0, 8, n) + .5) / 8)
    elif kind == "few-values":
        # two or three distinct values (answers on a coarse scale)
        k = int(rng.choice((2, 2, 3)))
        v = d.ppf(rng.uniform(.02, .98, k))
        if not bounded and np.ptp(np.round(v)) and rng.uniform() < .5 and np.all(np.round(v) > lo):
            v = np.round(v)
        x = rng.permutation(np.resize(v, n)) if rng.uniform() < .5 else rng.choice(v, n)
    else:
        x = np.where(u < .5, d.ppf(.15), d.ppf(.85)) + w * 1e-3 * (u - .5)
    x = np.asarray(x, float)
    if positive:
        x = np.maximum(x, m * 1e-14)
    if bounded:
        gap = max((hi - lo) * 1e-15, 8 * float(np.spacing(max(abs(lo), abs(hi)))) if (lo, hi) != (0, 1) else 0)
        x = np.clip(x, lo + gap, hi - gap)
    return x


def tied(x):
    return len(set(x.tolist())) < len(x)


TAIL = ("AndersonDarlingGamma", "AndersonDarlingBeta", "AndersonDarlingStudent", "MinToshiyuki", "MoranGamma", "Chi2PearsonWeibull", "ZhangZ", "MahdiDoostparast", "LiaoShimokawa")

# statistics over a robust or trimmed scale, which vanishes when more than half of the sample is one value
UNSTABLE = ("MartinezIglewicz", "Hosking", "Spiegelhalter")


def outside_domain(name, fam, kw, x):
    """Inputs on which the published definition itself has no finite value."""
    if name.startswith(TAIL):
        d = C.null(fam, kw)
        if min(d.sf(np.max(x)), d.cdf(np.min(x))) < 1e-290:  # the tail probability itself is not representable
            return True
    if name.startswith("GlenLeemis"):
        z = np.log(x) if fam == "log_normal" else x
        if np.max(np.abs(z - np.mean(z))) > 37 * np.std(z):
            return True
    if tied(x) and (name.startswith("KullbackLeibler") or len(x) < 10 and name.startswith(("Harris", "Gnedenko"))):
        return True
    if len(set(x.tolist())) < len(x) / 4 and name.startswith(("Harris", "Gnedenko")):  # all spacings of one part may vanish
        return True
    k = max(np.unique(x, return_counts=True)[1])
    if tied(x) and name.startswith(("Epstein", "MoranGamma", "MoranExp")):
        return True
    if name.startswith("CressieRead") and kw.get("power", 1) < 0 or name.startswith("Chi2Pearson") and kw.get("lambda_", 1) < 0:
        return True
    if tied(x) and len(x) < 40 and name.startswith(("Hosking2", "Hosking3", "Hosking4")):  # the trimmed scale may vanish
        return True
    if len(set(x.tolist())) < len(x) / 2 and name.startswith(("Hosking", "Spiegelhalter")):
        return True
    return k > len(x) / 2 and name.startswith(UNSTABLE)


def number(v):
    return isinstance(v, (numbers.Real, np.floating, np.integer)) and not isinstance(v, (bool, np.bool_)) \
        or isinstance(v, np.ndarray) and v.shape == () and np.issubdtype(v.dtype, np.number)


def run(ck):
    sizes = [4, 5, 8, 20, 61, 131, 178, 200] if not ck.thorough else [4, 5, 6, 7, 8, 9, 10, 11, 13, 20, 35, 61, 120, 172, 181, 200, 450]
    large = [1001, 2050, 5003, 100003] if not ck.thorough else [513, 1000, 1025, 2000, 3001, 5000, 10007, 66001, 100003]
    slow = {"Graph": 2100, "BHS": 5100, "Deshpande": 2100, "Stein": 1030, "CensoredStein": 1030, "EppsPulley": 5100}
    have = C.classes()

    def worker(sub, task):
        name, n, rep = task
        cls = have[name]
        fam = C.family(cls)
        rng = sub.rng(*task)
        vs = C.variants(name, fam)
        off = int(rng.integers(len(vs)))
        lo, hi = limits(name)
        kinds = KINDS if n < 1000 else ("null", "low", "far", "few-ties") if n < 20000 else ("null", "far")
        for i, kind in enumerate(kinds):
            kw = vs[(i + off) % len(vs)]
            if rng.uniform() < .4 and not name.startswith("RyanJoiner"):
                kw = {**{k: v for k, v in kw.items() if k not in C.PARAMS[fam][0]}, **random_kw(name, fam, rng)}
            x = hostile(fam, kw, n, rng, kind)
            if len(set(x.tolist())) < 2 or not np.all(np.isfinite(x)):
                continue
            opts = call_options(name)
            call = opts[int(rng.integers(len(opts)))] if n > 4 else {}
            o = observe(lambda: cls(**kw).execute_statistic(x.copy(), **call), cpu=60 if n < 1000 else 200)
            sub.ev()
            sub.count(f"executions:{C.short(name)}")
            sub.count(f"kind:{kind}")
            sub.nontrivial(name, kind, n, float(x[0]), str(kw))
            case = {"class": name, "kwargs": kw, "call": call, "kind": kind, "n": n, "sample": x, "got": o.short()}
            sub.sample(kind, case)
            if o.kind == "hang":
                sub.violation(f"{name}:no-result", f"n={n} {kind} {kw}: no result", case)
                continue
            dom = outside_domain(name, fam, kw, x)
            if o.kind == "exc":
                if dom and isinstance(o.exc, ValueError):
                    sub.count("outside-domain")
                else:
                    sub.violation(f"{name}:raised", f"n={n} {kind} {kw} {call}: {o.short()}", case)
                continue
            if not number(o.value):
                sub.violation(f"{name}:not-a-number", f"n={n} {kind} {kw} {call}: {o.short()} ({type(o.value).__name__})", case)
                continue
            v = float(o.value)
            if not math.isfinite(v):
                if dom:
                    sub.count("outside-domain")
                else:
                    sub.violation(f"{name}:not-finite", f"n={n} {kind} {kw} {call}: {o.short()}", case)
                continue
            tol = 1e-9 * max(1, abs(lo) if math.isfinite(lo) else 1)
            if v < lo - tol or v > hi + tol:
                sub.violation(f"{name}:out-of-range", f"n={n} {kind} {kw} {call}: {v!r} outside [{lo}, {hi}]", case)
            else:
                sub.count("finite-in-range")
    ts = []
    for name in have:
        a, b = C.nmin(name), C.nmax(name)
        for n in sorted({min(max(n, a), b) for n in sizes}):
            for rep in range(1 if not ck.thorough else 3):
                ts.append((name, n, rep))
        b = min([b] + [v for k, v in slow.items() if name.startswith(k)])
        ts += [(name, n, 0) for n in large if n <= (b if n <= 20000 else min(b, huge_cap(name)))]
    ts.sort(key=lambda t: -t[1])
    parallel(ck, ts, worker)
    for n in have:
        ck.need(f"executions:{C.short(n)}", 20)
