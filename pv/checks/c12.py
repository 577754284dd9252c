"""C12: invariance of composite-null criteria and equivariance of simple-null criteria."""
import math
import numpy as np
from pv import catalog as C
from pv.core import close, parallel
from pv.meta import tasks, cases, value, call_options
RULE = ("every criterion class with a nuisance or location/scale/interval parameter x constructor variants x sizes x shapes x group elements (location and scale, "
        "scale, scale and power, interval maps; small, moderate and extreme); the base sample is recomputed from the rounded moved sample, so both executions see "
        "the same data up to one rounding; evaluation = one moved execution compared; non-trivial = distinct (class, sample, group element)")
ASSUMPTIONS = ["counting and binned statistics are compared on samples without ties, where rounding cannot move an observation across a boundary",
               "the OK, SB and Sb Weibull estimators are compared up to the drift of their published four-digit weights under a change of scale",
               "group elements are limited to where the moved sample still carries at least eight significant digits of the original one"]
COUNTING = ("LOSWeibull", "Rossberg", "Ahsanullah", "HollanderProshan", "Deshpande", "Chi2Pearson", "LikelihoodRatio", "CressieRead", "ChiSquare", "Graph")
POWER_EDF = ("KolmogorovSmirnov", "CrammerVonMises", "Lilliefors", "Watson", "MinToshiyuki", "LiaoShimokawa", "MahdiDoostparast")
TOL = {"LaplaceTransform": (1e-4, 1e-5), "CabanaQuiroz": (1e-4, 1e-5), "SPP": (1e-4, 1e-5), "AndersonDarlingWeibull": (1e-3, 1e-4),
       "KLSupremum": (1e-4, 1e-5), "KLIntegral": (1e-3, 1e-4), "MahdiDoostparast": (1e-5, 1e-6)}


def lu(rng, lo, hi):
    return float(np.exp(rng.uniform(math.log(lo), math.log(hi))))


def moves(name, fam, kw, x, rng, thorough):
    """Yields (label, base sample, moved sample, moved kwargs)."""
    comp = C.composite(name, fam)
    graph = name.startswith("Graph")
    if fam == "normal":
        sd = float(np.std(x))
        els = [("location", float(rng.normal(0, 30)) * sd, 1.0), ("scale", 0.0, lu(rng, 1e-3, 1e3)), ("both", float(rng.normal(0, 20)), lu(rng, .05, 20)),
               ("far", lu(rng, 1e2, 1e5) * sd, 1.0), ("remote", float(rng.choice([-1, 1])) * lu(rng, 2e6, 1e7) * sd * (len(x) <= 300), 1.0), ("tiny", 0.0, lu(rng, 1e-9, 1e-6)), ("huge", 0.0, lu(rng, 1e6, 1e9)), ("negative", -lu(rng, 10, 1e3) * sd, lu(rng, .1, 10))]
        for lab, c, s in els:
            y = c + s * x
            b = (y - c) / s
            if comp or graph:
                yield ("scale" if graph and s != 1 else "location" if graph else lab), b, y, kw
            elif not name.startswith("RyanJoiner"):
                yield lab, b, y, {**kw, "mean": c + s * kw.get("mean", 0), "var": s * s * kw.get("var", 1)}
    elif fam == "exponent":
        for lab, s in (("scale", lu(rng, .01, 100)), ("tiny", lu(rng, 1e-9, 1e-5)), ("huge", lu(rng, 1e5, 1e9))):
            y = s * x
            b = y / s
            if comp or graph:
                yield "scale" if graph else lab, b, y, kw
            else:
                yield lab, b, y, {**kw, "lam": kw.get("lam", 1) / s}
    elif fam == "weibull":
        for lab, s, p in (("scale", lu(rng, 1e-3, 1e3), 1.0), ("power", 1.0, lu(rng, .2, 5)), ("both", lu(rng, .01, 100), lu(rng, .3, 3)),
                          ("tiny", lu(rng, 1e-12, 1e-8), 1.0), ("huge", lu(rng, 1e8, 1e12), 1.0), ("concentrated", lu(rng, .1, 10), lu(rng, .01, .1))):
            if comp:
                y = np.exp(p * (math.log(s) + np.log(x)))
                b = np.exp(np.log(y) / p - math.log(s))
                yield lab, b, y, kw
            elif name.startswith(POWER_EDF) and s == 1.0 and "k" in kw:
                y = np.exp(p * np.log(x))
                yield lab, np.exp(np.log(y) / p), y, {**kw, "k": kw["k"] / p}
    elif fam == "log_normal":
        sd = float(np.std(np.log(x)))
        for lab, c, p in (("log-scale", 0.0, lu(rng, .1, 3)), ("log-location", float(rng.normal(0, 10)), 1.0), ("both", float(rng.normal(0, 5)), lu(rng, .2, 3)),
                          ("concentrated", float(rng.normal(0, 3)), lu(rng, .001, .01) / max(sd, 1e-3))):
            y = np.exp(c + p * np.log(x))
            b = np.exp((np.log(y) - c) / p)
            if comp:
                yield lab, b, y, kw
            else:
                yield lab, b, y, {**kw, "s": p * kw.get("s", 1), "scale": math.exp(c + p * math.log(kw.get("scale", 1)))}
    elif fam == "uniform":
        a, w = kw.get("a", 0), kw.get("b", 1) - kw.get("a", 0)
        for lab, a2, w2 in (("interval", float(rng.normal(0, 10)), lu(rng, .1, 50)), ("narrow", float(rng.normal(0, 3)), lu(rng, 1e-4, 1e-2)), ("wide", -lu(rng, 1, 1e6), lu(rng, 1e6, 1e8)),
                            ("unit", 0.0, 1.0)):
            y = np.clip(a2 + (x - a) / w * w2, a2, a2 + w2)
            b2 = a2 + w2
            b = np.clip(a + (y - a2) / (b2 - a2) * w, a, a + w)
            yield lab, b, y, {**kw, "a": a2, "b": b2}
    elif fam == "student" and name != "LillieforsStudentGofStatistic":
        for lab, c, s in (("both", float(rng.normal(0, 10)), lu(rng, .05, 20)), ("tiny", 0.0, lu(rng, 1e-6, 1e-3)), ("huge", 0.0, lu(rng, 1e3, 1e6)), ("far", float(rng.normal(0, 1000)), 1.0)):
            y = c + s * x
            b = (y - c) / s
            yield lab, b, y, {**kw, "loc": c + s * kw.get("loc", 0), "scale": s * kw.get("scale", 1)}
    elif fam == "gamma":
        for lab, s in (("scale", lu(rng, .01, 100)), ("tiny", lu(rng, 1e-8, 1e-5)), ("huge", lu(rng, 1e5, 1e8))):
            y = s * x
            b = y / s
            yield lab, b, y, kw if comp else {**kw, "beta": kw.get("beta", 1.0) / s}


def published_drift(name, b, y, u, v):
    """True if a difference is within what the four-digit constants of the published weights (0.6079 * 0.4228 against 0.2570: the
    contrast keeps 2e-5 of the log-location) explain; only the three estimators built on those weights qualify."""
    if name not in ("OKWeibullGofStatistic", "SBWeibullGofStatistic", "SbWeibullGofStatistic"):
        return False
    n, lb, ly = len(b), np.log(b), np.log(y)
    p = np.std(ly) / np.std(lb)
    c = abs(np.mean(ly) / p - np.mean(lb)) * 2.05e-5 * n
    if name.startswith("OK"):
        i = np.arange(1, n + 1)
        sig = np.sum((2 * i - 1 - n) * np.sort(lb)) / (math.log(2) * (n - 1))
        return abs(u - v) <= c / sig / abs(.49 / math.sqrt(n) - .36 / n) + 1e-8 * (1 + abs(u))
    s = math.sqrt(np.sum((lb - np.mean(lb)) ** 2) * n)
    return min(abs(math.sqrt(u) - math.sqrt(v)), math.sqrt(u) + math.sqrt(v)) <= c / s + 1e-8 * (1 + u)


def run(ck):
    sizes = [5, 9, 24, 55] if not ck.thorough else [4, 5, 6, 7, 9, 12, 17, 24, 40, 55, 110, 250]
    reps = 1 if not ck.thorough else 4

    def worker(sub, task):
        name = task[0]
        fam = C.family(C.classes()[name])
        if fam == "beta":
            return
        kinds = ("null", "low", "high", "mid", "edge", "ties", "outlier")
        rt, at = next((v for k, v in TOL.items() if name.startswith(k)), (1e-6, 1e-8))
        for cls, fam, kw, kind, x, rng in cases(sub, task, kinds):
            if name.startswith(COUNTING) and kind == "ties":
                continue
            if name.startswith("Hosking") and kind == "ties" and len(set(np.sort(x)[4:-4].tolist())) < 3:
                continue        # the trimmed L-moments see a constant sample: their ratio is 0 / 0
            opts = call_options(name)
            call = opts[int(rng.integers(len(opts)))]
            for lab, b, y, kw2 in moves(name, fam, kw, x, rng, sub.thorough):
                if not (np.all(np.isfinite(b)) and np.all(np.isfinite(y))) or len(set(b.tolist())) != len(set(x.tolist())):
                    continue
                u, v = value(name, cls, kw, b, call), value(name, cls, kw2, y, call)
                sub.ev()
                sub.count(f"executions:{C.short(name)}")
                sub.nontrivial(name, lab, len(x), float(y[0]), str(kw2))
                case = {"class": name, "kwargs": kw, "sample": b, "moved-kwargs": kw2, "moved-sample": y, "call": call, "value": u.short(), "moved-value": v.short()}
                sub.sample(name, case)
                ok = u.kind == v.kind and (u.kind != "ok" and type(u.exc) is type(v.exc) or u.kind == "ok" and close(u.value, v.value, *((max(rt, 1e-5), max(at, 1e-6)) if lab == "remote" else (rt, at))))
                if ok:
                    continue
                if u.kind == v.kind == "ok" and published_drift(name, b, y, float(u.value), float(v.value)):
                    sub.count("within-published-rounding")
                    continue
                if u.kind == v.kind == "ok":
                    # rounding of the data alone: does the value move as much under one-ulp noise of the moved sample?
                    eps = np.spacing(np.abs(y))
                    moved = False
                    for i in range(3):
                        p = value(name, cls, kw2, np.sort(y + eps * rng.integers(-1, 2, len(y))) if kind == "ties" else y + eps * rng.integers(-1, 2, len(y)), call)
                        moved |= p.kind == "ok" and not close(p.value, v.value, rt / 20, at / 20)
                    if moved:
                        sub.count("ill-conditioned")
                        continue
                sub.violation(f"{name}:{lab}", f"n={len(x)} {kind} {kw}: {u.short()}; after the move {kw2}: {v.short()}", case)
    have = C.classes()
    cap = {n: 12 for n in have if n.startswith(("Rossberg", "Ahsanullah", "HollanderProshan"))}
    parallel(ck, tasks(sizes, reps, cap, big=(260, 1030, 5003) if not ck.thorough else (203, 260, 513, 1030, 2051, 5003)), worker)
    for n, c in have.items():
        f = C.family(c)
        if f == "beta" or n == "LillieforsStudentGofStatistic" or f == "weibull" and n.startswith(("Chi2Pearson", "KullbackLeibler")):
            continue
        ck.need(f"executions:{C.short(n)}", 10)
