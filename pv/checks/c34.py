"""C34: nulls that are no distribution and samples that cannot come from the null never get an acceptance."""
import math
import numpy as np
from pv import catalog as C
from pv.core import observe, parallel
from pv.formula import random_kw
from pv.spy import FixedResolver
RULE = ("every criterion class under parameterisations that define no distribution (zero, negative, not a number, empty interval) and under valid ones from the whole "
        "range; every beta and uniform criterion on samples with observations outside the support (next float outside .. infinite, at every kind of position) or "
        "exactly on its boundary; log-normal criteria on samples with non-positive observations, through both decision methods; evaluation = one construction, "
        "execution or test classified; non-trivial = distinct case")
ASSUMPTIONS = ["a null with variance zero counts as a (degenerate) distribution", "Kolmogorov-Smirnov, Cramer-von Mises and Quesenberry-Miller log-normal criteria place "
               "non-positive observations at cumulative probability zero and may accept"]
STRICT = ("beta", "gamma", "student", "uniform", "log_normal")
BAD = {"normal": ["var"], "exponent": ["lam"], "weibull": ["a", "k"], "student": ["df", "scale"], "gamma": ["alpha", "beta"], "beta": ["alpha", "beta"],
       "log_normal": ["s", "scale"]}
EDF = ("KolmogorovSmirnov", "CramerVonMise", "QuesenberryMiller")


def invalid(fam, name, r, kind):
    kw = random_kw(name, fam, r)
    if fam == "uniform":
        a = kw["a"]
        b = {"zero": a, "negative": a - abs(kw["b"] - a), "tiny": float(np.nextafter(a, -math.inf)), "nan": math.nan}[kind]
        return {"a": a, "b": b} if r.random() < .5 or kind != "nan" else {"a": b, "b": a}
    key = str(r.choice([k for k in BAD[fam] if k in kw]))
    kw[key] = {"zero": 0 if r.random() < .5 else 0.0, "negative": -float(kw[key]), "tiny": -float(np.exp(r.uniform(-700, -1))), "nan": math.nan}[kind]
    return kw


def nulls(ck, task):
    import pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test as G
    from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver as MC
    name, rep = task
    cls = C.classes()[name]
    fam = C.family(cls)
    r = ck.rng("nulls", name, rep)
    if name.startswith("RyanJoiner") and fam == "normal":
        return
    for kind in ("zero", "negative", "tiny", "nan"):
        if fam == "normal" and kind == "zero":
            continue
        kw = invalid(fam, name, r, kind)
        opts = [{k: v for k, v in o.items() if k not in C.PARAMS[fam][0]} for o in C.variants(name, fam)]
        kw = {**opts[int(r.integers(len(opts)))], **kw}
        case = {"class": name, "kwargs": kw, "kind": kind}
        o = observe(cls, **kw)
        ck.ev()
        ck.nontrivial("null", name, str(kw))
        ck.count(f"invalid:{fam}:{kind}")
        ck.sample(f"invalid-{fam}", case)
        if fam in STRICT and kind != "nan":
            if o.kind != "exc" or not isinstance(o.exc, ValueError):
                ck.violation(f"{name}:constructed", f"{name}({kw}) gave {o.short()} instead of a ValueError", case)
            else:
                ck.count("refused-at-construction")
        if o.kind == "exc":
            ck.count(f"refused:{name}")
            continue
        n = min(max(C.nmin(name), 9), C.nmax(name))
        x = C.sample(fam, C.PARAMS[fam][0], n, r, "null")
        for m, meth in (("p", G.PValueDecisionMethod), ("cv", G.CriticalValueDecisionMethod)):
            t = observe(G.GoodnessOfFitTest(o.value).test, x, .05, meth(MC(5)), cpu=30)
            ck.ev()
            ck.count(f"refused:{name}")
            if t.kind != "exc":
                ck.violation(f"{name}:{m}:decided-on-invalid-null", f"{kw}: {t.short()} instead of an error", case)
    for j in range(6):
        kw = random_kw(name, fam, r, extreme=.6)
        o = observe(cls, **kw)
        ck.ev()
        ck.count("valid-nulls")
        ck.nontrivial("valid", name, str(kw))
        if o.kind != "ok":
            ck.violation(f"{name}:valid-refused", f"{name}({kw}): {o.short()}", {"class": name, "kwargs": kw})


def support(ck, task):
    name, n, rep = task
    cls = C.classes()[name]
    fam = C.family(cls)
    r = ck.rng("support", *task)
    vs = C.variants(name, fam)
    for j in range(10 if n < 2000 else 4):
        kw = vs[int(r.integers(len(vs)))]
        if r.random() < .6:
            kw = {**{k: v for k, v in kw.items() if k not in C.PARAMS[fam][0]}, **random_kw(name, fam, r)}
        a, b = (float(v) for v in C.null(fam, kw).support())
        if fam == "uniform":
            a, b = float(kw.get("a", 0)), float(kw.get("b", 1))
        x = C.sample(fam, kw, n, r, "null")
        x = np.clip(x, np.nextafter(a, math.inf), np.nextafter(b, -math.inf))
        if len(set(x.tolist())) < 3:
            continue
        k = {0: 1, 1: 1, 2: 2, 3: max(1, n // 3), 4: n}[int(r.integers(5))]
        where = {0: np.array([0]), 1: np.array([n - 1])}.get(int(r.integers(4)), r.permutation(n)[:k])
        low = r.random(len(where)) < .5
        how = str(r.choice(["next", "near", "away", "far", "inf"]))
        w = b - a
        d = {"next": None, "near": 1e-9 * w, "away": w * float(r.uniform(.01, 2)), "far": 1e12 * w, "inf": math.inf}[how]
        out = x.copy()
        for i, lo in zip(where, low):
            out[i] = (np.nextafter(a, -math.inf) if lo else np.nextafter(b, math.inf)) if d is None else (min(a - d, np.nextafter(a, -math.inf)) if lo else max(b + d, np.nextafter(b, math.inf)))
        order = str(r.choice(["given", "given", "sorted", "reversed"]))
        if order != "given":
            out = np.sort(out)[::1 if order == "sorted" else -1].copy()
        form = str(r.choice(["array", "list", "tuple"]))
        conv = {"array": np.array, "list": lambda v: [float(t) for t in v], "tuple": lambda v: tuple(float(t) for t in v)}[form]
        case = {"class": name, "kwargs": kw, "n": n, "outside": [int(i) for i in where[:10]], "how": how, "order": order, "form": form, "sample": out}
        o = observe(lambda: cls(**kw).execute_statistic(conv(out)), cpu=30)
        ck.ev()
        ck.count(f"outside:{C.short(name)}:{fam}")
        ck.count("outside-how:" + how)
        ck.nontrivial("out", name, n, how, float(x[0]))
        ck.sample("outside-" + fam, case)
        if o.kind != "exc" or not isinstance(o.exc, ValueError):
            ck.violation(f"{name}:outside-support-accepted", f"n={n} support [{a!r}, {b!r}], {len(where)} observation(s) outside ({how}, {form}, {order}): {o.short()} instead of a ValueError", case)
        # the same sample inside, and reaching exactly to the boundary, is processed
        edge = x.copy()
        at = int(r.integers(4))
        if at & 1:
            edge[int(r.integers(n))] = a
        if at & 2:
            edge[int(r.integers(n))] = b
        o = observe(lambda: cls(**kw).execute_statistic(conv(edge)), cpu=30)
        ck.ev()
        ck.count("inside")
        if o.kind != "ok":
            ck.violation(f"{name}:inside-support-refused", f"n={n} support [{a!r}, {b!r}] sample min {edge.min()!r} max {edge.max()!r}: {o.short()}", {**case, "sample": edge})


def positive(ck, task):
    """Log-normal criteria: a non-positive observation is impossible under the null."""
    import pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test as G
    from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver as MC
    name, rep = task
    cls = C.classes()[name]
    r = ck.rng("positive", name, rep)
    for n in (8, 25, 60, int(r.choice([130, 210, 320, 650]))):
        n = min(max(n, C.nmin(name)), C.nmax(name))
        vs = C.variants(name, "log_normal")
        kw = {**vs[int(r.integers(len(vs)))]}
        stat = cls(**kw)
        np.random.seed(int(r.integers(2 ** 31)))
        o = observe(MC(40 if n < 100 else 25).resolve, stat, n, cpu=60)
        if o.kind != "ok" or not all(math.isfinite(v) for v in o.value):
            ck.count("no-limit")
            continue
        limit = list(o.value)
        for j in range(5):
            x = C.sample("log_normal", kw, n, r, "null")
            k = int(r.choice([1, 1, 2, n]))
            for i in r.permutation(n)[:k]:
                x[i] = float(r.choice([0.0, -0.0, -5e-324, -1e-300, -1e-6, -1.0, -1e6, -math.inf, -abs(r.normal()), -x[i], -x[i]]))
            if r.random() < .3:
                x = np.sort(x)[::int(r.choice([1, -1]))]
            level = float(r.choice([.01, .05, .2]))
            for m, meth in (("p", G.PValueDecisionMethod), ("cv", G.CriticalValueDecisionMethod)):
                t = observe(G.GoodnessOfFitTest(stat).test, list(x) if j % 2 else x, level, meth(FixedResolver(limit)), cpu=30)
                ck.ev()
                ck.count(f"impossible:{name}")
                ck.nontrivial("positive", name, n, float(x[0]), m)
                case = {"class": name, "kwargs": kw, "level": level, "method": m, "sample": x, "limit": limit}
                ck.sample("impossible", case)
                if t.kind == "exc":
                    ck.count("impossible-refused")
                elif bool(t.value.rejected):
                    ck.count("impossible-rejected")
                else:
                    ck.violation(f"{name}:impossible-accepted", f"n={n} smallest observation {min(x)!r} ({stat.alternative().type().value}): accepted, {t.value}", case)


def run(ck):
    have = C.classes()
    reps = 2 if not ck.thorough else 10
    parallel(ck, [(n, i) for n in have for i in range(reps)], nulls)
    bounded = [n for n in have if C.family(have[n]) in ("beta", "uniform")]
    ts = []
    for name in bounded:
        for n in sorted({min(max(n, C.nmin(name)), C.nmax(name)) for n in ([6, 15, 80, 1100, 5003] if not ck.thorough else [4, 5, 6, 7, 10, 15, 33, 80, 260, 1100, 5003])}):
            ts += [(name, n, i) for i in range(12 if ck.thorough else 2 if n < 2000 else 1)]
    parallel(ck, ts, support)
    logs = [n for n in have if C.family(have[n]) == "log_normal" and not n.startswith(EDF)]
    parallel(ck, [(n, i) for n in logs for i in range(1 if not ck.thorough else 10)], positive)
    for n in bounded:
        ck.need(f"outside:{C.short(n)}:{C.family(have[n])}", 20)
    for n in logs:
        ck.need(f"impossible:{n}", 10)
    for n in have:
        if not (n.startswith("RyanJoiner") and C.family(have[n]) == "normal"):
            ck.need(f"refused:{n}", 4)
