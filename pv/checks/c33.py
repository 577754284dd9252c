"""C33: a missing (not-a-number) observation or an undefined simulated value never turns into a value, a p-value or a decision."""
import math
import numpy as np
from pv import catalog as C
from pv.core import observe, parallel
from pv.formula import random_kw
from pv.meta import call_options
from pv.spy import SpyStatistic, FixedResolver
RULE = ("every criterion class x parameterisation x size with not-a-number observations at chosen and random positions (first, last, several, all) in arrays, lists "
        "and tuples, evaluated directly and through GoodnessOfFitTest with both decision methods; stand-in criteria with undefined values under limit samples of 1..20011 "
        "values with undefined values at random positions; evaluation = one outcome classified (exception, nan, or a number); non-trivial = distinct case")
ASSUMPTIONS = ["an exception or a not-a-number statistic are both acceptable answers of a criterion; a test or a calculator has no not-a-number answer and must raise",
               "levels whose quantile lies beside an undefined simulated value count as undefined as well (NumPy's quantile convention)"]
FORMS = {"array": np.array, "list": lambda x: [float(v) for v in x], "tuple": lambda x: tuple(float(v) for v in x), "float32": lambda x: np.array(x, np.float32)}


def outcome(o):
    if o.kind == "exc":
        return "raised"
    try:
        v = float(o.value)
    except (TypeError, ValueError):
        return "other"
    return "nan" if math.isnan(v) else "value"


def spots(n, r, kind):
    if kind == "first":
        return [0]
    if kind == "last":
        return [n - 1]
    if kind == "one":
        return [int(r.integers(n))]
    if kind == "two":
        return sorted(set(int(v) for v in r.integers(0, n, 2)))
    if kind == "half":
        return [int(v) for v in r.permutation(n)[: max(1, n // 2)]]
    return list(range(n))


def criterion(ck, task):
    import pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test as G
    name, n, rep = task
    cls = C.classes()[name]
    fam = C.family(cls)
    r = ck.rng(*task)
    vs = C.variants(name, fam)
    off = int(r.integers(len(vs)))
    slow = name.startswith(("Graph", "BHS", "Rossberg", "Ahsanullah", "Hollander"))
    for i, kind in enumerate(("first", "last", "one", "two", "half", "all", "one", "one")):
        kw = vs[(i + off) % len(vs)]
        if r.random() < .3 and not name.startswith("RyanJoiner"):
            kw = {**{k: v for k, v in kw.items() if k not in C.PARAMS[fam][0]}, **random_kw(name, fam, r, extreme=0)}
        base = C.sample(fam, kw, n, r, str(r.choice(["null", "null", "high"])))
        if r.random() < .3:
            base = np.sort(base)[::int(r.choice([1, -1]))]
        if not np.all(np.isfinite(base)):
            continue
        where = spots(n, r, kind)
        x = np.array(base, float)
        x[where] = float("nan")
        form = str(r.choice(["array", "array", "list", "tuple"]))
        opts = call_options(name)
        call = opts[int(r.integers(len(opts)))] if i % 2 else {}
        case = {"class": name, "kwargs": kw, "call": call, "n": n, "missing": where[:10], "form": form, "sample": x}
        o = observe(lambda: cls(**kw).execute_statistic(FORMS[form](x), **call), cpu=60)
        ck.ev()
        ck.nontrivial(name, kind, n, form, float(base[0]))
        ck.count(f"executions:{C.short(name)}")
        ck.count("missing:" + kind)
        ck.sample("criterion-" + kind, case)
        if o.kind == "hang":
            ck.violation(f"{name}:hang", f"no answer for a sample of {n} with missing values at {where[:5]}", case)
            continue
        how = outcome(o)
        ck.count("outcome:" + how)
        if how in ("value", "other"):
            ck.violation(f"{name}:value-from-missing", f"n={n}, missing at {where[:5]}, {form}, {kw} {call}: {o.short()} instead of nan or an error", case)
        if i < (3 if not slow else 1):
            for m, meth in (("p", G.PValueDecisionMethod), ("cv", G.CriticalValueDecisionMethod)):
                limit = [float(v) for v in r.normal(size=int(r.choice([1, 5, 60])))]
                o = observe(G.GoodnessOfFitTest(cls(**kw)).test, FORMS[form](x), float(r.choice([.01, .05, .3])), meth(FixedResolver(limit)), cpu=60)
                ck.ev()
                ck.count("tests-on-missing")
                if o.kind != "exc":
                    ck.violation(f"{name}:{m}:decision-from-missing", f"n={n}, missing at {where[:5]}: {o.short()} instead of an error", {**case, "limit": limit})


def pipeline(ck):
    """Undefined statistic values and undefined simulated values."""
    import pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test as G
    from pysatl_criterion.statistics.alternative import AlternativeType as AT
    from pysatl_criterion.hypothesis_testing.alternative_factory.alternative_factories import AbstractAlternativeFactory as F
    from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver as MC
    METH = {"p": G.PValueDecisionMethod, "cv": G.CriticalValueDecisionMethod}
    r = ck.rng("pipeline")
    nans = [float("nan"), -float("nan"), np.nan, np.float64("nan"), np.float32("nan")]
    for j in range(400 if not ck.thorough else 6000):
        m = int(r.choice([1, 2, 3, 10, 99, 100, 1000, 20011] if j % 20 == 0 else [1, 2, 3, 10, 64, 99, 100, 257]))
        limit = [float(v) for v in (r.normal(size=m) if j % 3 else np.round(r.normal(size=m), 1))]
        level = float(r.choice([1e-4, .001, .01, .05, .1, .3, .5, .9, .999]))
        s = float(r.choice([limit[int(r.integers(m))], r.normal() * 3, -100, 100, 0.0, np.inf, -np.inf]))
        what = ("statistic", "limit", "both")[j % 3]
        nan = nans[int(r.integers(len(nans)))]
        dirty = list(limit)
        where = spots(m, r, str(r.choice(["first", "last", "one", "one", "two", "half", "all"])))
        for w in where:
            dirty[w] = nan
        if r.random() < .3:
            dirty = np.array(dirty, float)
        lim = list(limit) if what == "statistic" else dirty
        val = nan if what != "limit" else s
        for side in ("left", "right", "two_tailed"):
            case = {"what": what, "size": m, "undefined-at": where[:10] if what != "statistic" else [], "statistic": val, "level": level, "side": side,
                    "limit": [float(v) for v in lim[:50]]}
            ck.nontrivial(what, side, m, level, float(limit[0]))
            ck.sample(what, case)
            for meth in METH:
                stat = SpyStatistic(side=AT(side), fn=lambda rv, i: val)
                o = observe(G.GoodnessOfFitTest(stat).test, [.1, .2, .3], level, METH[meth](FixedResolver(lim)))
                ck.ev()
                ck.count(f"undefined-{what}:{meth}:{side}")
                if o.kind != "exc":
                    ck.violation(f"pipeline:{what}:{meth}:{side}", f"undefined {what}: {o.short()} instead of an error (level {level}, {m} simulated values)", case)
            fac = F.get_concrete_factory(AT(side))
            o = observe(lambda: fac.get_p_value_calculator().calculate(lim, val))
            ck.ev()
            ck.count("calculators")
            if o.kind != "exc" and outcome(o) != "nan":
                ck.violation(f"p-value:{what}:{side}", f"undefined {what}: p-value {o.short()}", case)
            if what != "statistic":
                o = observe(lambda: fac.get_critical_value_calculator().calculate(lim, level))
                ck.ev()
                ck.count("calculators")
                if o.kind != "exc" and not all(math.isnan(float(v)) for v in np.ravel(o.value)):
                    ck.violation(f"critical-value:{side}", f"undefined simulated values: critical value {o.short()}", case)
            else:
                area = fac.get_critical_area((-1.0, 1.0) if side == "two_tailed" else 0.5)
                o = observe(lambda: area.contains(val))
                ck.ev()
                ck.count("areas")
                if o.kind != "exc":
                    ck.violation(f"area:{side}", f"contains(nan) is {o.short()}", case)
            # the same inputs without the undefined values do get a decision
            if what == "limit" and math.isfinite(s):
                for meth in METH:
                    o = observe(G.GoodnessOfFitTest(SpyStatistic(side=AT(side), fn=lambda rv, i: s)).test, [.1, .2, .3], level, METH[meth](FixedResolver(limit)))
                    ck.ev()
                    ck.count("complete-controls")
                    if o.kind != "ok" or not isinstance(o.value.rejected, (bool, np.bool_)):
                        ck.violation(f"pipeline:complete:{meth}:{side}", f"complete data refused: {o.short()}", case)
    # a criterion that is undefined now and then while it is being simulated
    for j in range(24 if not ck.thorough else 200):
        bad = set(int(v) for v in r.integers(1, 41, int(r.integers(1, 4))))
        side, meth = ("left", "right", "two_tailed")[j % 3], ("p", "cv")[j % 2]
        first = bool(j % 4 == 3)
        stat = SpyStatistic(params={"mean": 0, "var": 1}, side=AT(side))
        stat.fn = lambda rv, i: float("nan") if id(rv) not in own and len(stat.values) in bad else float(np.mean(rv))
        x = [.1, .2, .3]
        own = {id(x)} if not first else set()
        if first:
            bad.add(0)
        o = observe(G.GoodnessOfFitTest(stat).test, x, .05, METH[meth](MC(40)))
        ck.ev()
        ck.count("simulated-undefined")
        if not any(v != v for v in stat.values):
            continue
        if o.kind != "exc":
            ck.violation(f"simulation:{meth}:{side}", f"{sum(v != v for v in stat.values)} of {len(stat.values)} evaluations undefined: {o.short()}", {"undefined": sorted(bad)})
    # undefined p-values never get an adjusted value or a decision
    from pysatl_criterion import BenjaminiYekutieli, BonferroniMultipleTesting, Holm, SidakHolm, SidakMultipleTesting
    for cls in (BenjaminiYekutieli, BonferroniMultipleTesting, Holm, SidakHolm, SidakMultipleTesting):
        for j in range(30):
            n = int(r.integers(1, 30))
            p = [float(v) for v in r.random(n)]
            w = spots(n, r, ("first", "last", "one", "two", "half", "all")[j % 6])
            for i in w:
                p[i] = nans[int(r.integers(len(nans)))]
            o = observe(cls.test, list(p), .05)
            ck.ev()
            ck.count("p-value-lists")
            if o.kind != "exc":
                ck.violation(f"multiple-testing:{cls.__name__}", f"{n} p-values, undefined at {w[:5]}: {o.short()}", p)


def run(ck):
    sizes = [5, 9, 20, 61, 150] if not ck.thorough else [4, 5, 6, 7, 8, 9, 10, 12, 20, 35, 61, 120, 150, 200, 520]
    ts = []
    for name in C.classes():
        a, b = C.nmin(name), C.nmax(name)
        for n in sorted({min(max(n, a), b) for n in sizes}):
            ts += [(name, n, rep) for rep in range(1 if not ck.thorough else 3)]
    ts.sort(key=lambda t: -t[1])
    parallel(ck, ts, criterion)
    pipeline(ck)
    for name in C.classes():
        ck.need(f"executions:{C.short(name)}", 15 if C.nmin(name) < C.nmax(name) else 3)
    for what in ("statistic", "limit", "both"):
        for m in ("p", "cv"):
            for side in ("left", "right", "two_tailed"):
                ck.need(f"undefined-{what}:{m}:{side}", 100)
    ck.need("simulated-undefined", 20)
