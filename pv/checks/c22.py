"""C22: GoodnessOfFitTest decisions recomputed from what the resolver really delivered."""
import numpy as np
from pv import catalog as C
from pv.core import observe, close, parallel
from pv.checks.c20 import limits
from pv.spy import SpyStatistic, FixedResolver, TeeResolver, decide_by_p, critical, outside, between
RULE = ("GoodnessOfFitTest.test() with stand-in criteria (chosen value, chosen tail) and stand-in limit samples of size 1..100001, and "
        "with every real criterion under a recorded Monte Carlo resolver; evaluation = one TestResult recomputed from the limit "
        "sample the resolver delivered; non-trivial = limit sample of >= 2 values; both methods, three tails, levels 1e-4..0.999")
ASSUMPTIONS = ["levels are in (0,1); statistic values are finite"]
LEVELS = [1e-4, .001, .01, .025, .05, .1, .2, .25, .5, .75, .9, .999]


def judge(ck, tag, side, limit, s, level, res, method, case):
    """One result object against the limit sample."""
    ck.ev()
    ck.count(f"decisions:{method}:{side}")
    if len(limit) > 1:
        ck.nontrivial(tag, side, method, round(float(s), 12), level, len(limit), round(float(limit[0]), 9))
    try:
        stat, sl, p, cv, rej = res.statistic, res.significance_level, res.p_value, res.critical_value, res.rejected
    except AttributeError as e:
        ck.violation(f"{tag}:{method}:result-shape", f"{e}", case)
        return None
    if not (stat == s):
        ck.violation(f"{tag}:{method}:statistic", f"reported statistic {stat!r}, criterion value {s!r}", case)
    if sl != level:
        ck.violation(f"{tag}:{method}:level", f"reported level {sl!r}, requested {level!r}", case)
    if not isinstance(rej, (bool, np.bool_)):
        ck.violation(f"{tag}:{method}:flag-type", f"rejected is {rej!r}", case)
    if method == "p":
        want = decide_by_p(side, limit, s, level)
        if p is None or cv is not None:
            ck.violation(f"{tag}:p:fields", f"p_value={p!r} critical_value={cv!r}", case)
            return None
        if not close(p, want, 1e-9, 1e-12):
            ck.violation(f"{tag}:p:{side}:p-value", f"reported p-value {p!r}, limit sample gives {want!r}", case)
        if bool(rej) != (p <= level):
            ck.violation(f"{tag}:p:{side}:decision", f"p-value {p!r} level {level!r} rejected={rej!r}", case)
    else:
        want = critical(side, limit, level)
        if cv is None or p is not None:
            ck.violation(f"{tag}:cv:fields", f"p_value={p!r} critical_value={cv!r}", case)
            return None
        got = tuple(cv) if side == "two_tailed" and np.ndim(cv) else (cv,)
        scale = max(abs(min(limit)), abs(max(limit)))
        if len(got) != len(want) or not all(close(g, w, 1e-9, 1e-11 * scale + 1e-300) for g, w in zip(got, want)):
            ck.violation(f"{tag}:cv:{side}:critical-value", f"reported critical value {cv!r}, limit sample gives {want!r}", case)
            return bool(rej)
        if bool(rej) != outside(side, got, s):
            ck.violation(f"{tag}:cv:{side}:decision", f"statistic {s!r} critical value {cv!r} rejected={rej!r}", case)
    return bool(rej)


def pair(ck, tag, side, limit, s, level, a, b, case):
    """a: p-value method, b: critical-value method."""
    if a is None or b is None:
        return
    ck.count("method-pairs")
    if a != b:
        ck.count("method-pairs-differing")
        cv = critical(side, limit, level)
        if min(between(limit, s, c) for c in cv) > 1:
            ck.violation(f"{tag}:{side}:methods-disagree", f"p-value method rejected={a}, critical-value method rejected={b}; statistic {s!r}, "
                         f"critical value {cv!r}", case)


def real(ck, task):
    import pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test as G
    from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver as MC
    name, vi = task
    cls = C.classes()[name]
    fam = C.family(cls)
    kw = C.variants(name, fam)[vi]
    r = ck.rng(name, vi)
    n = min(max(C.nmin(name), 12), C.nmax(name))
    case = {"criterion": name, "kwargs": kw}
    o = observe(cls, **kw)
    if o.kind != "ok":
        ck.violation(f"{name}:construct", o.short(), case)
        return
    stat = o.value
    side = stat.alternative().type().value
    tee = TeeResolver(MC(40))
    np.random.seed(int(r.integers(2 ** 31)))
    for kind, levels in (("null", (.3,)), ("high", (.05,))) if not ck.thorough else (("null", (.05, .3)), ("high", (.05, .3))):
        x = [float(v) for v in C.sample(fam, kw, n, r, kind)]
        x0 = list(x)
        for level in levels:
            for m, meth in (("p", G.PValueDecisionMethod), ("cv", G.CriticalValueDecisionMethod)):
                o = observe(G.GoodnessOfFitTest(stat).test, x, level, meth(tee), cpu=60)
                if o.kind != "ok":
                    ck.violation(f"{name}:test-raised", f"{kw}: {o.short()}", {**case, "sample": x0})
                    return
                if x != x0:
                    ck.violation(f"{name}:sample-modified", "test() changed the caller's sample", case)
                    x = list(x0)
                v = observe(cls(**kw).execute_statistic, list(x0))
                if v.kind != "ok" or not np.isfinite(v.value):
                    ck.count("real-nonfinite")
                    continue
                limit = tee.got[-1]
                if limit is None or not all(np.isfinite(limit)):
                    ck.count("real-nonfinite")
                    continue
                ck.count("real-tests")
                c = {**case, "sample": x0, "level": level, "limit": limit}
                if close(o.value.statistic, v.value, 1e-9, 1e-12):
                    judge(ck, "real", side, limit, o.value.statistic, level, o.value, m, c)
                else:
                    ck.violation("real:statistic", f"{name} {kw}: test() reports {o.value.statistic!r}, execute_statistic gives {v.value!r}", c)
    ck.sample("real", case)


def reuse(ck):
    """One decision-method object (and one GoodnessOfFitTest object) serving many different tests in a row."""
    import pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test as G
    from pysatl_criterion.statistics.alternative import AlternativeType as AT
    from pysatl_criterion.hypothesis_testing.limit_distribution.base import AbstractLimitDistributionResolver
    from pysatl_criterion.statistics import goodness_of_fit as gof
    r = ck.rng("reuse")
    KS = getattr(gof, "KolmogorovSmirnovNormalityGofStatistic")
    EXP = getattr(gof, "KolmogorovSmirnovExponentialityGofStatistic")

    class Varying(AbstractLimitDistributionResolver):
        """A different limit sample on every request, as a simulating resolver gives."""

        def __init__(self):
            self.calls, self.got = [], []

        def resolve(self, statistic, sample_size):
            self.calls.append((statistic, sample_size))
            m = int(r.choice([1, 7, 50, 200]))
            self.got.append([float(v) for v in np.abs(r.normal(size=m)) * r.choice([.1, .3, 1.0])])
            return list(self.got[-1])

    for m, cls in (("p", G.PValueDecisionMethod), ("cv", G.CriticalValueDecisionMethod)):
        for real in (True, False):
            res = Varying()
            meth = cls(res)
            made = []
            for j in range(60 if not ck.thorough else 600):
                same = made and r.random() < .3
                if same:  # the same criterion object again
                    stat, t, n = made[int(r.integers(len(made)))]
                elif real:
                    n = int(r.choice([5, 9]))
                    stat = KS(mean=float(r.choice([0.0, .2, -.3])), var=float(r.choice([1.0, 2.0])),
                              alternative_type=AT(str(r.choice(["left", "right", "two_tailed"])))) if r.random() < .7 else EXP(lam=float(r.choice([1.0, 2.0])))
                    t = G.GoodnessOfFitTest(stat)
                else:
                    n = int(r.choice([5, 9]))
                    stat = SpyStatistic(params={"mean": float(r.choice([0.0, 1.0]))}, side=AT(str(r.choice(["left", "right", "two_tailed"]))),
                                        fn=lambda x, i: abs(float(np.mean(x))))
                    t = G.GoodnessOfFitTest(stat)
                made.append((stat, t, n))
                x = [float(v) for v in r.normal(size=n)]
                level = float(r.choice(LEVELS))
                case = {"step": j, "method": m, "criterion": type(stat).__name__, "params": repr(stat.hypothesis()), "sample": x, "level": level}
                k = len(res.calls)
                o = observe(t.test, list(x), level, meth)
                if o.kind != "ok":
                    ck.violation(f"reuse:{m}:raised", o.short(), case)
                    continue
                ck.count("reused-tests")
                new = res.calls[k:]
                if len(new) != 1 or new[0][0] is not stat or new[0][1] != n:
                    ck.violation("reuse:resolver-request", f"test {j} with one decision-method object: the resolver was asked "
                                 f"{[(c[0] is stat, c[1]) for c in new]} (sample size {n})", case)
                    continue
                s = observe(stat.execute_statistic, list(x)).value
                if s != s:
                    continue
                judge(ck, "reuse", stat.alternative().type().value, res.got[-1], float(s), level, o.value, m, {**case, "limit": res.got[-1]})
    ck.need("reused-tests", 200)


def run(ck):
    import pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test as G
    from pysatl_criterion.statistics.alternative import AlternativeType as AT
    r = ck.rng("c22")
    METH = {"p": G.PValueDecisionMethod, "cv": G.CriticalValueDecisionMethod}
    for j, (kind, limit) in enumerate(limits(ck, r)):
        if not ck.thorough and j % 2:
            continue
        sx = sorted(limit)
        i = int(r.integers(len(sx)))
        vals = {sx[0], sx[-1], sx[i], sx[0] - 1 - abs(sx[0]), sx[-1] + 1 + abs(sx[-1]), (sx[0] + sx[-1]) / 2}
        q = sorted(float(v) for v in r.choice(LEVELS, 5, replace=False)) + [float(r.random())]
        # values close to the critical values of one level
        vals |= {c for sd in ("left", "right", "two_tailed") for c in critical(sd, limit, q[2])}
        levels = sorted(set(q))
        vals = sorted(vals)
        if len(vals) > 6 and not ck.thorough:
            vals = [vals[int(j)] for j in sorted(r.choice(len(vals), 6, replace=False))]
        for side in ("left", "right", "two_tailed"):
            for s in vals:
                n = int(r.integers(1, 40))
                x = [float(v) for v in r.normal(size=n)]
                prev = {"p": False, "cv": False}
                for level in levels:
                    dec = {}
                    for m in METH:
                        stat = SpyStatistic(side=AT(side), fn=lambda rv, j, s=s: s)
                        res = FixedResolver(list(limit))
                        x0 = list(x)
                        case = {"limit": limit, "statistic": s, "level": level, "side": side, "method": m}
                        o = observe(G.GoodnessOfFitTest(stat).test, x0, level, METH[m](res))
                        if o.kind != "ok":
                            ck.violation(f"stand-in:{m}:{side}:raised", o.short(), case)
                            continue
                        if x0 != x:
                            ck.violation("stand-in:sample-modified", "test() changed the caller's sample", case)
                        if res.values != limit:
                            ck.violation(f"stand-in:{m}:limit-modified", "test() changed the resolver's list", case)
                        if len(res.calls) != 1 or res.calls[0][0] is not stat or res.calls[0][1] != n:
                            ck.violation("stand-in:resolver-request", f"resolver asked {[(c[0] is stat, c[1]) for c in res.calls]}, sample size {n}", case)
                        if stat.calls != [x]:
                            ck.violation("stand-in:criterion-input", f"criterion evaluated on {len(stat.calls)} samples, not once on the given one", case)
                        dec[m] = judge(ck, "stand-in", side, limit, s, level, o.value, m, case)
                        if dec[m] is not None:
                            if prev[m] and not dec[m]:
                                ck.violation(f"stand-in:{m}:{side}:level-monotone", f"rejected at a smaller level but not at {level}", case)
                            prev[m] = dec[m]
                    pair(ck, "stand-in", side, limit, s, level, dec.get("p"), dec.get("cv"), {"limit": limit, "statistic": s, "level": level})
        ck.sample(kind, {"limit": limit[:8], "n": len(limit), "levels": levels})
    reuse(ck)
    # failures are reported, not turned into a result
    for m in METH:
        for side in AT:
            ck.ev()
            o = observe(G.GoodnessOfFitTest(SpyStatistic(side=side)).test, [1., 2.], .05, METH[m](FixedResolver(None)))
            ck.count("failure-cases")
            if o.kind != "exc" or not isinstance(o.exc, ValueError):
                ck.violation(f"{m}:no-limit-distribution", f"missing limit distribution gave {o.short()} instead of ValueError", [m, side.value])
            ck.ev()
            boom = RuntimeError("resolver failure")
            o = observe(G.GoodnessOfFitTest(SpyStatistic(side=side)).test, [1., 2.], .05, METH[m](FixedResolver([1.], boom)))
            if o.kind != "exc" or o.exc is not boom:
                ck.violation(f"{m}:resolver-failure-hidden", f"{o.short()}", [m])

            def bad(x, i):
                raise ZeroDivisionError("criterion failure")
            ck.ev()
            o = observe(G.GoodnessOfFitTest(SpyStatistic(side=side, fn=bad)).test, [1., 2.], .05, METH[m](FixedResolver([1.])))
            if o.kind != "exc" or not isinstance(o.exc, ZeroDivisionError):
                ck.violation(f"{m}:criterion-failure-hidden", f"{o.short()}", [m])
    # default method and default resolver
    for meth, kw in ((None, {}), (METH["p"], {}), (METH["cv"], {})):
        stat = SpyStatistic(params={"mean": 0, "var": 1}, side=AT.RIGHT)
        np.random.seed(ck.seed)
        o = observe(G.GoodnessOfFitTest(stat).test, [.1, .2, .3], .1, meth() if meth else None, cpu=120)
        ck.ev()
        if o.kind != "ok":
            ck.violation("default:raised", o.short(), str(meth))
            continue
        lim = stat.values[1:] if stat.calls and stat.calls[0] == [.1, .2, .3] else stat.values[:-1]
        m = "p" if meth is METH["p"] else "cv"
        if len(lim) != 10000:
            ck.violation("default:count", f"default resolver evaluated {len(lim)} simulated samples, documented 10000", str(meth))
        else:
            judge(ck, "default", "right", lim, .1 + .2 + .3 if stat.values[0] == .1 + .2 + .3 else o.value.statistic, .1, o.value, m, "default method")
            ck.count("default-tests")
    names = C.classes()
    tasks = [(nm, int(v)) for nm, cls in names.items()
             for v in (range(len(C.variants(nm, C.family(cls)))) if ck.thorough else [ck.seed % len(C.variants(nm, C.family(cls)))])
             if not (C.family(cls) == "student" and (kw := C.variants(nm, "student")[v]).get("loc"))]
    parallel(ck, tasks, real)
    for side in ("left", "right", "two_tailed"):
        for m in METH:
            ck.need(f"decisions:{m}:{side}", 1000)
    ck.need("real-tests", 400)
    ck.need("default-tests", 3)
