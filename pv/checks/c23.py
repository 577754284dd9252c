"""C23: a recording criterion watches every sample the Monte Carlo resolver evaluates."""
import numpy as np
import scipy.stats as st
from pv import catalog as C
from pv.core import observe, parallel
from pv.spy import SpyStatistic
RULE = ("MonteCarloLimitDistributionResolver.resolve() on recording stand-in criteria of all 21 distributions and on real criteria with "
        "a recording execute_statistic; evaluation = one resolution judged against the recorded calls (count, sizes, values, order, "
        "freshness, reproducibility, failure propagation); non-trivial = more than one simulated sample")
ASSUMPTIONS = ["the global NumPy random state is the source of randomness (as the project's generators document)"]

DISTS = {  # valid parameters per distribution
    "NORMAL": dict(mean=1.0, var=4.0), "EXPONENTIAL": dict(lam=2.0), "WEIBULL": dict(a=1.0, k=2.0), "UNIFORM": dict(a=-1.0, b=3.0),
    "STUDENT": dict(df=5.0), "GAMMA": dict(alpha=2.0, beta=3.0), "BETA": dict(alpha=2.0, beta=3.0), "LOG_NORMAL": dict(s=.5, mu=1.0),
    "CAUCHY": dict(t=1.0, s=2.0), "CHI_2": dict(df=3.0), "GOMPERTZ": dict(eta=1.0, b=2.0), "GUMBEL": dict(mu=1.0, beta=2.0),
    "INV_GAUSS": dict(mu=1.0, lam=2.0), "LAPLACE": dict(t=1.0, s=2.0), "LO_CON_NORMAL": dict(p=.3, a=2.0), "LOGISTIC": dict(t=1.0, s=2.0),
    "MIX_CON_NORMAL": dict(p=.3, a=2.0, b=3.0), "RICE": dict(nu=1.0, sigma=2.0), "SCALE_CON_NORMAL": dict(p=.3, b=2.0),
    "TRUNC_NORMAL": dict(mean=0.0, var=1.0, a=-1.0, b=2.0), "TUKEY": dict(lam=.5)}


class Boom(Exception):
    pass


def check_run(ck, tag, calls, values, got, count, size, case):
    ck.ev()
    ck.count("resolutions")
    if count > 1:
        ck.nontrivial(tag, count, size, repr(case)[:200])
    if len(calls) != count:
        ck.violation(f"{tag}:evaluations", f"criterion evaluated {len(calls)} times for a requested count of {count}", case)
        return False
    wrong = [np.shape(c) for c in calls if np.shape(c) != (size,)]
    if wrong:
        ck.violation(f"{tag}:sample-size", f"samples of shape {wrong[:3]} for requested size {size}", case)
        return False
    try:
        g = [float(v) for v in got]
    except TypeError:
        ck.violation(f"{tag}:not-a-list", f"resolve returned {type(got)}", case)
        return False
    if len(g) != count or any(not (a == b or (a != a and b != b)) for a, b in zip(g, values)):
        ck.violation(f"{tag}:values", f"resolve returned {g[:5]} ({len(g)}), the criterion produced {values[:5]} ({len(values)})", case)
        return False
    ck.count("recorded-samples", len(calls))
    arr = np.array(calls, float)
    if count > 1 and np.unique(arr, axis=0).shape[0] != count:
        ck.violation(f"{tag}:repeated-sample", f"{count - np.unique(arr, axis=0).shape[0]} of {count} simulated samples repeat", case)
    return True


def real(ck, task):
    from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver as MC
    name, vi = task
    cls = C.classes()[name]
    fam = C.family(cls)
    kw = C.variants(name, fam)[vi]
    o = observe(cls, **kw)
    if o.kind != "ok":
        return
    stat = o.value
    inner = stat.execute_statistic
    calls, values = [], []

    def rec(rvs, *a, **k):
        calls.append(np.array(rvs, float))
        v = inner(rvs, *a, **k)
        values.append(float(v))
        return v
    stat.execute_statistic = rec
    n = min(max(C.nmin(name), 11), C.nmax(name))
    count = 25
    case = {"criterion": name, "kwargs": kw, "size": n, "count": count}
    outs = []
    for rep in range(2):
        calls.clear(), values.clear()
        np.random.seed(ck.seed * 1000 + vi)
        o = observe(MC(count).resolve, stat, n, cpu=60)
        if o.kind != "ok":
            ck.violation(f"{name}:resolve-raised", f"{kw}: {o.short()}", case)
            return
        if check_run(ck, "real", calls, values, o.value, count, n, case):
            outs.append([float(v) for v in o.value])
            ck.count("real-resolutions")
    if len(outs) == 2 and not np.array_equal(outs[0], outs[1], equal_nan=True):
        ck.violation("real:reproducible", f"{name} {kw}: two resolutions under the same seed differ", case)


def run(ck):
    from pysatl_criterion import DistributionType as DT
    from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver as MC
    r = ck.rng("c23")
    rounds = 4 if not ck.thorough else 40
    for dist in DT:
        par = DISTS.get(dist.name)
        for rd in range(rounds):
            count = int(r.choice([1, 2, 3, 7, 40, 250, 1000])) if rd else int(r.choice([1501, 2049, 2500, 4097, 5003] + ([10007, 20011] if ck.thorough else [])))
            size = int(r.choice([1, 2, 3, 10, 50, 333] if rd else [1, 3, 10])) if rd != 1 else int(r.choice([1, 2, 1001, 4099]))
            if size > 1000:
                count = min(count, 40)
            for params in (par, None) if rd == 0 and dist.name not in ("INV_GAUSS", "GOMPERTZ") else (par,):
                if params is None and dist.name not in ("NORMAL", "EXPONENTIAL", "UNIFORM"):
                    continue
                spy = SpyStatistic(dist, dict(params) if params else None, fn=lambda x, i: float(np.mean(x)) + i * 1e-3)
                case = {"distribution": dist.name, "params": params, "count": count, "size": size}
                mc = MC(count)
                seed = int(r.integers(2 ** 31))
                np.random.seed(seed)
                o = observe(mc.resolve, spy, size, cpu=60)
                if o.kind != "ok":
                    ck.violation(f"{dist.name}:raised", o.short(), case)
                    continue
                a = o.value
                if not check_run(ck, "spy", spy.calls, spy.values, a, count, size, case):
                    continue
                if spy.params != (dict(params) if params else None):
                    ck.violation("spy:params-modified", f"hypothesis parameters now {spy.params}", case)
                a0 = list(a)
                calls_a = list(map(tuple, spy.calls))
                # a second resolution continues the stream: fresh samples, independent list object
                o = observe(mc.resolve, spy, size, cpu=60)
                if o.kind == "ok":
                    if not check_run(ck, "spy", spy.calls[count:], spy.values[count:], o.value, count, size, case):
                        continue
                    if o.value is a or list(a) != a0:
                        ck.violation("spy:shared-result", "the list returned earlier changed or was returned again", case)
                    if set(calls_a) & set(map(tuple, spy.calls[count:])):
                        ck.violation("spy:stale-samples", "a later resolution re-used simulated samples of an earlier one", case)
                    o.value.append(123.0)
                    if len(o.value) and (o.value[-1] != 123.0 or list(a) != a0):
                        ck.violation("spy:shared-result", "results share memory", case)
                # same seed, new resolver, new criterion object
                spy2 = SpyStatistic(dist, dict(params) if params else None, fn=spy.fn)
                np.random.seed(seed)
                o = observe(MC(count).resolve, spy2, size, cpu=60)
                if o.kind != "ok" or list(map(tuple, spy2.calls)) != calls_a or [float(v) for v in o.value] != [float(v) for v in a0]:
                    ck.violation("spy:reproducible", "the same seed gave a different simulation", case)
                else:
                    ck.count("reproduced")
                # serial independence across the samples of one resolution
                z = np.array(spy.calls, float)
                if z.shape[0] >= 250 and z.shape[1] >= 3:
                    u = st.rankdata(z).reshape(z.shape) / z.size
                    for j in range(1, 4):
                        c, p = st.spearmanr(u[:-j, 0], u[j:, 0])
                        c2, p2 = st.spearmanr(u[:, 0], u[:, min(j, z.shape[1] - 1)])
                        ck.count("independence-tests", 2)
                        if min(p, p2) < 1e-9:
                            ck.violation("spy:dependent-samples", f"rank correlation {c:.3f}/{c2:.3f} within one resolution", case)
                ck.sample(dist.name, {**case, "first": a0[:3]})
    # arguments and failures
    for bad in (0, -1, -1000):
        ck.ev(2)
        ck.count("bad-arguments", 2)
        o = observe(MC, bad)
        if o.kind != "exc" or not isinstance(o.exc, ValueError):
            ck.violation("count-not-positive", f"MonteCarloLimitDistributionResolver({bad}) gave {o.short()}", bad)
        spy = SpyStatistic(DT.NORMAL, {"mean": 0, "var": 1})
        o = observe(MC(5).resolve, spy, bad)
        if o.kind != "exc" or not isinstance(o.exc, ValueError) or spy.calls:
            ck.violation("size-not-positive", f"resolve(size={bad}) gave {o.short()}, {len(spy.calls)} evaluations", bad)
    for dist in ("NORMAL", "GAMMA", "UNIFORM"):
        for k in (0, 1, 7, 19):
            def fn(x, i, k=k):
                if i == k:
                    raise Boom(i)
                return float(x[0])
            ck.ev()
            ck.count("injected-failures")
            spy = SpyStatistic(DT[dist], DISTS[dist], fn=fn)
            o = observe(MC(20).resolve, spy, 4)
            if o.kind != "exc" or not isinstance(o.exc, Boom):
                ck.violation("failure-hidden", f"criterion failing on evaluation {k} gave {o.short()}", [dist, k])
    # whatever the criterion raises comes out, wherever it happens, and no later evaluation is made
    kinds = [ValueError, ZeroDivisionError, FloatingPointError, OverflowError, ArithmeticError, TypeError, KeyError, IndexError,
             LookupError, AttributeError, RuntimeError, NotImplementedError, RecursionError, AssertionError, StopIteration,
             StopAsyncIteration, GeneratorExit, MemoryError, OSError, TimeoutError, BufferError, EOFError, UnicodeError, RuntimeWarning, UserWarning,
             DeprecationWarning, np.linalg.LinAlgError, np.exceptions.AxisError, KeyboardInterrupt, SystemExit]
    for count in (1, 2, 12, 200):
        for ex in kinds:
            k = int(r.integers(count))
            err = ex("injected")

            def fn(x, i, k=k, err=err):
                if i == k:
                    raise err
                return float(x[0])
            dist = str(r.choice(["NORMAL", "GAMMA", "UNIFORM", "BETA", "EXPONENTIAL"]))
            spy = SpyStatistic(DT[dist], DISTS[dist], fn=fn)
            ck.ev()
            ck.count("injected-failures")
            ck.nontrivial("failure", ex.__name__, count, k)
            try:
                out = MC(count).resolve(spy, int(r.choice([1, 4, 30])))
            except BaseException as e:
                if e is not err and e.__cause__ is not err and e.__context__ is not err:
                    ck.violation("failure-replaced", f"criterion raised {ex.__name__} on evaluation {k} of {count}; resolve() raised {e!r}", [ex.__name__, count, k])
            else:
                ck.violation("failure-hidden", f"criterion raised {ex.__name__} on evaluation {k} of {count}; resolve() returned {str(out)[:80]}", [ex.__name__, count, k])
            if len(spy.calls) > k + 1:
                ck.violation("failure-skipped", f"{len(spy.calls) - k - 1} more evaluations after {ex.__name__} on evaluation {k} of {count}", [ex.__name__, count, k])
    # a criterion that returns no number must not become a silent entry
    for val in (None, "x", [1.0, 2.0]):
        ck.ev()
        ck.count("injected-failures")
        o = observe(MC(3).resolve, SpyStatistic(DT.NORMAL, {"mean": 0, "var": 1}, fn=lambda x, i: val), 4)
        if o.kind == "ok" and not all(isinstance(v, (float, np.floating)) and v != v for v in o.value):
            ck.violation("non-number-accepted", f"criterion value {val!r} gave {o.short()}", repr(val))
    # a criterion that alters its sample does not disturb later samples
    for dist in ("NORMAL", "BETA"):
        def fn(x, i):
            v = float(np.sum(x))
            x[:] = 0
            return v
        ck.ev()
        np.random.seed(5)
        a = observe(MC(30).resolve, SpyStatistic(DT[dist], DISTS[dist], fn=fn), 6)
        np.random.seed(5)
        b = observe(MC(30).resolve, SpyStatistic(DT[dist], DISTS[dist], fn=lambda x, i: float(np.sum(x))), 6)
        if a.kind != "ok" or b.kind != "ok" or list(a.value) != list(b.value):
            ck.violation("samples-share-memory", "a criterion that overwrites its sample changes the following samples", dist)
        elif len(set(a.value)) != 30:
            ck.violation("samples-share-memory", "repeated values", dist)
    names = C.classes()
    tasks = [(nm, int(v)) for nm, cls in names.items()
             for v in (range(len(C.variants(nm, C.family(cls)))) if ck.thorough else [(ck.seed + 1) % len(C.variants(nm, C.family(cls)))])]
    parallel(ck, tasks, real)
    ck.need("resolutions", 200)
    ck.need("reproduced", 60)
    ck.need("independence-tests", 20)
    ck.need("real-resolutions", 350)
    ck.need("injected-failures", 15)
