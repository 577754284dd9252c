"""C15: the Monte Carlo limit distribution is the criterion's distribution under the declared null."""
import math
import numpy as np
import scipy.stats as st
from pv import catalog as C
from pv.core import observe, parallel
from pv.formula import random_kw
from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver

RULE = ("every criterion class x default, fixed and random null parameters: the samples the resolver hands to execute_statistic are recorded and pooled against the declared null "
        "(Kolmogorov-Smirnov, lag correlation, repeats), the returned list is matched with the recorded values, and the simulated distribution of the statistic is compared with one "
        "simulated independently with scipy; evaluation = one resolver run judged; non-trivial = distinct (class, parameterisation, sample size)")
ASSUMPTIONS = ["scipy's distributions are the reference for the declared nulls", "statistical comparisons alarm only below p = 1e-10"]
P = 1e-10


def parameterisations(name, fam, rng, k):
    out = [{}] + [kw for kw in C.variants(name, fam) if not (set(kw) - set(C.PARAMS[fam][0]))]
    if name.startswith("RyanJoiner") and fam == "normal":
        return [{}, dict(weighted=True), dict(cte_alpha="1/2")]
    # zero, one and negative values among otherwise unusual parameters: nothing may fall back to another default
    r = lambda: float(np.exp(rng.uniform(-1.2, 1.2)))
    out += {"normal": [dict(mean=0.0, var=r()), dict(mean=-r(), var=1)], "uniform": [dict(a=-r(), b=0.0), dict(a=0, b=r()), dict(a=r() - 40, b=-1)],
            "student": [dict(df=1 + r(), loc=0.0, scale=r()), dict(df=r(), loc=-r(), scale=1)] if name != "LillieforsStudentGofStatistic" else [],
            "gamma": [dict(alpha=1, beta=r()), dict(alpha=r(), beta=1)], "beta": [dict(alpha=1, beta=1 + r()), dict(alpha=1 + r(), beta=1)],
            "weibull": [dict(a=1, k=r()), dict(a=r(), k=1)], "log_normal": [dict(s=1, scale=r()), dict(s=r(), scale=1)]}.get(fam, []) if name != "ModeBetaGofStatistic" else []
    return out + [random_kw(name, fam, rng) for _ in range(k)]


def declared(name, fam, kw):
    import inspect
    d = dict(C.PARAMS[fam][0])
    for k, p in inspect.signature(C.classes()[name].__init__).parameters.items():
        if k in d and p.default is not inspect.Parameter.empty:
            d[k] = p.default
    d.update({k: v for k, v in kw.items() if k in d})
    return C.null(fam, d)


def run(ck):
    have = C.classes()

    def worker(sub, task):
        name, rep = task
        cls = have[name]
        fam = C.family(cls)
        rng = sub.rng(*task)
        for j, kw in enumerate(parameterisations(name, fam, rng, 3 if not sub.thorough else 8)):
            s = observe(lambda: cls(**kw))
            if s.kind != "ok":
                continue
            s = s.value
            n = int(rng.integers(max(5, C.nmin(name)), 31)) if C.nmax(name) > 40 else 8
            count = 300 if not sub.thorough else 1500
            real = s.execute_statistic
            samples, values = [], []

            def spy(rvs, *a, **k):
                arr = np.asarray(rvs, float)
                samples.append(arr.copy())
                v = float(np.mean(np.log1p(np.abs(arr)))) + len(samples)  # a cheap stand-in: this run judges the samples, not the statistic
                values.append(v)
                return v
            s.execute_statistic = spy
            np.random.seed(int(rng.integers(2 ** 31)))
            o = observe(lambda: MonteCarloLimitDistributionResolver(count).resolve(s, n), cpu=60)
            s.execute_statistic = real
            sub.ev()
            sub.count(f"resolver-runs:{C.short(name)}")
            sub.nontrivial(name, str(sorted(map(str, kw.items()))), n)
            case = {"class": name, "kwargs": kw, "n": n, "count": count, "got": o.short()}
            sub.sample(fam, case)
            if o.kind != "ok":
                sub.violation(f"{name}:raised", f"{name}({kw}) n={n}: {o.short()}", case)
                continue
            if len(samples) != count or any(x.shape != (n,) for x in samples):
                sub.violation(f"{name}:sample-shape", f"{name}({kw}): {len(samples)} samples of shapes {sorted({x.shape for x in samples})[:3]}, asked for {count} of size {n}", case)
                continue
            if len(o.value) != count or sorted(map(float, o.value)) != sorted(values):
                sub.violation(f"{name}:returned-values", f"{name}({kw}): the returned values are not the {count} statistics computed", case)
            x = np.concatenate(samples)
            d = declared(name, fam, kw)
            sub.count("observations-pooled", len(x))
            p = st.kstest(x, d.cdf).pvalue
            if not p > P:
                sub.violation(f"{name}:wrong-null", f"{name}({kw}): {len(x)} simulated observations against the declared null: p={p:.3g}, mean {np.mean(x):.4g}, median "
                              f"{np.median(x):.4g} (declared median {d.median():.4g})", {**case, "observations": x[:100]})
                continue
            # within-sample spread and dependence between consecutive observations / samples
            u = st.norm.ppf(np.clip(d.cdf(x), 1e-12, 1 - 1e-12))
            for lag in (1, 2, n):
                r = float(np.corrcoef(u[:-lag], u[lag:])[0, 1]) * math.sqrt(len(u))
                if abs(r) > 7.5:
                    sub.violation(f"{name}:dependent", f"{name}({kw}): observations at lag {lag} correlate ({r:.1f} standard errors)", case)
            m = np.array([np.mean(u[i * n:(i + 1) * n]) for i in range(count)]) * math.sqrt(n)
            if not st.kstest(m, "norm").pvalue > P:
                sub.violation(f"{name}:dependent", f"{name}({kw}): sample means spread by {np.std(m):.3g} instead of 1 standard error", case)
        # the simulated distribution of the statistic against an independent simulation of the same null
        kw = parameterisations(name, fam, rng, 2)[-1 - rep % 2]
        n = min(max(C.nmin(name), int(rng.integers(6, 16))), C.nmax(name), 9 if C.nmax(name) <= 40 else 99)
        N = 80 if not sub.thorough else 300
        s = observe(lambda: cls(**kw))
        if s.kind != "ok":
            return
        s = s.value
        np.random.seed(int(rng.integers(2 ** 31)))
        o = observe(lambda: MonteCarloLimitDistributionResolver(N).resolve(s, n), cpu=120)
        d = declared(name, fam, kw)
        ref = observe(lambda: [float(s.execute_statistic(d.rvs(size=n, random_state=rng))) for _ in range(N)], cpu=120)
        sub.ev()
        case = {"class": name, "kwargs": kw, "n": n, "count": N}
        if o.kind != "ok" or ref.kind != "ok":
            if ref.kind == "ok":
                sub.violation(f"{name}:raised", f"{name}({kw}) n={n}: {o.short()}", case)
            return
        sub.count("distributions-compared")
        p = st.ks_2samp(o.value, ref.value).pvalue
        if not p > P:
            sub.violation(f"{name}:wrong-distribution", f"{name}({kw}) n={n}: simulated {np.quantile(o.value, [.1, .5, .9])}, independently {np.quantile(ref.value, [.1, .5, .9])}, p={p:.3g}", case)
    parallel(ck, [(n, r) for n in have for r in range(1 if not ck.thorough else 2)], worker)
    for n in have:
        ck.need(f"resolver-runs:{C.short(n)}", 3)
    ck.need("distributions-compared", 180)
