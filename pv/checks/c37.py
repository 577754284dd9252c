"""C37: end to end, a test at level alpha rejects samples from its own null with probability alpha."""
import math
import time
import numpy as np
from pv import catalog as C
from pv.core import observe, parallel
from pv.formula import random_kw
from pv.meta import call_options
from pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test import CriticalValueDecisionMethod, GoodnessOfFitTest, PValueDecisionMethod
from pysatl_criterion.hypothesis_testing.limit_distribution.base import AbstractLimitDistributionResolver, MonteCarloLimitDistributionResolver

RULE = ("every criterion class x null parameters and options x sample sizes: complete tests (both decision methods, Monte Carlo resolver with 39 simulations) on samples drawn with "
        "SciPy from the null, moved by random nuisance parameters where the criterion is composite, handed over as arrays, lists, tuples or objects; the rank of the observed "
        "statistic among the simulated ones must be uniform and rejections must occur at the rate that the level implies; evaluation = one complete test; "
        "non-trivial = distinct (class, parameters, sample size, level, method)")
ASSUMPTIONS = ["SciPy's distributions are the reference for the declared nulls", "binomial alarm bounds at 1e-11 per comparison",
               "rejection rates are compared for criteria whose statistic has no ties; ranks are randomised among ties"]
M = 39
P = 1e-11
LEVELS = (.05, .1, .25, .5)


class Recorder(AbstractLimitDistributionResolver):
    def __init__(self):
        self.inner, self.seen = MonteCarloLimitDistributionResolver(M), None

    def resolve(self, statistic, sample_size):
        self.seen = self.inner.resolve(statistic, sample_size)
        return self.seen


def moved(name, fam, x, r):
    """A sample from another member of the family, for criteria that declare the whole family."""
    if not C.composite(name, fam):
        return x
    lu = lambda a, b: float(np.exp(r.uniform(math.log(a), math.log(b))))
    if fam == "normal":
        return float(r.normal(0, 100)) + lu(1e-3, 1e3) * x
    if fam in ("exponent", "gamma"):
        return lu(1e-3, 1e3) * x
    if fam == "weibull":
        return lu(1e-2, 1e2) * x ** lu(.4, 2.5)
    if fam == "log_normal":
        return np.exp(float(r.normal(0, 3)) + lu(.2, 2) * np.log(x))
    return x


def rate(tail, method, a):
    """Range of the rejection probability of an exact simulation test with M simulations and a continuous statistic."""
    if method == "p":
        k = 2 * (math.floor(a * M / 2) + 1) if tail == "two_tailed" else math.floor(a * M) + 1
        return k / (M + 1), k / (M + 1)
    b = a / 2 if tail == "two_tailed" else a
    k = math.floor(b * (M - 1)) + (0 if abs(b * (M - 1) - round(b * (M - 1))) < 1e-9 else 0)
    f = 2 if tail == "two_tailed" else 1
    return f * max(k, 0) / (M + 1), f * (k + 2) / (M + 1)


def run(ck):
    from scipy.stats import binom
    have = C.classes()
    T = 0.3 if not ck.thorough else 6.0
    reps = 4

    def worker(sub, task):
        name, rep = task
        cls = have[name]
        fam = C.family(cls)
        r = sub.rng(*task)
        np.random.seed(int(r.integers(2 ** 31)))
        t0, done = time.process_time(), 0
        while done < 24 or (time.process_time() - t0 < T and done < 20 * 24):
            if done >= 8 and time.process_time() - t0 > 40 * T:
                break
            vs = C.variants(name, fam)
            kw = vs[int(r.integers(len(vs)))] if r.uniform() < .7 else random_kw(name, fam, r)
            n = int(r.integers(C.nmin(name) + 2, 25 if C.nmax(name) > 40 else 11))
            o = observe(lambda: cls(**kw))
            if o.kind != "ok":
                sub.count("constructor refusals")
                done += 1
                continue
            s = o.value
            x = moved(name, fam, C.sample(fam, kw, n, r, "null"), r)
            form = int(r.integers(4))
            data = (x, x.tolist(), tuple(x.tolist()), [np.float64(v) for v in x])[form]
            a = LEVELS[int(r.integers(len(LEVELS)))]
            rec = Recorder()
            method = "p" if r.uniform() < .5 else "cv"
            o = observe(lambda: GoodnessOfFitTest(s).test(data, a, (PValueDecisionMethod if method == "p" else CriticalValueDecisionMethod)(rec)), cpu=120)
            done += 1
            sub.ev()
            case = {"class": name, "kwargs": kw, "n": n, "alpha": a, "method": method, "sample": x, "got": o.short()}
            if o.kind != "ok":
                sub.violation(f"{name}:raised", f"{name}({kw}) on {n} observations from its null: {o.short()}", case)
                continue
            t = float(o.value.statistic)
            sim = np.asarray(rec.seen, float)
            if math.isnan(t) or np.any(np.isnan(sim)):
                sub.count("undefined statistics (judged by C13)")
                continue
            less, ties = int(np.sum(sim < t)), int(np.sum(sim == t))
            u = (less + r.uniform() * (ties + 1)) / (M + 1)
            sub.count(f"rank|{name}|{min(int(u * 40), 39)}")
            if ties == 0:
                tail = s.alternative().type().value
                sub.count(f"level|{name}|{tail}|{method}|{a}|{int(bool(o.value.rejected))}")
            else:
                sub.count(f"tied|{name}")
            sub.nontrivial(name, str(sorted(map(str, kw.items()))), n, a, method)
            sub.sample(fam, case)
    parallel(ck, [(name, i) for i in range(reps) for name in have], worker)
    ranks, level = {}, {}
    for k in [k for k in ck.counters if "|" in k]:
        v = ck.counters.pop(k)
        p = k.split("|")
        if p[0] == "rank":
            ranks.setdefault(p[1], [0] * 40)[int(p[2])] += v
        elif p[0] == "level":
            level.setdefault(tuple(p[1:5]), [0, 0])[int(p[5])] += v
        else:
            level.setdefault(("tied", p[1]), [0])[0] += v
    tied = {k[1] for k in level if k[0] == "tied"}
    pooled = {}
    for name in have:
        h = ranks.get(name, [0] * 40)
        N = sum(h)
        ck.count("criteria judged", N >= 30)
        if N < 30:
            ck.violation(f"{name}:too-few", f"{name}: only {N} of its tests gave a finite statistic", {"class": name})
            continue
        ck.count("complete tests", N)
        for j in range(1, 40):
            c = sum(h[:j])
            if min(binom.cdf(c, N, j / 40), binom.sf(c - 1, N, j / 40)) < P:
                ck.violation(f"{name}:not-calibrated", f"{name}: on {N} samples from its null the statistic fell below the {j / 40:.3g} quantile of its simulated null distribution {c} "
                             f"times, expected {N * j / 40:.1f}", {"class": name, "ranks": h})
                break
    for key, v in level.items():
        if key[0] == "tied" or key[0] in tied:
            continue
        name, tail, method, a = key
        lo, hi = rate(tail, method, float(a))
        for who in (name, f"all {tail} criteria"):
            q = pooled.setdefault((who, tail, method, a), [0, 0])
            q[0] += sum(v)
            q[1] += v[1]
    for (who, tail, method, a), (N, k) in pooled.items():
        lo, hi = rate(tail, method, float(a))
        ck.count("rejection rates")
        if who.startswith("all"):
            ck.sample("rate", {"who": who, "method": method, "alpha": a, "tests": N, "rejected": k, "expected": [lo * N, hi * N]})
        if binom.cdf(k, N, lo) < P or binom.sf(k - 1, N, min(hi, 1)) < P:
            ck.violation(f"{who}:level:{method}", f"{who} ({tail}, {method}): {k} of {N} samples from the null rejected at level {a}, expected {lo * N:.1f} to {hi * N:.1f}",
                         {"who": who, "alpha": a})
    ck.need("complete tests", 5000)
    ck.need("rejection rates", 500)
