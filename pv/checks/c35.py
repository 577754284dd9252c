"""C35: the built-in critical values of the Kullback-Leibler log-normal tests give tests of the requested level."""
import math
import numpy as np
from pv.core import parallel, observe

RULE = ("both criteria that bring their own critical values: rejection rates on simulated log-normal samples (all mu, sigma, n from 20 to 150, alpha over the stated range "
        "[0.001, 0.1]) against the requested level; values at random (n, alpha) against the published fits, ordering in alpha, rejection of alphas outside the range; "
        "evaluation = one critical value judged; non-trivial = distinct (criterion, n, alpha)")
ASSUMPTIONS = ["the published fits are taken from the references the code cites (formulas 27-30 and 32); formula 31 is judged by its level only",
               "a rate within a factor 2.5 of alpha (plus binomial noise at 1e-9) counts as keeping the level"]
FIT = {
    ("KLSupremum", .05): lambda n: 2.67076 - 3.90704 / math.sqrt(n) + 1.07162 / n,
    ("KLSupremum", .01): lambda n: 4.10183 - 7.48001 / math.sqrt(n) + .638394 * math.log(n) / math.sqrt(n),
    ("KLIntegral", .05): lambda n: -2.88971 - .130082 * math.log(n) ** 2 + 2.71403 * math.log(n),
    ("KLIntegral", .01): lambda n: 24.9099 - 31.9302 / math.sqrt(n) - 13.2562 * math.log(n) / math.sqrt(n),
}


def fit32(n, a):
    q = n / a
    return (.880415 + .00680135 / a - 35.179 * a - .18045 / (a * n) - .107479 * n + 1.67972 * math.sqrt(a * n) + .0119889 * n * math.log(n)
            + .372023 * math.sqrt(q) - .0213414 * math.sqrt(q) * math.log(q))


def cls(name):
    from pysatl_criterion.statistics import goodness_of_fit as g
    return getattr(g, name + "LogNormalGoFStatistic")


def sim(ck, task):
    name, n, m, i = task
    r = ck.rng("sim", name, n, i)
    mu, s = float(r.normal(0, 3)), float(math.exp(r.normal(0, 1)))
    st = cls(name)()
    v = []
    for _ in range(m):
        o = observe(st.execute_statistic, np.exp(mu + min(s, 8) * r.normal(size=n)))
        if o.kind != "ok" or not math.isfinite(o.value):
            ck.violation(f"{name}:statistic", f"{name}.execute_statistic on a log-normal sample of size {n}: {o.short()}", {"n": n})
            return
        v.append(float(o.value))
    ck.count("statistics", m)
    ck.store.setdefault((name, n), []).extend(v)


def run(ck):
    from scipy.stats import binom
    per, rep = (90, 8) if not ck.thorough else (400, 24)
    sizes = (20, 35, 60, 100, 150) if not ck.thorough else (15, 20, 25, 35, 50, 70, 100, 150, 200)
    tasks = [(name, n, per, i) for n in sorted(sizes, reverse=True) for name in ("KLIntegral", "KLSupremum") for i in range(rep)]
    values = {}

    def judge(name, n, a, v):
        st = cls(name)()
        o = observe(st.calculate_critical_value, n, a)
        ck.ev()
        ck.nontrivial(name, n, a)
        case = {"criterion": name, "n": n, "alpha": a}
        gen = "general-alpha" if a not in (.05, .01) else f"alpha-{a}"
        if o.kind != "ok" or not math.isfinite(o.value):
            ck.violation(f"{name}:{gen}:value", f"{name}.calculate_critical_value({n}, {a}): {o.short()}", case)
            return
        k, m = sum(x > o.value for x in v), len(v)
        ck.count("rates")
        if binom.sf(k - 1, m, 2.5 * a) < 1e-9 or binom.cdf(k, m, a / 2.5) < 1e-9:
            ck.violation(f"{name}:{gen}:level", f"{name}.calculate_critical_value({n}, {a}) = {o.value:.5g} rejects {k} of {m} log-normal samples", case)
        ck.sample(f"{name}-{gen}", {**case, "critical": float(o.value), "rejected": k, "samples": m})
    for (name, n), v in gather(ck, tasks).items():
        values[name, n] = v
        r = ck.rng("alpha", name, n)
        for a in [.05, .01, .1, .001, .02] + [float(x) for x in np.exp(r.uniform(math.log(.001), math.log(.1), 12))]:
            judge(name, n, a, v)
    r = ck.rng("fits")
    for _ in range(1500 if not ck.thorough else 20000):
        n = int(round(math.exp(r.uniform(math.log(4), math.log(400)))))
        n = [n, np.int64(n), np.float64(n)][int(r.integers(3))]
        for name in ("KLSupremum", "KLIntegral"):
            st = cls(name)()
            for a in (.05, .01, float(np.exp(r.uniform(math.log(.001), math.log(.1)))), *((.001, .1) if r.uniform() < .1 else ())):
                a = np.float64(a) if r.uniform() < .3 else a
                want = FIT.get((name, float(a)))
                want = want(float(n)) if want else (fit32(float(n), float(a)) if name == "KLIntegral" else None)
                o = observe(st.calculate_critical_value, n, a) if r.uniform() < .5 else observe(st.calculate_critical_value, n=n, alpha=a)
                ck.ev()
                if o.kind != "ok":
                    ck.violation(f"{name}:raises", f"{name}.calculate_critical_value({n!r}, {a!r}): {o.short()}", {"n": n, "alpha": a})
                    continue
                ck.nontrivial(name, int(n), float(a))
                if want is not None:
                    ck.count("published values")
                    if not abs(o.value - want) <= 1e-8 * max(1, abs(want)) * (1 + math.sqrt(float(n) / a) / 10):
                        ck.violation(f"{name}:fit", f"{name}.calculate_critical_value({n!r}, {a!r}) = {o.value!r}, published fit {want!r}", {"n": n, "alpha": a})
            o = observe(st.calculate_critical_value, n)
            w = FIT[name, .05](float(n))
            if o.kind != "ok" or not abs(o.value - w) <= 1e-8 * max(1, abs(w)):
                ck.violation(f"{name}:default", f"{name}.calculate_critical_value({n!r}) is {o.short()}, not the 5 % value {w!r}", {"n": n})
            bad = [float(r.uniform(.1001, 3)), float(r.uniform(0, .00099)), -.05, 0.0, 1.0, math.nextafter(.1, 1), math.nextafter(.001, 0), -math.inf, math.inf][int(r.integers(9))]
            o = observe(st.calculate_critical_value, n, bad)
            ck.ev()
            ck.count("invalid levels")
            if o.kind != "exc" or not isinstance(o.exc, ValueError):
                ck.violation(f"{name}:range", f"{name}.calculate_critical_value({n!r}, {bad!r}) outside [0.001, 0.1]: {o.short()}, expected ValueError", {"n": n, "alpha": bad})
    ck.need("rates", 100)
    ck.need("published values", 3000)
    ck.need("invalid levels", 1000)


def gather(ck, tasks):
    import json
    import os
    import tempfile
    d = tempfile.mkdtemp(prefix="pv35-")
    try:
        def work(c, task):
            c.store = {}
            sim(c, task)
            for (name, n), v in c.store.items():
                with open(os.path.join(d, f"{name}-{n}-{task[3]}.json"), "w") as f:
                    json.dump(v, f)
        parallel(ck, tasks, work)
        out = {}
        for f in sorted(os.listdir(d)):
            name, n, _ = f.split("-")
            out.setdefault((name, int(n)), []).extend(json.load(open(os.path.join(d, f))))
        return out
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
