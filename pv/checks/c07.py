"""C07: log-normal criteria against the normality criteria on the logarithms; log-normal-only criteria against their definitions."""
import math
import numpy as np
from pv import catalog as C
from pv.core import observe, close, parallel
from pv.formula import run_family, shaped, random_kw, ALLKINDS, BIG
from pv.ref_lognormal import REFS, TOL
RULE = ("every normality criterion class x the log-normal class of the same name x (s, scale) x sample sizes x sample shapes: value on the sample vs value of "
        "the normality criterion on the logs standardised by (s, scale), tail, short code, code, non-positive data; and the three log-normal-only criteria vs "
        "independent definitions; evaluation = one compared pair of executions; non-trivial = non-constant sample")
ASSUMPTIONS = ["a normality criterion of a composite null (see C12) may be applied to the raw or the standardised logs",
               "non-positive data give an infinite statistic"]
# explicitly implemented for the log-normal family; simple nulls on the declared (s, scale)
SIMPLE = {"KolmogorovSmirnovNormalityGofStatistic", "CramerVonMiseNormalityGofStatistic"}


def twins():
    have = C.classes()
    for name, cls in have.items():
        if C.family(cls) == "normal" and not name.startswith("Graph"):
            yield name, cls, name.replace("Normality", "LogNormal")


def run(ck):
    have = C.classes()
    pairs = list(twins())
    for name, cls, ln in pairs:
        if ln not in have:
            if not name.startswith("BHS"):
                ck.count("no-twin")
        else:
            ck.count("twins")
    ck.need("twins", 35)
    sizes = list(range(4, 30)) + [50, 51, 100, 200] if ck.thorough else [4, 5, 6, 8, 10, 13, 21, 30, 51, 120]
    reps = 6 if ck.thorough else 2

    def worker(sub, task):
        name, cls, ln, n, rep = task
        lcls = have[ln]
        rng = sub.rng(name, n, rep)
        n0 = max(n, C.nmin(name))
        if n0 > C.nmax(name):
            return
        for kind in ALLKINDS if n < 300 else ("null", "mid", "outlier"):
            params = [dict(s=1, scale=1), C.PARAMS["log_normal"][1 + int(rng.integers(len(C.PARAMS["log_normal"]) - 1))],
                      random_kw(ln, "log_normal", rng)]
            if kind in ("null", "outlier"):     # tiny and huge observations
                params.append(dict(s=float(rng.uniform(.3, 6)), scale=10.0 ** rng.uniform(-250, 250)))
            if kind == "low":
                params.append(dict(s=float(rng.uniform(.3, 3)), scale=10.0 ** rng.uniform(-20, -10)))
            for kw in params:
                x = shaped("log_normal", kw, n0, rng, kind)
                if np.ptp(x) == 0 or len(set(x.tolist())) < 3:
                    continue
                z = (np.log(x) - math.log(kw["scale"])) / kw["s"]
                o = observe(lcls(**kw).execute_statistic, x.copy())
                w = observe(cls().execute_statistic, z.copy())
                sub.ev()
                sub.count("pairs")
                case = {"class": ln, "normal": name, "kwargs": kw, "sample": x, "got": o.short(), "normality-on-logs": w.short()}
                if w.kind != "ok":
                    sub.count("normality-raised")
                    if o.kind == "ok" and np.isfinite(o.value):
                        sub.violation(f"{ln}:value", f"the normality criterion fails on the logs but the log-normal one gives {o.short()}", case)
                    continue
                sub.nontrivial(ln, n0, kind, str(kw), float(x[0]))
                if o.kind != "ok" or not close(o.value, w.value, 1e-6, 1e-8):
                    # nearly tied logs can amplify rounding of the transformation: ask whether the value is stable there
                    w2 = observe(cls().execute_statistic, z * (1 + 1e-15 * rng.standard_normal(n0)))
                    if o.kind == "ok" and w2.kind == "ok" and not close(w2.value, w.value, 1e-7, 1e-9):
                        sub.count("ill-conditioned")
                        continue
                    sub.violation(f"{ln}:value", f"n={n0} {kind} {kw}: {o.short()} but the normality criterion on the logs gives {w.short()}", case)
                sub.sample(ln, case)
        # data outside the support
        x = shaped("log_normal", dict(s=1, scale=1), n0, rng, "null")
        for bad in (0.0, -1.0):
            y = x.copy()
            y[rng.integers(n0)] = bad
            o = observe(lcls().execute_statistic, y)
            sub.ev()
            if ln.startswith(("KolmogorovSmirnov", "CramerVonMise")):
                continue                    # distance to a distribution function that is 0 there: C01
            if not (o.kind == "ok" and np.ndim(o.value) == 0 and float(o.value) == math.inf):
                sub.violation(f"{ln}:outside-support", f"sample with {bad}: {o.short()}, expected inf", {"class": ln, "sample": y})

    tasks = [(name, cls, ln, n, rep) for name, cls, ln in pairs if ln in have for n in sizes for rep in range(reps)]
    tasks += [(name, cls, ln, n, 0) for name, cls, ln in pairs if ln in have for n in (BIG if ck.thorough else [180, 503, 1030, 2051])]
    parallel(ck, tasks, worker)
    for name, cls, ln in pairs:
        if ln not in have:
            continue
        a, b = cls(), have[ln]()
        ck.ev()
        same = {"tail": (type(a.alternative()).__name__, type(b.alternative()).__name__), "short_code": (a.short_code(), b.short_code()),
                "code": (a.code().replace("NORMALITY", "LOGNORMAL"), b.code())}
        for k, (u, v) in same.items():
            if u != v:
                ck.violation(f"{ln}:{k}", f"{k}: normality {u!r}, log-normal {v!r}", {"class": ln})
    names = [ln for _, _, ln in pairs]
    for need in EXPECTED:
        if need not in have:
            ck.violation(f"{need}:missing", f"no log-normal criterion for {need}", {"class": need})
    run_family(ck, REFS, sizes, reps=reps, tol=TOL, big=BIG, bigcaps={"KLIntegralLogNormalGoFStatistic": 2100})


EXPECTED = [n + "LogNormalGofStatistic" for n in """
AndersonDarling BonettSeier BontempsMeddahi1 BontempsMeddahi2 CabanaCabana1 CabanaCabana2 ChenShapiro Coin CramerVonMise DAP Dagostino
DesgagneLafaye DoornikHansen EppsPulley Filli GMG GlenLeemisBarr Hosking1 Hosking2 Hosking3 Hosking4 JB KolmogorovSmirnov Kurtosis
Lilliefors LooneyGulledge MartinezIglewicz RobustJarqueBera RyanJoiner SF SWRG ShapiroWilk Skew Spiegelhalter ZhangQ ZhangQStar ZhangWuA
ZhangWuC
""".split()]
