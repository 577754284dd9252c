"""C16: the declared rejection tail is the one gross departures reach."""
import numpy as np
from pv import catalog as C
from pv.core import observe, parallel
from pysatl_criterion.statistics.alternative import (AlternativeType as AT, LeftAlternative, RightAlternative, TwoSidedAlternative)

RULE = ("every criterion class (and each one-sided option of the Kolmogorov-Smirnov ones) against its own simulated null distribution and a battery of gross departures with the same "
        "support: rejection rates beyond the lower and upper null quantiles are measured; evaluation = one statistic computed on a departure and placed in the null distribution; "
        "non-trivial = distinct (class, departure, repetition)")
ASSUMPTIONS = ["a criterion counts as pointing the wrong way only if its declared tail practically never rejects any departure of the battery while the other tail does",
               "the general floor on power applies to the criteria that have it on the battery by a wide margin; directional ones are judged on the direction only"]
DIRECTIONAL = ("RSB", "GraphConnectedComponents", "LaplaceTransform3", "TikuSingh", "SBWeibull", "SbWeibull", "GraphMax", "GraphClique", "GraphIndependence", "GraphAverage", "GraphEdges")


def battery(name, fam, kw, n, rng):
    comp = C.composite(name, fam)
    d = C.null(fam, kw)
    out = {k: C.sample(fam, kw, n, rng, k) for k in C.KINDS[1:]}
    z = rng.normal(size=n)
    if fam in ("normal", "log_normal"):
        e = rng.exponential(size=n) ** 1.5
        raw = {"skew": e, "left-skew": -e, "heavy": rng.standard_cauchy(n), "two-point": np.sign(rng.normal(size=n)) * 2 + .1 * z,
               "flat": rng.uniform(-1.7, 1.7, n), "outlier": np.where(np.arange(n) == 0, 12, z)}
        if not comp:
            raw.update({"shift-up": z + 2, "shift-down": z - 2, "wide": 4 * z, "tight": .1 * z})
        if fam == "normal":
            m, s = kw.get("mean", 0), np.sqrt(kw.get("var", 1))
            out.update({k: m + s * v for k, v in raw.items()})
        else:
            out.update({k: kw.get("scale", 1) * np.exp(kw.get("s", 1) * np.clip(v, -60, 60)) for k, v in raw.items()})
    elif fam in ("exponent", "weibull"):
        out.update({"gamma4": rng.gamma(4, .25, n), "gamma.3": rng.gamma(.3, 1 / .3, n) + 1e-12, "lognormal": np.exp(1.8 * z), "flat": rng.uniform(.5, 1.5, n),
                    "two-point": np.where(rng.uniform(size=n) < .5, .1, 3) * rng.uniform(.9, 1.1, n), "pareto": (1 - rng.uniform(size=n)) ** -1.0, "tight": 1 + .01 * rng.uniform(size=n),
                    "shifted-null": 1 + d.rvs(size=n, random_state=rng)})
        if not comp:
            x = d.rvs(size=n, random_state=rng)
            out.update({"large": 4 * x, "small": x / 4})
    elif fam == "gamma":
        x = d.rvs(size=n, random_state=rng)
        out.update({"large": 4 * x, "small": .25 * x, "two-point": float(d.mean()) * np.where(rng.uniform(size=n) < .5, .1, 2) * rng.uniform(.95, 1.05, n),
                    "tight": float(d.mean()) * (1 + .02 * z)})
    elif fam == "student":
        x = d.rvs(size=n, random_state=rng)
        out.update({"shift": 3 * kw.get("scale", 1) + x, "shift-down": x - 3 * kw.get("scale", 1), "wide": 6 * (x - kw.get("loc", 0)) + kw.get("loc", 0),
                    "tight": kw.get("loc", 0) + .1 * kw.get("scale", 1) * z, "two-point": kw.get("loc", 0) + 3 * np.sign(z) * kw.get("scale", 1) + .01 * z})
    return out


def stability(ck, have):
    """The tail of a criterion is part of its definition: nothing that happens to it or to other criteria may change it."""
    import inspect
    r = ck.rng("stability")
    pool = []

    def tail(s):
        o = observe(lambda: s.alternative().type())
        return o.value if o.kind == "ok" else o.short()

    def build(name, cls):
        fam = C.family(cls)
        vs = C.variants(name, fam)
        kw = dict(vs[int(r.integers(len(vs)))])
        ps = inspect.signature(cls.__init__).parameters
        if "alternative_type" in ps:
            kw["alternative_type"] = list(AT)[int(r.integers(3))]
        if "mode" in ps:
            kw["mode"] = str(r.choice(["auto", "exact", "approx", "asymp"]))
        o = observe(lambda: cls(**kw))
        return (o.value, kw) if o.kind == "ok" else (None, kw)
    default = {}
    for name, cls in have.items():
        kw = C.variants(name, C.family(cls))[0]
        a, b = observe(lambda: cls(**kw)), observe(lambda: cls(**kw))
        if a.kind != "ok":
            continue
        default[name] = (kw, tail(b.value) if b.kind == "ok" else None)
        pool.append((name, kw, a.value, None))
    rounds = 5 if not ck.thorough else 40
    names = list(have)
    for rnd in range(rounds):
        for name in r.permutation(names):
            cls, fam = have[name], C.family(have[name])
            s, kw = build(name, cls)
            if s is None:
                continue
            first = tail(s) if r.integers(0, 2) else None     # half of the instances are only asked later
            if "alternative_type" in kw and first is not None and first != kw["alternative_type"]:
                ck.violation(f"{name}:alternative-option", f"{name}({kw}) declares {first}", None)
            slow = name.startswith(("Hollander", "Laplace", "KL", "Graph", "Ahsan", "Ross", "Coin", "BHS"))
            n = int(r.choice([1, 2, 5, 12, 30] if slow else [1, 3, 12, 60, 1200]))
            n = min(n, C.nmax(name))
            x = C.sample(fam, kw, n, r, str(r.choice(C.KINDS)))
            if r.integers(0, 3) == 0:
                x = x * [1, -1, np.nan][int(r.integers(0, 3))]
            observe(s.execute_statistic, x)
            pool.append((name, kw, s, first))
            ck.ev()
            ck.count("stability: operations")
            for nm, k, q, was in [pool[int(i)] for i in r.integers(0, len(pool), 12)] + [pool[-1]]:
                now = tail(q)
                want = k["alternative_type"] if "alternative_type" in k else default[nm][1] if was is None else was
                if now != want:
                    ck.violation(f"{nm}:alternative-changed", f"{nm}({k}) declares {now} after {name}({kw}) was created and evaluated on {n} observations, before {want}", {"kwargs": str(k), "after": str(kw)})
                ck.nontrivial("stable", nm, name, str(kw), n)
        for nm, (k, want) in default.items():
            o = observe(lambda: have[nm](**k))
            now = tail(o.value) if o.kind == "ok" else o.short()
            ck.count("stability: fresh instances")
            if now != want and "alternative_type" not in k:
                ck.violation(f"{nm}:alternative-changed", f"a new {nm}({k}) declares {now}, an earlier one {want}", {"kwargs": str(k)})
    ck.need("stability: operations", 200)


def run(ck):
    have = C.classes()
    stability(ck, have)
    N = 120 if not ck.thorough else 500
    R = 20 if not ck.thorough else 80

    def worker(sub, task):
        name, kw = task
        cls = have[name]
        fam = C.family(cls)
        rng = sub.rng(name, str(kw))
        n = min(36, C.nmax(name)) if not name.startswith("HollanderProshan") else 18
        o = observe(lambda: cls(**kw))
        if o.kind != "ok":
            return
        s = o.value
        alt = observe(s.alternative)
        if alt.kind != "ok" or not isinstance(alt.value, (LeftAlternative, RightAlternative, TwoSidedAlternative)):
            sub.violation(f"{name}:no-alternative", f"{name}({kw}).alternative() -> {alt.short()}", None)
            return
        alt = alt.value
        if "alternative_type" in kw:
            want = {AT.TWO_TAILED: TwoSidedAlternative, AT.RIGHT: RightAlternative, AT.LEFT: LeftAlternative}[kw["alternative_type"]]
            if not isinstance(alt, want):
                sub.violation(f"{name}:alternative-option", f"{name}({kw}) declares {type(alt).__name__}", None)

        def run1(x):
            r = observe(s.execute_statistic, x, cpu=60)
            return float(r.value) if r.kind == "ok" and np.isfinite(float(r.value)) else np.nan
        v = np.array([run1(C.sample(fam, kw, n, rng)) for _ in range(N)])
        v = np.sort(v[np.isfinite(v)])
        if len(v) < .9 * N:
            sub.violation(f"{name}:null-undefined", f"{name}({kw}) n={n}: {N - len(v)} of {N} null samples gave no finite value", None)
            return
        one = not isinstance(alt, TwoSidedAlternative)
        q = .04 if one else .02
        lo, hi = v[int(q * len(v))], v[len(v) - 1 - int(q * len(v))]
        rate = {}
        for r in range(R):
            for k, x in battery(name, fam, kw, n, rng).items():
                t = run1(x)
                sub.ev()
                sub.nontrivial(name, str(kw), k, r)
                a = rate.setdefault(k, [0, 0])
                a[0] += t < lo
                a[1] += t > hi
        left = max(a[0] for a in rate.values()) / R
        right = max(a[1] for a in rate.values()) / R
        case = {"class": name, "kwargs": str(kw), "n": n, "alternative": type(alt).__name__, "null quantiles": [lo, hi], "left/right rejections": {k: list(map(int, a)) for k, a in rate.items()}}
        sub.sample(type(alt).__name__, case)
        sub.count(f"judged:{type(alt).__name__}")
        sub.count(f"class:{C.short(name)}")
        own, other = (left, right) if isinstance(alt, LeftAlternative) else (right, left) if one else (max(left, right), 0)
        if own < .75:
            sub.count(f"own-tail-power-below-75%:{name}:{own:.2f}:{other:.2f}")
        if one and own <= (.06 if name.startswith(DIRECTIONAL) else .2) and other >= .6:
            sub.violation(f"{name}:wrong-tail", f"{name}({kw}) declares {type(alt).__name__}: gross departures reach the declared tail in at most {own:.0%} and the other tail in {other:.0%} of the runs", case)
        elif kw == C.variants(name, fam)[0] and "alternative_type" not in kw and own < .4 and not name.startswith(DIRECTIONAL):
            sub.violation(f"{name}:no-power", f"{name}({kw}) declares {type(alt).__name__}: no departure of the battery is rejected in more than {own:.0%} of the runs", case)
    tasks = []
    for name, cls in have.items():
        fam = C.family(cls)
        vs = C.variants(name, fam)
        ks = [kw for kw in vs if kw.get("alternative_type") is not None]
        if ks:
            for t in AT:
                m = [kw for kw in ks if kw["alternative_type"] == t]
                if m:
                    tasks.append((name, m[0]))
            tasks.append((name, {k: v for k, v in ks[0].items() if k != "alternative_type"}))
        else:
            tasks += [(name, kw) for kw in (vs[:1] if not ck.thorough else vs[:4])]
            if not ck.thorough and len(vs) > 1 and fam not in ("exponent", "normal", "log_normal"):
                tasks.append((name, vs[1 + int(ck.rng(name).integers(len(vs) - 1))]))
    tasks.sort(key=lambda t: not t[0].startswith(("Hollander", "Laplace", "KL", "Graph", "Ahsan", "Ross", "Coin", "BHS")))
    parallel(ck, tasks, worker)
    for n in have:
        ck.need(f"class:{C.short(n)}")
