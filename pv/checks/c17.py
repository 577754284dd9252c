"""C17: every sample a generator returns is judged against an independently written cdf of the declared distribution."""
import numpy as np
from pv import ref_gen as G
from pv.core import observe, parallel
RULE = ("generate() of all 21 generators (constructed directly, through get_available_generator, with documented defaults, and the core "
        "sampling function) on fixed, extreme and random parameters, drawn as one call, many calls of size 1, small calls and tuple shapes; "
        "each group is mapped through an independent cdf and tested for uniformity (Kolmogorov, normal-score moments, tail counts), serial "
        "independence (lag 1-3), repeats and support; evaluation = one statistical test; non-trivial = one (generator, parameters, way) of "
        "at least 1000 draws")
ASSUMPTIONS = ["a true sampler trips a test with probability below 1e-10 per test", "Weibull 'a' is the exponentiation parameter documented in core/distributions/weibull.py"]


def flat(v):
    return np.asarray(v, float).ravel()


def judge(ck, name, params, way, x, case):
    cls, cdf, sup = G.SPEC[name][:3]
    x = flat(x)
    lo, hi = sup(**params)
    ck.count("draws", len(x))
    if not np.all(np.isfinite(x)) or np.any(x < lo - 1e-12 * abs(lo)) or np.any(x > hi + 1e-12 * abs(hi)):
        bad = x[~np.isfinite(x) | (x < lo) | (x > hi)]
        ck.violation(f"{cls}:support", f"{way} {params}: draws {bad[:3]} outside [{lo}, {hi}]", case)
        return
    with np.errstate(all="ignore"):
        u = np.asarray(cdf(x, **params), float)
    fails, n = G.uniformity(u)
    ck.ev(n)
    ck.count("tests", n)
    if len(x) >= 1000:
        ck.nontrivial(name, sorted(params.items()), way)
    for test, p, stat in fails:
        what = "dependence" if test.startswith("lag") else "distribution"
        ck.violation(f"{cls}:{what}", f"{way} {params}: {test}={stat:.5g}, p={p:.2g} over {len(x)} draws", {**case, "first": x[:6].tolist()})
    # continuous distributions repeat a double only by rounding; allow that where the support is coarse
    w = np.unique(u)
    if len(w) < .98 * len(x) and len(x) > 50:
        ck.violation(f"{cls}:repeats", f"{way} {params}: only {len(w)} distinct values among {len(x)} draws", case)
    ck.sample(f"{name}/{way}", {**case, "n": len(x), "first": x[:4].tolist()})


def params_for(ck, name):
    r = ck.rng("par", name)
    fixed, rnd = G.SPEC[name][4], G.SPEC[name][3]
    k = 8 if ck.thorough else (3 if name in G.SLOW else 4)
    return fixed + [rnd(r) for _ in range(k)] + far(r, name, rnd) + NARROW.get(name, [])


# exponents of the scale s in every parameter: another unit of measurement, far from one
UNITS = {"CAUCHY": dict(t=1, s=1), "LAPLACE": dict(t=1, s=1), "LOGISTIC": dict(t=1, s=1), "STUDENT": dict(loc=1, scale=1), "GAMMA": dict(beta=-1),
         "GUMBEL": dict(mu=1, beta=1), "EXPONENTIAL": dict(lam=-1), "INV_GAUSS": dict(mu=1, lam=1), "RICE": dict(nu=1, sigma=1), "GOMPERTZ": dict(b=1),
         "NORMAL": dict(mean=1, var=2), "TRUNC_NORMAL": dict(mean=1, var=2, a=1, b=1), "UNIFORM": dict(a=1, b=1)}
NARROW = {"BETA": [dict(a=.04, b=3)], "GAMMA": [dict(alfa=.05, beta=2.0)], "CHI_2": [dict(df=.08)], "LOG_NORMAL": [dict(s=.5, mu=-60.0), dict(s=.01, scale=1e20)],
          "WEIBULL": [dict(a=1, k=150.0), dict(a=.1, k=.5)]}


def far(r, name, rnd):
    if name not in UNITS:
        return []
    out = []
    for sign in (-1, 1):
        s, p = 10.0 ** (sign * float(r.uniform(7, 17))), rnd(r)
        if name == "STUDENT":
            p = dict(df=p["df"], loc=float(r.normal()), scale=1.5)
        out.append({k: v * s ** UNITS[name].get(k, 0) for k, v in p.items()})
    return out


def one(ck, task):
    import importlib
    from pysatl_criterion import DistributionType as DT
    from pysatl_criterion.utils.generator import get_available_generator
    name, i = task
    clsname = G.SPEC[name][0]
    cls = G.cls_of(name)
    r = ck.rng("run", name, i)
    np.random.seed(int(r.integers(2 ** 31)))
    slow = name in G.SLOW
    big = (6000 if slow else 200000) if not ck.thorough else (60000 if slow else 2000000)
    if i < 0:
        par = G.DEFAULTS.get(name)
        if par is None:
            return
        o = observe(cls)
        if o.kind != "ok":
            ck.violation(f"{clsname}:defaults", f"constructor without arguments: {o.short()}", name)
            return
        ways = [("defaults", o.value, big // 2)]
    else:
        par = params_for(ck, name)[i]
        o = observe(cls, **par)
        if o.kind != "ok":
            ck.violation(f"{clsname}:constructor", f"{par}: {o.short()}", par)
            return
        g = o.value
        ways = [("one-call", g, big), ("size-1 calls", g, None), ("small calls", g, None)]
        if not slow:
            ways.append(("tuple", g, (40, 50)))
        o = observe(get_available_generator, DT[name], dict(par))
        if o.kind != "ok":
            ck.violation(f"{clsname}:lookup", f"{par}: {o.short()}", par)
        else:
            ways.append(("lookup", o.value, big // 4))
        if "scale" not in par or name != "LOG_NORMAL":
            mod, fn = G.CORE[name]
            f = getattr(importlib.import_module(f"pysatl_criterion.core.distributions.{mod}"), fn)
            cp = dict(par)
            if name == "INV_GAUSS":      # scipy's parameterisation: shape mu/lam, scale lam
                cp = dict(mu=par["mu"] / par["lam"], lam=par["lam"])

            class Core:
                def generate(self, size):
                    return f(size=size, **cp)
            ways.append(("core", Core(), big // 4))
    for way, g, size in ways:
        case = {"generator": clsname, "params": par, "way": way, "size": size, "seed": ck.seed}
        if way == "size-1 calls":
            o = observe(lambda: np.concatenate([flat(g.generate(1)) for _ in range(1000)]), cpu=60)
        elif way == "small calls":
            sizes = [int(s) for s in r.integers(2, 40, 60)] + [257, 1000, 1025]
            o = observe(lambda: np.concatenate([flat(g.generate(s)) for s in sizes]), cpu=60)
        else:
            o = observe(g.generate, size, cpu=300)
        if o.kind != "ok":
            ck.violation(f"{clsname}:raised", f"{way} {par}: {o.short()}", case)
            continue
        judge(ck, name, par, way, o.value, case)


def differ(ck, task):
    """Two different valid parameterisations give visibly different samples (each parameter matters)."""
    name, _ = task
    cls = G.cls_of(name)
    r = ck.rng("diff", name)
    base = G.SPEC[name][4][-1 if name not in ("LO_CON_NORMAL", "SCALE_CON_NORMAL", "MIX_CON_NORMAL") else 1]
    if name == "LOG_NORMAL":
        base = dict(s=.3, mu=5)
    n = 3000 if name in G.SLOW else 20000
    for key in base:
        other = dict(base)
        other[key] = base[key] + .09 if key == "p" else base[key] * 1.3 + (.7 if key in ("a", "t", "mu", "mean", "loc", "nu", "lam") and base[key] <= 1 else 0)
        np.random.seed(int(r.integers(2 ** 31)))
        o1, o2 = observe(lambda: flat(cls(**base).generate(n)), cpu=60), observe(lambda: flat(cls(**other).generate(n)), cpu=60)
        ck.ev()
        ck.count("parameter-pairs")
        if o1.kind != "ok" or o2.kind != "ok":
            ck.violation(f"{cls.__name__}:raised", f"{base} / {other}: {o1.short()} / {o2.short()}", [base, other])
            continue
        # both samples under the cdf of the base: the second must not be able to pass for it when the cdfs differ enough
        x = o2.value
        with np.errstate(all="ignore"):
            d = np.max(np.abs(G.SPEC[name][1](np.sort(x), **base) - G.SPEC[name][1](np.sort(x), **other)))
        if d < .06:
            continue
        ck.count("parameter-pairs-separated")
        a, b = np.sort(o1.value), np.sort(x)
        allx = np.concatenate([a, b])
        D = np.max(np.abs(np.searchsorted(a, allx, "right") / n - np.searchsorted(b, allx, "right") / n))
        if D < d / 4:
            ck.violation(f"{cls.__name__}:parameter-ignored", f"{key}: samples of {base} and {other} do not differ (D={D:.4f}, cdfs differ by {d:.4f})", [base, other])


def dispatch(ck, task):
    if task[0] == "weibull-doc":
        from pysatl_criterion import DistributionType as DT
        from pysatl_criterion.utils.distribution import get_available_distribution_descriptor
        d = get_available_distribution_descriptor(DT.WEIBULL)
        desc = next((p for p in d.parameters() if p.name == "a"), None)
        text = str(getattr(desc, "description", ""))
        np.random.seed(3)
        x = flat(G.cls_of("WEIBULL")(a=3.0, k=2.0).generate(50000))
        ck.ev()
        if "scale" in text.lower():
            fails, _ = G.uniformity(-np.expm1(-(x / 3.0) ** 2))
            if fails:
                ck.violation("WeibullGenerator:a-described-as-scale", f"descriptor says '{text}', draws for a=3, k=2 do not follow Weibull(scale 3, shape 2): {fails[0]}", None)
        return
    (differ if task[0] == "differ" else one)(ck, task[1:] if task[0] == "differ" else task)


def run(ck):
    tasks = [("weibull-doc", 0)]
    for name in sorted(G.SPEC, key=lambda n: n not in G.SLOW):
        tasks += [(name, i) for i in range(-1, len(params_for(ck, name)))]
        tasks.append(("differ", name, 0))
    parallel(ck, tasks, dispatch)
    ck.need("tests", 2000)
    ck.need("draws", 3000000)
    ck.need("parameter-pairs-separated", 20)
