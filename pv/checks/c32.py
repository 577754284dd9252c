"""C32: descriptors, their defaults and validators are exercised against the generators they describe."""
import math
from decimal import Decimal
from fractions import Fraction
import numpy as np
from pv import ref_gen as G
from pv.core import observe
RULE = ("every distribution type: descriptor lookup, parameter names against the generator's own parameters, defaults against the validators and "
        "against what the generator really draws, every listed parameter changed alone and observed in the generator's parameters and in its draws, "
        "accepted boundary values drawn from; validators on boundary, neighbouring, extreme, non-finite and non-float values; evaluation = one "
        "judged value; non-trivial = one (validator, value) or (distribution, parameter)")
ASSUMPTIONS = ["a parameter without a stated range carries no validator or one that accepts every finite value"]

POS, NONNEG, PROB, ANY = "x > 0", "x >= 0", "0 <= x <= 1", "any"
IN = {POS: lambda v: v > 0, NONNEG: lambda v: v >= 0, PROB: lambda v: 0 <= v <= 1, ANY: lambda v: v == v}
# stated range of every parameter (documentation of descriptors and generators)
RANGES = {"NORMAL": dict(mean=ANY, var=POS), "EXPONENTIAL": dict(lam=POS), "WEIBULL": dict(a=POS, k=POS), "UNIFORM": dict(a=ANY, b=ANY),
          "STUDENT": dict(df=POS), "GAMMA": dict(alfa=POS, beta=POS), "BETA": dict(a=POS, b=POS), "LOG_NORMAL": dict(mu=ANY, s=POS),
          "CAUCHY": dict(t=ANY, s=POS), "CHI_2": dict(df=POS), "GOMPERTZ": dict(eta=POS, b=POS), "GUMBEL": dict(mu=ANY, beta=POS),
          "INV_GAUSS": dict(mu=POS, lam=POS), "LAPLACE": dict(t=ANY, s=POS), "LO_CON_NORMAL": dict(p=PROB, a=ANY), "LOGISTIC": dict(t=ANY, s=POS),
          "MIX_CON_NORMAL": dict(p=PROB, a=ANY, b=POS), "RICE": dict(nu=NONNEG, sigma=NONNEG), "SCALE_CON_NORMAL": dict(p=PROB, b=POS),
          "TRUNC_NORMAL": dict(mean=ANY, var=POS, a=ANY, b=ANY), "TUKEY": dict(lam=ANY)}


def values(r, n):
    tiny, eps = 5e-324, np.nextafter(1.0, 2)
    out = [0, 0.0, -0.0, 1, 1.0, -1, -1.0, 2, .5, tiny, -tiny, float(np.nextafter(1.0, 0)), float(eps), 1e-300, -1e-300, 1e300, -1e300, 1e-12, -1e-12,
           1 + 1e-12, 1 - 1e-12, math.inf, -math.inf, math.nan, True, False, Fraction(1, 3), Fraction(-1, 3), Fraction(3, 2), 10 ** 400, -10 ** 400,
           Decimal("0.25"), Decimal("-0.25"), Decimal(0), np.float64(.3), np.float64(-.3), np.float32(0), np.float32(1), np.int64(0), np.int64(1), np.int64(-1),
           np.float64("nan"), np.float64("inf"), np.int32(7)]
    return out + [float(v) for v in np.concatenate([r.normal(size=n), r.uniform(0, 1, n), r.uniform(.9, 1.1, n), r.uniform(-1e-6, 1e-6, n), 10 ** r.uniform(-300, 300, n), -10 ** r.uniform(-300, 300, n)])]


def judge(ck, key, v, rng_name, vals):
    for val in vals:
        want = bool(IN[rng_name](val))
        for how, f in (("call", v), ("validate", getattr(v, "validate", v))):
            o = observe(f, val)
            ck.ev()
            ck.count("validated-values")
            if o.kind != "ok" or bool(o.value) != want or not isinstance(o.value, (bool, np.bool_)):
                ck.violation(f"{key}:value", f"{how}({val!r}) gives {o.short()}, stated range {rng_name} means {want}", repr(val))
        ck.nontrivial(key, repr(val))


def draw(ck, d, par, size=400):
    from pysatl_criterion.utils.generator import get_available_generator
    np.random.seed(11)
    o = observe(lambda: get_available_generator(d, dict(par)).generate(size), cpu=30)
    if o.kind != "ok":
        return None, o.short()
    x = np.asarray(o.value, float)
    return (x, "") if x.shape == (size,) and np.all(np.isfinite(x)) else (None, f"non-finite or {x.shape}")


def run(ck):
    from pysatl_criterion import DistributionType as DT
    from pysatl_criterion.distribution import distributions as D, validator as V
    from pysatl_criterion.utils.distribution import get_available_distribution_descriptor
    from pysatl_criterion.utils.generator import get_available_generator
    r = ck.rng("c32")
    vals = values(r, 2000 if ck.thorough else 60)
    for cls, rng_name in ((V.PositiveNumberValidator, POS), (V.NonNegativeNumberValidator, NONNEG), (V.ProbabilityValidator, PROB)):
        judge(ck, cls.__name__, cls(), rng_name, vals)
    known = {V.PositiveNumberValidator: POS, V.NonNegativeNumberValidator: NONNEG, V.ProbabilityValidator: PROB}

    def subs(c):
        for s in c.__subclasses__():
            yield s
            yield from subs(s)
    per_type = {}
    import inspect
    for c in set(subs(D.DistributionDescriptor)):
        if not inspect.isabstract(c) and c.__module__.startswith("pysatl_criterion"):
            per_type.setdefault(c.type(), []).append(c.__name__)
    for d in DT:
        ck.ev()
        name = d.name
        if name not in RANGES:
            ck.violation(f"{name}:no-model", f"distribution type {d} is not covered by the monitor", None)
            continue
        if len(per_type.get(d, [])) != 1:
            ck.violation(f"{name}:descriptors", f"descriptors of {d}: {per_type.get(d)}", None)
        o = observe(get_available_distribution_descriptor, d)
        if o.kind != "ok" or o.value.type() != d:
            ck.violation(f"{name}:lookup", f"descriptor lookup gave {o.short()}", None)
            continue
        desc = o.value
        ps = desc.parameters()
        names = [p.name for p in ps]
        if len(set(names)) != len(names):
            ck.violation(f"{name}:names", f"duplicate parameters {names}", None)
        dflt = {p.name: p.default for p in ps}
        # names are those the generator works with
        o = observe(get_available_generator, d, dict(dflt))
        if o.kind != "ok":
            ck.violation(f"{name}:defaults", f"generator rejects the descriptor defaults {dflt}: {o.short()}", dflt)
            continue
        gp = o.value.parameters()
        ck.count("descriptor-generator-pairs")
        if set(gp) != set(names):
            ck.violation(f"{name}:names", f"descriptor lists {sorted(names)}, the generator has {sorted(gp)}", None)
        if any(gp.get(k) != v for k, v in dflt.items()):
            ck.violation(f"{name}:names", f"generator built from the defaults {dflt} has parameters {gp}", None)
        x, why = draw(ck, d, dflt, 2000 if name in G.SLOW else 20000)
        ck.ev()
        if x is None:
            ck.violation(f"{name}:defaults", f"cannot draw from the default parameters {dflt}: {why}", dflt)
            continue
        ck.count("default-draws")
        if set(dflt) <= set(RANGES[name]) and set(names) == set(RANGES[name]):
            with np.errstate(all="ignore"):
                fails, n = G.uniformity(G.SPEC[name][1](x, **dflt))
            ck.ev(n)
            if fails:
                ck.violation(f"{name}:default-draws", f"draws under the descriptor defaults {dflt}: {fails[0]}", dflt)
        for p in ps:
            key = f"{name}.{p.name}"
            rng_name = RANGES[name].get(p.name)
            ck.ev()
            if rng_name is None:
                ck.violation(f"{key}:unknown", f"parameter not documented by the generator (default {p.default})", None)
                continue
            ck.nontrivial(key)
            if p.default is None or isinstance(p.default, str) or p.default != p.default or not IN[rng_name](p.default):
                ck.violation(f"{key}:default", f"default {p.default!r} outside the stated range {rng_name}", None)
            if p.validator is None:
                if rng_name != ANY:
                    ck.violation(f"{key}:validator", f"stated range {rng_name} but no validator", None)
            else:
                if not p.validator(p.default):
                    ck.violation(f"{key}:default", f"own validator rejects the default {p.default!r}", None)
                if rng_name == ANY:
                    for v in (-1e6, -1.0, 0.0, 1e6):
                        if not p.validator(v):
                            ck.violation(f"{key}:validator", f"rejects {v} although every real number is allowed", None)
                else:
                    judge(ck, key, p.validator, rng_name, vals[:120] if not ck.thorough else vals[:2000])
            # accepted values, boundary included, can be drawn from; the parameter really reaches the generator and the draws
            base = dict(G.SPEC[name][4][0]) if set(G.SPEC[name][4][0]) == set(names) else dict(dflt)
            base = {k: base.get(k, dflt[k]) for k in dflt}
            for v in {POS: [.3, 1, 2.5, 17], NONNEG: [0, .3, 2.5, 17], PROB: [0, .25, 1], ANY: [-1.5, 0, 2]}[rng_name]:
                q = dict(base)
                q[p.name] = v
                if "b" in q and "a" in q and name in ("UNIFORM", "TRUNC_NORMAL") and not q["a"] < q["b"]:
                    continue
                y, why = draw(ck, d, q)
                ck.ev()
                ck.count("accepted-values-drawn")
                if y is None:
                    ck.violation(f"{key}:accepted-but-undrawable", f"{q}: {why}", q)
                got = observe(get_available_generator, d, q)
                if got.kind != "ok" or got.value.parameters().get(p.name) != v:
                    ck.violation(f"{key}:not-taken", f"generator built with {q} has {got.value.parameters() if got.kind == 'ok' else got.short()}", q)
        # each call describes the distribution afresh
        first = [(p.name, p.default, p.display_name, p.description, type(p.validator)) for p in desc.parameters()]
        lst = desc.parameters()
        for edit in (lambda: setattr(lst[0], "default", 1234.5), lambda: setattr(lst[0], "name", "junk"), lambda: lst.clear()):
            observe(edit)       # refused when the description is immutable
        again = [(p.name, p.default, p.display_name, p.description, type(p.validator)) for p in get_available_distribution_descriptor(d).parameters()]
        ck.ev()
        if again != first:
            ck.violation(f"{name}:shared", "editing a returned descriptor changes later ones", None)
        for p in desc.parameters():
            if not p.display_name or not isinstance(p.name, str):
                ck.violation(f"{name}.{p.name}:label", f"{p}", None)
        ck.sample(name, {"defaults": dflt, "ranges": RANGES[name]})
    for bad in (None, "normal", 17):
        o = observe(get_available_distribution_descriptor, bad)
        ck.ev()
        if o.kind == "ok":
            ck.violation("lookup:unknown", f"lookup of {bad!r} gave {o.short()}", None)
    listed = observe(DT.list)
    if listed.kind != "ok" or sorted(listed.value) != sorted(m.value for m in DT) or any(DT(m.value) is not m for m in DT):
        ck.violation("DistributionType:list", listed.short(), None)
    ck.need("validated-values", 2000)
    ck.need("descriptor-generator-pairs", 21)
    ck.need("default-draws", 21)
    ck.need("accepted-values-drawn", 100)
