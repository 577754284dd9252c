"""C20: p-values against exact counting."""
import math
from bisect import bisect_right
from fractions import Fraction
from pv.core import observe
RULE = ("limit samples of size 1..100001 (continuous, heavily tied, integer, huge/tiny scale, unsorted) x observed values at, "
        "between, below and above the simulated ones; evaluation = one calculate() call compared with exact counting; "
        "non-trivial = limit sample of >= 2 values")


def limits(ck, r):
    reps = 140 if not ck.thorough else 5000
    sizes = [1000, 1025, 2000, 4097, 5000, 8193, 10001, 16385, 20001, 33000, 65537, 100001]
    big = dict(zip(range(3, reps, 11 if not ck.thorough else 40), sizes * (1 if not ck.thorough else 7)))
    for j in range(reps):
        n = int(r.choice([1, 2, 3, 5, 10, 37, 100, 500, 3000], p=[.05, .1, .1, .15, .2, .15, .15, .08, .02]))
        if j in big:
            n = big[j]
        k = (0, 2, 3, 4, 6)[j % 5] if j in big else j % 7   # many distinct values, so that every one of them counts
        if k == 0:
            x = r.normal(size=n)
        elif k == 1:
            x = r.integers(0, 5, n).astype(float)
        elif k == 2:
            x = r.exponential(size=n) * 1e12
        elif k == 3:
            x = r.normal(size=n) * 1e-12
        elif k == 4:
            x = -r.exponential(size=n)
        elif k == 5:
            x = r.choice([0.0, 0.0, 0.0, 1.0, -0.0], n)
        else:
            x = r.standard_cauchy(n)
        yield ("normal", "integer", "huge", "tiny", "negative", "atoms", "cauchy")[k], [float(v) for v in x]


def infinite(ck, r):
    """Limit samples in which some simulated statistics are infinite (power divergences of an empty cell, log-normal criteria)."""
    for _ in range(60 if not ck.thorough else 1500):
        n = int(r.choice([1, 2, 3, 5, 10, 20, 21, 100, 1000]))
        x = r.normal(size=n)
        k = int(r.integers(0, n + 1)) if r.uniform() < .7 else 1
        sign = int(r.integers(3))
        x[:k] = math.inf if sign == 0 else -math.inf
        if sign == 2:
            x[:k // 2] = math.inf
        yield "infinite", [float(v) for v in r.permutation(x)]


def points(r, x, k=6):
    s = sorted(x)
    out = [s[0], s[-1], s[0] - 1 - abs(s[0]), s[-1] + 1 + abs(s[-1])]
    for _ in range(k):
        i = int(r.integers(len(s)))
        out.append(s[i])
        out.append(math.nextafter(s[i], math.inf))
        out.append(math.nextafter(s[i], -math.inf))
        j = int(r.integers(len(s)))
        out.append((s[i] + s[j]) / 2)
    return out


def run(ck):
    from pysatl_criterion.hypothesis_testing.p_value.calculator import p_value_calculator as pc
    from pysatl_criterion.hypothesis_testing.alternative_factory.alternative_factories import AbstractAlternativeFactory
    from pysatl_criterion.statistics.alternative import AlternativeType
    F = AbstractAlternativeFactory.get_concrete_factory
    calcs = {"left": [pc.LeftPValueCalculator(), F(AlternativeType.LEFT).get_p_value_calculator()],
             "right": [pc.RightPValueCalculator(), F(AlternativeType.RIGHT).get_p_value_calculator()],
             "two": [pc.TwoSidedPValueCalculator(), F(AlternativeType.TWO_TAILED).get_p_value_calculator()]}
    r = ck.rng("c20")
    import itertools
    for kind, x in itertools.chain(limits(ck, r), infinite(ck, ck.rng("infinite"))):
        n = len(x)
        if kind == "infinite":
            fin = [v for v in x if math.isfinite(v)] or [0.0]
            pts = sorted(points(r, fin, 1) + [math.inf, -math.inf])
        else:
            pts = sorted(points(r, x, 6 if n <= 3000 else 2))
        srt = sorted(x)
        if n > 3000:  # fewer observed values on the large samples
            pts = [pts[int(i)] for i in sorted(r.choice(len(pts), 4, replace=False))]
        prev = {}
        for s in pts:
            c = Fraction(bisect_right(srt, s), n)
            want = {"left": c, "right": 1 - c, "two": 2 * min(c, 1 - c)}
            for side, cs in calcs.items():
                for which, calc in enumerate(cs):
                    y = list(x)
                    ck.ev()
                    o = observe(calc.calculate, y, s)
                    tag = f"{side}:{'factory' if which else 'direct'}"
                    if y != x:
                        ck.violation(f"{tag}:mutates-limit", "limit sample modified", [x, s])
                    if o.kind != "ok":
                        ck.violation(f"{tag}:no-result", o.short(), [x, s])
                        continue
                    ck.count(side)
                    if n > 1:
                        ck.nontrivial(side, which, tuple(x[:20]), n, s)
                    v = o.value
                    if not (isinstance(v, float) and abs(v - float(want[side])) <= 1e-12):
                        ck.violation(f"{tag}:value", f"{tag} p-value of {s!r} in {sorted(x)[:12]}.. (n={n}): got {v!r}, counting "
                                     f"gives {float(want[side])!r}", {"limit": x, "s": s})
                        continue
                    if not (0.0 <= v <= 1.0):
                        ck.violation(f"{tag}:range", f"p-value {v!r} outside [0,1]", [x, s])
                    if side != "two" and which == 0:
                        if side in prev and ((side == "left" and v < prev[side]) or (side == "right" and v > prev[side])):
                            ck.violation(f"{tag}:monotone", f"p-value not monotone at {s}", [x, s])
                        prev[side] = v
                    if which == 0:
                        ck.sample(f"{side}:{kind}", {"limit": sorted(x)[:8], "n": n, "s": s, "p": v})
            # order of the simulated values must not matter
            ck.count("shuffles")
            y = [x[int(i)] for i in r.permutation(n)]
            if s not in (pts[0], pts[len(pts) // 2], pts[-1]) or (n > 3000 and s != pts[0]):
                continue
            for side, cs in calcs.items():
                ck.ev()
                a, b = observe(cs[0].calculate, list(x), s), observe(cs[0].calculate, y, s)
                if a.kind == b.kind == "ok" and a.value != b.value:
                    ck.violation(f"{side}:order-dependent", f"{a.value!r} vs {b.value!r}", [x, y, s])
    for s in calcs:
        ck.need(s, 500)
