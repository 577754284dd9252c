"""C21: critical values against the sample quantile computed from order statistics, and the acceptance areas."""
import math
from fractions import Fraction
from pv.core import observe, close
from pv.checks.c20 import infinite, limits
RULE = ("limit samples of size 1..3000 (continuous, heavily tied, integer, huge/tiny, unsorted) x levels 1e-4..0.999; evaluation "
        "= one calculate()/contains() call judged against order statistics; non-trivial = limit sample of >= 2 values")
ASSUMPTIONS = ["quantile = linear interpolation between order statistics (the convention the project's tests fix)"]


def quantile(sx, q):
    pos = Fraction(q) * (len(sx) - 1)
    k = int(pos)
    if k >= len(sx) - 1:
        return sx[-1]
    f = float(pos - k)
    return sx[k] + (sx[k + 1] - sx[k]) * f


def neighbours(sx, q):
    """The order statistics (and weight) the quantile interpolates; both readings when the position is an integer up to rounding."""
    pos = Fraction(q) * (len(sx) - 1)
    out = []
    for p in {pos, Fraction(round(pos))} if abs(pos - round(pos)) < Fraction(1, 10 ** 9) else {pos}:
        k = min(int(p), len(sx) - 1)
        out.append((sx[k], sx[min(k + 1, len(sx) - 1)] if p > k else sx[k], float(p - k)))
    return out


def between(g, lo, hi, f):
    if lo == hi or math.isinf(lo):
        return g == lo
    if math.isinf(hi):
        return g == hi
    return close(g, lo + (hi - lo) * f, 1e-9, 1e-9)


def run(ck):
    from pysatl_criterion.hypothesis_testing.critical_values.calculator import critical_value_calculator as cc
    from pysatl_criterion.hypothesis_testing.critical_values.critical_area import critical_areas as ca
    from pysatl_criterion.hypothesis_testing.alternative_factory.alternative_factories import AbstractAlternativeFactory
    from pysatl_criterion.statistics.alternative import AlternativeType
    F = AbstractAlternativeFactory.get_concrete_factory
    sides = {"left": (cc.LeftCriticalValueCalculator(), F(AlternativeType.LEFT)),
             "right": (cc.RightCriticalValueCalculator(), F(AlternativeType.RIGHT)),
             "two": (cc.TwoSidedCriticalValueCalculator(), F(AlternativeType.TWO_TAILED))}
    r = ck.rng("c21")
    for kind, x in limits(ck, r):
        sx = sorted(x)
        n = len(x)
        scale = max(abs(sx[0]), abs(sx[-1]))
        levels = sorted({float(v) for v in r.choice([1e-4, .001, .01, .025, .05, .1, .2, .25, .5, .75, .9, .999], 4)}
                        | {float(r.random() * .5)}, reverse=True)
        prev = {}
        for a in levels:
            for side, (calc, fac) in sides.items():
                for which, c in enumerate((calc, fac.get_critical_value_calculator())):
                    tag = f"{side}:{'factory' if which else 'direct'}"
                    y = [x[int(i)] for i in r.permutation(n)] if which else list(x)
                    y0 = list(y)
                    ck.ev()
                    o = observe(c.calculate, y, a)
                    if y != y0:
                        ck.violation(f"{tag}:mutates-limit", "limit sample modified", [x, a])
                    if o.kind != "ok":
                        ck.violation(f"{tag}:no-result", o.short(), [x, a])
                        continue
                    ck.count(side)
                    if n > 1:
                        ck.nontrivial(side, which, tuple(x[:20]), n, a)
                    cv = o.value
                    want = {"left": (quantile(sx, a),), "right": (quantile(sx, 1 - a),),
                            "two": (quantile(sx, a / 2), quantile(sx, 1 - a / 2))}[side]
                    try:
                        got = tuple(cv) if side == "two" else (cv,)
                        good = len(got) == len(want) and all(close(g, w, 1e-9, 1e-11 * scale + 1e-300) for g, w in zip(got, want))
                    except TypeError:
                        got, good = (cv,), False
                    if not good:
                        ck.violation(f"{tag}:value", f"{tag} critical value at level {a} of sorted {sx[:12]}.. (n={n}): got {cv!r}, quantile {want!r}",
                                     {"limit": x, "level": a})
                        continue
                    eps = 1e-12 * scale
                    if any(g < sx[0] - eps or g > sx[-1] + eps for g in got):
                        ck.violation(f"{tag}:range", f"{cv!r} outside the simulated range", [x, a])
                    # area: built by the factory for this side
                    o = observe(fac.get_critical_area, cv)
                    if o.kind != "ok":
                        ck.violation(f"{tag}:area", o.short(), [x, a])
                        continue
                    area = o.value
                    if which == 0:
                        probes = list(got) + [math.nextafter(g, d) for g in got for d in (-math.inf, math.inf)]
                        probes += [sx[0], sx[-1], sx[0] - 1, sx[-1] + 1, (sx[0] + sx[-1]) / 2]
                        acc = {}
                        for v in probes:
                            ck.ev()
                            ck.count("area-probes")
                            w = {"left": v >= got[0], "right": v <= got[0], "two": got[0] <= v <= got[-1]}[side]
                            g = observe(area.contains, v)
                            if g.kind != "ok" or bool(g.value) != w:
                                ck.violation(f"{side}:contains", f"{side} area {cv!r} contains({v!r}) = {g.short()}, expected {w}", [cv, v])
                        outside = sum(1 for v in x if not area.contains(v))
                        if outside > a * n + (2 if side == "two" else 1) + 1e-9:
                            ck.violation(f"{side}:level", f"{outside} of {n} simulated values outside at level {a}", [x, a])
                        # levels come in decreasing order: the areas must grow
                        if side in prev:
                            p = prev[side]
                            e = 1e-12 * scale
                            if (side == "left" and got[0] > p[0] + e) or (side == "right" and got[0] < p[0] - e) or \
                               (side == "two" and (got[0] > p[0] + e or got[1] < p[1] - e)):
                                ck.violation(f"{side}:nesting", f"area shrinks as the level decreases: {p} -> {got}", [x, a])
                        prev[side] = got
                        ck.sample(f"{side}:{kind}", {"limit": sx[:8], "n": n, "level": a, "critical_value": cv})
    for cls, args, want in ((ca.LeftCriticalArea, (1.5,), lambda v: v >= 1.5), (ca.RightCriticalArea, (1.5,), lambda v: v <= 1.5),
                            (ca.TwoSidedCriticalArea, (-1.0, 1.5), lambda v: -1 <= v <= 1.5)):
        area = cls(*args)
        for v in (-math.inf, -2., -1., math.nextafter(-1., -9), 0., 1.5, math.nextafter(1.5, 9), 2., math.inf):
            ck.ev()
            ck.count("area-probes")
            if bool(area.contains(v)) != want(v):
                ck.violation(f"{cls.__name__}:contains", f"{args} contains({v}) = {area.contains(v)}", [args, v])
    ri = ck.rng("infinite")
    for kind, x in infinite(ck, ri):
        sx, n = sorted(x), len(x)
        for a in [float(v) for v in ri.choice([.01, .05, .1, .2, .25, .5], 3)] + [float(ri.random() * .5)]:
            for side, (calc, fac) in sides.items():
                o = observe(calc.calculate, list(x), a)
                ck.ev()
                want = {"left": (a,), "right": (1 - a,), "two": (a / 2, 1 - a / 2)}[side]
                nb = [neighbours(sx, q) for q in want]
                if any(lo == -math.inf and hi == math.inf for c in nb for lo, hi, _ in c):
                    continue  # no quantile between the two infinities
                ck.count("infinite limits")
                ck.nontrivial("infinite", side, tuple(sx[:20]), n, a)
                got = None if o.kind != "ok" else tuple(o.value) if side == "two" else (o.value,)
                if got is None or len(got) != len(want) or not all(any(between(g, *c) for c in cs) for g, cs in zip(got, nb)):
                    ck.violation(f"{side}:infinite", f"{side} critical value at level {a} of {sx[:6]}..{sx[-6:]} (n={n}) with infinite values: {o.short()}", {"limit": x, "level": a})
    ck.need("infinite limits", 300)
    for s in sides:
        ck.need(s, 500)
