"""C24: adjusted p-values against textbook definitions written independently (exact rational step rules)."""
import math
from fractions import Fraction
from pv.core import observe, close
RULE = ("random and structured p-value lists (ties, 0, 1, tiny, sorted/reversed, clustered around alpha/m, length 0..400 "
        "and >10000); an evaluation is one adjust() call compared element-wise with the textbook rule; "
        "distinct = different (method, list); non-trivial = at least 2 hypotheses")
ASSUMPTIONS = ["textbook definitions: Bonferroni min(1,mp); Sidak 1-(1-p)^m; Holm running max of (m-i+1)p; "
               "Sidak-Holm running max of 1-(1-p)^(m-i+1); Benjamini-Yekutieli running min of p*m*H_m/i"]


def bonf(p):
    m = len(p)
    return [float(min(Fraction(1), Fraction(x) * m)) for x in p]


def sid(p, m):
    return 1.0 if p >= 1 else -math.expm1(m * math.log1p(-p))


def sidak(p):
    return [sid(x, len(p)) for x in p]


def step(p, f, down=True):
    m = len(p)
    order = sorted(range(m), key=lambda i: p[i])
    out = [0.0] * m
    if down:
        cur = 0.0
        for k, i in enumerate(order):
            cur = max(cur, min(1.0, f(p[i], k + 1, m)))
            out[i] = cur
    else:
        cur = 1.0
        for k in range(m - 1, -1, -1):
            i = order[k]
            cur = min(cur, min(1.0, f(p[i], k + 1, m)))
            out[i] = cur
    return out


def holm(p):
    return step(p, lambda x, k, m: float(Fraction(x) * (m - k + 1)))


def hochberg(p):
    return step(p, lambda x, k, m: float(Fraction(x) * (m - k + 1)), down=False)


def sidakholm(p):
    return step(p, lambda x, k, m: sid(x, m - k + 1))


def by(p):
    h = math.fsum(1.0 / i for i in range(1, len(p) + 1))
    return step(p, lambda x, k, m: x * m * h / k, down=False)


def lists(ck, r):
    pool = [0.0, 1.0, 1e-300, 1e-18, 1e-12, 0.05, 0.01, 0.5, 0.025, 0.049999999]
    for n in (0, 1, 2, 3):
        for _ in range(8):
            yield "tiny", [pool[i] for i in r.integers(0, len(pool), n)]
    reps = 700 if not ck.thorough else 12000
    for j in range(reps):
        n = int(r.choice([2, 3, 4, 5, 7, 10, 20, 50, 120, 400], p=[.1, .15, .15, .15, .15, .1, .08, .06, .04, .02]))
        kind = ["unif", "small", "ties", "step", "sorted", "reversed", "mixed", "nearone", "pow"][j % 9]
        if kind == "unif":
            p = r.random(n)
        elif kind == "small":
            p = r.random(n) ** 6
        elif kind == "ties":
            p = r.choice([0.001, 0.01, 0.01, 0.02, 0.3, 1.0, 0.0], n)
        elif kind == "step":
            p = (1 + r.integers(0, n, n)) * 0.05 / n * r.choice([1, 1, .99, 1.01], n)
        elif kind == "sorted":
            p = sorted(r.random(n) ** 3)
        elif kind == "reversed":
            p = sorted(r.random(n) ** 3)[::-1]
        elif kind == "mixed":
            p = [pool[i] if r.random() < .4 else r.random() for i in r.integers(0, len(pool), n)]
        elif kind == "nearone":
            p = 1 - r.random(n) * 1e-3
        else:
            p = 10.0 ** -r.uniform(0, 30, n)
        yield kind, [float(min(1.0, x)) for x in p]
    for n in ((9999, 10001) if not ck.thorough else (9999, 10000, 10001, 20000, 50000)):
        yield "long", [float(x) for x in r.random(n) ** 8]


def run(ck):
    from pysatl_criterion import BenjaminiYekutieli, BonferroniMultipleTesting, Holm, SidakHolm, SidakMultipleTesting
    M = {"Bonferroni": (BonferroniMultipleTesting, bonf, None), "Sidak": (SidakMultipleTesting, sidak, None),
         "Holm": (Holm, holm, (hochberg, "holm-adjusted-values-are-hochberg-step-up")),
         "SidakHolm": (SidakHolm, sidakholm, (sidak, "sidakholm-is-plain-single-step-sidak")),
         "BenjaminiYekutieli": (BenjaminiYekutieli, by, None)}
    r = ck.rng("lists")
    for kind, p in lists(ck, r):
        for name, (cls, ref, alt) in M.items():
            ck.ev()
            ck.count(name)
            ck.count("kind:" + kind)
            if len(p) > 1:
                ck.nontrivial(name, tuple(p[:50]), len(p))
            o = observe(cls.adjust, list(p))
            if o.kind != "ok":
                ck.violation(f"{name}:no-result", f"{name}.adjust({p[:8]}...) -> {o.short()}", p)
                continue
            got = o.value
            if len(got) != len(p):
                ck.violation(f"{name}:length", f"{len(got)} adjusted values for {len(p)} p-values", p)
                continue
            rt = 1e-9 if len(p) <= 10000 else 1e-5
            at = 0.0
            want = ref(p)
            bad = [i for i in range(len(p)) if not close(got[i], want[i], rt, 1e-300)]
            if bad:
                if alt and all(close(a, b, rt, 1e-300) for a, b in zip(got, alt[0](p))):
                    ck.violation(alt[1], f"{name}.adjust gives {alt[1]}", {"p": p, "got": got, "want": want})
                else:
                    i = bad[0]
                    ck.violation(f"{name}:value", f"{name}: p={p[:12]} entry {i}: got {got[i]!r}, textbook {want[i]!r}",
                                 {"p": p, "got": got, "want": want})
                if not alt:
                    continue
            for i in range(len(p)):
                if not (got[i] <= 1.0):
                    ck.violation(f"{name}:above-one", f"adjusted {got[i]!r} > 1", p)
                if got[i] < p[i] * (1 - 1e-12):
                    ck.violation(f"{name}:below-raw", f"adjusted {got[i]!r} below raw {p[i]!r} (m={len(p)})", p)
            order = sorted(range(len(p)), key=lambda i: p[i])
            for a, b in zip(order, order[1:]):
                if got[a] > got[b] * (1 + 1e-12):
                    ck.violation(f"{name}:order", f"raw {p[a]!r}<={p[b]!r} but adjusted {got[a]!r}>{got[b]!r}", p)
            ck.sample(name + ":" + kind, {"p": p[:10], "adjusted": got[:10]})
    for n in M:
        ck.need(n, 100)
