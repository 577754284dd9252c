"""C08: graph criteria vs the quantities of an explicitly built proximity graph."""
import itertools
from fractions import Fraction
import numpy as np
from pv import catalog as C
from pv.core import observe, close, parallel
from pv.formula import shaped, random_kw, ALLKINDS
RULE = ("18 graph criteria (3 families x 6 quantities) x null parameters x sample sizes 2..120 x sample shapes (null, alternatives, ties, repeats, outliers, "
        "clusters, equally spaced, scale extremes, samples with pairs exactly at the threshold); oracle = adjacency matrix built from the sample by definition, "
        "clique and independence numbers by exhaustive search up to 13 vertices; the six values of one sample are also compared with each other; "
        "evaluation = one criterion execution; non-trivial = graph neither empty nor complete")
ASSUMPTIONS = ["threshold = range/10 over the population variance (normal), over the mean (exponential), of the null-cdf-transformed sample (gamma)",
               "samples with a pair within rounding of the threshold are only used when the threshold is exact in binary floating point"]
Q = ("EdgesNumber", "MaxDegree", "AverageDegree", "ConnectedComponents", "CliqueNumber", "IndependenceNumber")
SUF = {"normal": "NormalityGofStatistic", "exponent": "ExponentialityGofStatistic", "gamma": "GammaGofStatistic"}


def threshold(fam, x, null):
    if fam == "gamma":
        x = null.cdf(np.sort(x))
    base = (x.max() - x.min()) / 10
    if fam == "normal":
        return x, base / float(np.mean((x - x.mean()) ** 2))
    if fam == "exponent":
        return x, base / float(np.mean(x))
    return x, base


def exact_threshold(fam, x):
    f = [Fraction(v) for v in x.tolist()]
    m = sum(f) / len(f)
    base = (max(f) - min(f)) / 10
    return base / (sum((v - m) ** 2 for v in f) / len(f) if fam == "normal" else m)


def truth(adj):
    n = len(adj)
    deg = adj.sum(axis=1)
    seen, comp = set(), 0
    for i in range(n):
        if i in seen:
            continue
        comp += 1
        todo = [i]
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            todo += [int(w) for w in np.flatnonzero(adj[v])]
    out = {"EdgesNumber": int(deg.sum()) // 2, "MaxDegree": int(deg.max()), "AverageDegree": float(deg.mean()), "ConnectedComponents": comp}
    if n <= 13:
        bits = [sum(1 << j for j in range(n) if adj[i, j]) for i in range(n)]
        full = (1 << n) - 1

        def best(nb):
            top = 0

            def go(cand, size):
                nonlocal top
                top = max(top, size)
                while cand and size + bin(cand).count("1") > top:
                    v = cand & -cand
                    cand ^= v
                    go(cand & nb[v.bit_length() - 1], size + 1)
            go(full, 0)
            return top
        out["CliqueNumber"] = best(bits)
        out["IndependenceNumber"] = best([full & ~b & ~(1 << i) for i, b in enumerate(bits)])
    return out


def interval_numbers(y, d):
    """Clique and independence numbers of the unit interval graph of the points y."""
    y = sorted(y)
    a = np.array(y)
    cl = max(int(np.sum((a[i:] == v) | (a[i:] - v < d))) for i, v in enumerate(y))
    ind, last = 0, None
    for v in y:
        if last is None or v - last >= d:
            ind, last = ind + 1, v
    return cl, ind


def exact_samples(rng, fam):
    """Samples on a binary grid whose threshold is exact in floating point and equals the distance of some pair."""
    while True:
        n = int(rng.choice([4, 8, 16]))
        if fam == "exponent":       # range 10, mean a power of two
            mean = float(rng.choice([1, 2, 4, 8]))
            lo = float(rng.integers(0, max(1, int(mean * 8)))) / 8
            rest = np.round(rng.beta(.5, 1.5, n - 3) * 80) / 8 + lo
            last = n * mean - (lo + lo + 10) - rest.sum()
            if not lo <= last <= lo + 10:
                continue
            x = np.concatenate([[lo, lo + 10, last], rest])
        else:                       # symmetric, range 10, variance a power of two
            var, h = float(rng.choice([1, 2, 4, 8, 16])), n // 2
            u = np.round(rng.beta(.6, 1, max(h - 2, 0)) * 40) / 8
            last = h * var - 25 - float((u ** 2).sum())
            r = round(8 * last ** .5) / 8 if last >= 0 else -1
            if h < 2 or r < 0 or r > 5 or r * r != last:
                continue
            u = np.concatenate([[5, r], u])
            x = np.concatenate([u, -u]) + float(rng.integers(-40, 40)) / 8
        rng.shuffle(x)
        t = exact_threshold(fam, x)
        if any(abs(Fraction(a) - Fraction(b)) == t for a, b in itertools.combinations(x.tolist(), 2)):
            yield x


def run(ck):
    have = C.classes()
    for fam, suf in SUF.items():
        for q in Q:
            if "Graph" + q + suf not in have:
                ck.violation(f"Graph{q}{suf}:missing", "criterion class is no longer offered")
    sizes = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 40, 90, 1501] if not ck.thorough else list(range(2, 31)) + [50, 77, 120, 250, 601, 1501, 2050]
    reps = 2 if not ck.thorough else 25

    def judge(sub, fam, kw, x, kind, exact=None):
        null = C.null(fam, kw)
        y, d = threshold(fam, x, null)
        if not np.isfinite(d) or np.ptp(y) == 0:
            return
        gap = np.abs(y[:, None] - y[None, :])
        if exact is None:
            off = gap[~np.eye(len(y), dtype=bool)]
            if np.min(np.abs(off - d)) <= 1e-9 * max(np.ptp(y), d) + 4 * np.finfo(float).eps * np.max(np.abs(y)):
                sub.count("threshold-too-close")
                return
        else:
            d = exact
        adj = (gap < d) & ~np.eye(len(y), dtype=bool)
        want = truth(adj)
        cl, ind = interval_numbers(y.tolist(), d)
        if len(y) <= 13:
            assert (want["CliqueNumber"], want["IndependenceNumber"]) == (cl, ind)
            sub.count("exhaustive-search")
        want["CliqueNumber"], want["IndependenceNumber"] = cl, ind
        if 0 < want["EdgesNumber"] < len(y) * (len(y) - 1) // 2:
            sub.nontrivial(fam, kind, len(y), float(x[0]), float(x[-1]))
            sub.count("nontrivial-graphs")
        if 1 < want["ConnectedComponents"] < len(y):
            sub.count("graphs-with-several-components")
        if exact is not None:
            sub.count("pairs-exactly-at-threshold")
        for q in Q:
            name = "Graph" + q + SUF[fam]
            if name not in have:
                continue
            o = observe(have[name](**kw).execute_statistic, x.copy())
            sub.ev()
            sub.count(f"executions:{q}:{fam}")
            case = {"class": name, "kwargs": kw, "sample": x, "threshold": d, "expected": want[q], "got": o.short()}
            if o.kind != "ok" or not close(o.value, want[q], 1e-12, 1e-12):
                sub.violation(f"{name}:differs" + ("-at-threshold" if exact is not None else ""),
                              f"n={len(x)} {kind} {kw}: got {o.short()}, the graph has {want[q]}", case)
            sub.sample(name, case)

    def worker(sub, task):
        fam, n, rep = task
        rng = sub.rng(fam, n, rep)
        for kind in ALLKINDS + ("cluster", "grid", "big", "small") if n < 300 else ("null", "low", "cluster"):
            for kw in (C.PARAMS[fam][int(rng.integers(len(C.PARAMS[fam])))], random_kw("Graph", fam, rng)):
                base = kind if kind in ALLKINDS else "null"
                x = shaped(fam, kw, n, rng, base)
                if kind == "cluster":
                    c = rng.choice(x, max(2, n // 4))
                    x = rng.choice(c, n) * (1 + 1e-3 * rng.uniform(0, 1, n))
                elif kind == "grid":
                    x = np.arange(1, n + 1) * float(rng.choice([.03, .4, 1.7]))
                    rng.shuffle(x)
                elif kind == "big":
                    x = x * (1e6 if fam != "gamma" else 1)
                elif kind == "small":
                    x = x * (1e-6 if fam != "gamma" else 1)
                judge(sub, fam, kw, x, kind)
                # samples on the scale where the threshold is a moderate fraction of the range
                if fam != "gamma" and np.ptp(x) > 0:
                    s = np.exp(rng.uniform(np.log(.05), np.log(20)))
                    z = x / np.std(x) * s if fam == "normal" else x / np.mean(x) * s
                    judge(sub, fam, kw, z, kind + "-rescaled")

    def exact_worker(sub, fam):
        rng = sub.rng("exact", fam)
        for i, x in enumerate(exact_samples(rng, fam)):
            if i >= (600 if ck.thorough else 60):
                break
            judge(sub, fam, {}, x, "exact", float(exact_threshold(fam, x)))
    parallel(ck, [(f, n, r) for n in reversed(sizes) for f in SUF for r in range(reps if n < 300 else 1)], worker)
    parallel(ck, ["normal", "exponent"], exact_worker)
    for q in Q:
        for fam in SUF:
            ck.need(f"executions:{q}:{fam}", 50)
    ck.need("nontrivial-graphs", 100)
    ck.need("graphs-with-several-components", 50)
    ck.need("pairs-exactly-at-threshold", 20)
    ck.need("exhaustive-search", 50)
