"""C25: relations every multiple-testing decision must satisfy, whatever the adjustment."""
from pv.core import observe, close
RULE = ("random p-value lists; each is tested, permuted, shrunk/grown, extended by null p-values (1.0) and swept over "
        "thresholds including values equal to an adjusted p-value; invalid values injected at random positions; an "
        "evaluation is one test()/adjust() call judged; non-trivial = list of >= 2 p-values")


def run(ck):
    from pysatl_criterion import BenjaminiYekutieli, BonferroniMultipleTesting, Holm, SidakHolm, SidakMultipleTesting
    M = dict(Bonferroni=BonferroniMultipleTesting, Sidak=SidakMultipleTesting, Holm=Holm, SidakHolm=SidakHolm,
             BenjaminiYekutieli=BenjaminiYekutieli)
    r = ck.rng("c25")
    reps = 350 if not ck.thorough else 6000
    kept = []   # results handed out earlier, with a copy of what they were
    bads = [-0.1, 1.1, float("nan"), float("inf"), -1e-9, 1.0000001, 2.0, -float("inf")]
    for j in range(reps):
        n = int(r.choice([0, 1, 2, 3, 5, 8, 15, 40]))
        p = r.random(n) ** float(r.choice([1, 3, 8]))
        if n and j % 3 == 0:
            p = r.choice([.001, .01, .01, .04, .5, 1., 0.], n)
        p = [float(x) for x in p]
        thr = float(r.choice([.01, .05, .1, .5, .2, 1e-3]))
        for name, cls in M.items():
            def call(f, *a):
                ck.ev()
                o = observe(f, *a)
                if o.kind != "ok":
                    ck.violation(f"{name}:no-result", f"{name} on {a[0][:10]}: {o.short()}", a)
                    return None
                if r.random() < .25:
                    parts = list(o.value) if isinstance(o.value, tuple) else [o.value]
                    kept.append((name, [(x, list(x)) for x in parts if isinstance(x, list)], list(a[0])))
                return o.value
            q = list(p)
            res = call(cls.test, q, thr)
            if q != p:
                ck.violation(f"{name}:mutates-input", f"{p} became {q}", p)
            if res is None:
                continue
            if n > 1:
                ck.nontrivial(name, tuple(p), thr)
            try:
                rej, adj = res
                rej, adj = list(rej), list(adj)
            except Exception:
                ck.violation(f"{name}:shape", f"test() returned {res!r}", p)
                continue
            ck.count(name)
            ck.sample(name, {"p": p, "threshold": thr, "rejected": rej, "adjusted": adj})
            if len(rej) != n or len(adj) != n:
                ck.violation(f"{name}:length", f"{n} p-values gave {len(rej)} decisions, {len(adj)} adjusted", p)
                continue
            for i in range(n):
                if bool(rej[i]) != (adj[i] < thr):
                    ck.violation(f"{name}:decision", f"adjusted {adj[i]!r} threshold {thr} rejected={rej[i]}", [p, thr])
            q = list(p)
            a2 = call(cls.adjust, q)
            if q != p:
                ck.violation(f"{name}:adjust-mutates-input", f"{p} became {q}", p)
            if a2 is not None and list(a2) != adj:
                ck.violation(f"{name}:adjust-differs", f"adjust {a2} vs test {adj}", p)
            if n == 0:
                ck.count("empty")
                continue
            # default threshold is 5 %
            d = call(cls.test, list(p))
            if d is not None and [bool(x) for x in d[0]] != [a < 0.05 for a in d[1]]:
                ck.violation(f"{name}:default-threshold", f"default test() of {p}: {d}", p)
            # threshold equal to an adjusted value: not rejected; just above: rejected
            i = int(r.integers(n))
            t = float(adj[i])
            d = call(cls.test, list(p), t)
            if d is not None and bool(d[0][i]):
                ck.violation(f"{name}:boundary", f"rejected although adjusted == threshold == {t}", [p, t])
            # monotone in the threshold
            d = call(cls.test, list(p), min(1.0, thr * 1.7))
            if d is not None and any(a and not b for a, b in zip(rej, d[0])):
                ck.violation(f"{name}:threshold-monotone", f"{p}: rejected at {thr} but not at {thr * 1.7}", p)
            # equivariance
            perm = [int(x) for x in r.permutation(n)]
            d = call(cls.test, [p[k] for k in perm], thr)
            if d is not None:
                ok = len(d[0]) == n and all(bool(d[0][a]) == bool(rej[k]) and close(d[1][a], adj[k], 1e-12, 1e-300)
                                            for a, k in enumerate(perm))
                if not ok:
                    ck.violation(f"{name}:permutation", f"p={p} perm={perm}: {d} vs {(rej, adj)}", [p, perm])
            # growing p-values never creates rejections / lowers adjusted values
            g = [min(1.0, x + (float(r.random()) * .3 if r.random() < .6 else 0.0)) for x in p]
            d = call(cls.adjust, g)
            if d is not None and any(b < a * (1 - 1e-9) for a, b in zip(adj, d)):
                ck.violation(f"{name}:p-monotone", f"p {p} -> {g} lowered adjusted {adj} -> {d}", [p, g])
            # adding hypotheses with p = 1 never lowers adjusted values
            k = int(r.integers(1, 6))
            d = call(cls.adjust, list(p) + [1.0] * k)
            if d is not None and (len(d) != n + k or any(b < a * (1 - 1e-9) for a, b in zip(adj, d))):
                ck.violation(f"{name}:added-hypotheses", f"adding {k} null hypotheses: {adj} -> {d}", p)
            # invalid values are refused wherever they stand
            b = bads[int(r.integers(len(bads)))]
            pos = int(r.integers(n + 1))
            q = p[:pos] + [b] + p[pos:]
            for fn, label in ((cls.test, "test"), (cls.adjust, "adjust")):
                ck.ev()
                ck.count("invalid-injected")
                o = observe(fn, q)
                if o.kind == "ok":
                    ck.violation(f"{name}:{label}-accepts-invalid", f"{name}.{label}({q}) returned {o.short()}", q)
                elif not isinstance(o.exc, ValueError):
                    ck.violation(f"{name}:{label}-wrong-error", f"{name}.{label}({q}): {o.short()}", q)
        if len(kept) > 40 or j == reps - 1:
            for name, parts, p0 in kept:
                ck.ev()
                ck.count("kept-results")
                for x, was in parts:
                    if not (len(x) == len(was) and all(type(u) is type(v) and (u == v or u != u) for u, v in zip(x, was))):
                        ck.violation(f"{name}:earlier-result-changed", f"the result for {p0[:8]} was {was[:8]}, later calls made it {x[:8]}", p0)
            ids = [id(x) for _, parts, _ in kept for x, _ in parts]
            if len(set(ids)) != len(ids):
                ck.violation("shared-result", "two calls returned the same list object", None)
            for _, parts, _ in kept[::2]:       # callers own their results: spoiling one must not reach later calls
                for x, _ in parts:
                    x[:] = [-7.0] * (len(x) + 1)
            kept.clear()
    for nme in M:
        ck.need(nme, 50)
    ck.need("kept-results", 100)
    ck.need("invalid-injected", 100)
