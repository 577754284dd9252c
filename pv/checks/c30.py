"""C30: tests whose limit distribution comes from a real storage filled with near-miss records."""
import json
import numpy as np
from pv import catalog as C
from pv.core import observe, parallel
from pv.formula import random_kw
from pv.spy import FixedResolver, SpyStatistic, TeeResolver
from pv.store import Scratch, f32
RULE = ("real SQLite storages filled with the record of a criterion plus near-miss records (other code, other/reordered/extended "
        "parameters, neighbouring sample sizes, other experiments and counts); evaluation = one GoodnessOfFitTest.test() through "
        "StorageLimitDistributionResolver compared with the same test given the stored list directly, or required to report the "
        "absence; non-trivial = the storage held at least one near-miss record; every criterion class and variant takes part")
ASSUMPTIONS = ["with several records of one key, the one with the largest Monte Carlo count is meant (documented on the query)"]


def decoys(r, code, short, params, n):
    out = []
    for c in {code + "_X", code[:-1], short, code.lower(), code.replace("_", "%", 1), "X" + code}:
        if c != code:
            out.append((c, params, n))
    alts = [params + [0.0], params[:-1], [p + 1 for p in params], [p * 1.0000001 + 1e-9 for p in params], list(reversed(params))]
    alts += [[round(float(p), d) for p in params] for d in (2, 4, 6, 9, 12)] + [[float(np.float32(p)) for p in params]]
    if not params:
        alts = [[0.0], [1.0]]
    for p in alts:
        if p != params:
            out.append((code, p, n))
    out += [(code, params, m) for m in (n - 1, n + 1, n * 10, 1) if m != n and m > 0]
    return out


def one(ck, task):
    import pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test as G
    from pysatl_criterion.hypothesis_testing.limit_distribution.base import StorageLimitDistributionResolver as R
    from pysatl_criterion.persistence.models.limit_distribution import LimitDistributionModel as M
    from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage as Store
    name, vi = task
    cls = C.classes()[name]
    fam = C.family(cls)
    r = ck.rng(name, vi)
    kw = C.variants(name, fam)[vi]
    if not name.startswith("RyanJoiner") and (ck.thorough and vi % 2 or not ck.thorough and vi == 0):   # parameters with every decimal of a float
        kw = {**{q: v for q, v in kw.items() if q not in C.PARAMS[fam][0]}, **random_kw(name, fam, r)}
        ck.count("full-precision-parameters")
    o = observe(cls, **kw)
    if o.kind != "ok":
        return
    stat = o.value
    n = min(max(C.nmin(name), 12), C.nmax(name))
    x = [float(v) for v in C.sample(fam, kw, n, r, "null")]
    v = observe(cls(**kw).execute_statistic, list(x))
    if v.kind != "ok" or not np.isfinite(v.value):
        ck.count("criterion-nonfinite")
        return
    t = float(v.value)
    code, params = stat.code(), stat.hypothesis().parameters()
    with Scratch() as sc:
        st = Store(sc.url())
        st.init()
        spread = abs(t) + 1.0

        def dist(shift, k):
            return [float(a) for a in t + spread * (shift + r.normal(size=k))]
        big = bool(r.uniform() < .35)
        if big:
            # statistics of any magnitude, up to what the storage format represents
            small = dist

            def dist(shift, k):  # noqa: F811
                return [float(np.clip(a * 10.0 ** r.uniform(-30, 30), -1e37, 1e37)) if r.uniform() < .5 else a for a in small(shift, k)]
        ck.count(f"magnitudes:{'any' if big else 'usual'}")
        dec = decoys(r, code, stat.short_code(), params, n)
        # the same class with a null that differs in the last digits of one parameter is another null
        for q in C.PARAMS[fam][0]:
            if isinstance(kw.get(q), float) and kw[q] != 0:
                for f in (1 + 1e-6, 1 + 1e-11, None):
                    near = observe(lambda: cls(**{**kw, q: float(np.nextafter(kw[q], np.inf)) if f is None else kw[q] * f}))
                    if near.kind == "ok":
                        dec.append((near.value.code(), near.value.hypothesis().parameters(), n))
                        ck.count("neighbouring nulls")
        recs = [M(1, c, p, m, int(r.choice([5, 50, 100000])), dist(float(r.choice([-9, 9])), 30)) for c, p, m in dec]
        for phase in ("absent", "present"):
            if phase == "present":
                exact = [M(int(r.integers(1, 4)), code, list(params), n, cnt, dist(float(r.normal()), int(r.integers(1, 60))))
                         for cnt in sorted({int(c) for c in r.choice([1, 7, 60, 999, 5000, 10 ** 6], int(r.integers(1, 4)), replace=False)})]
                recs = exact + recs[: len(recs) // 2]
            for i in r.permutation(len(recs)):
                st.insert_data(recs[int(i)])
            res = TeeResolver(R(st))
            level = float(r.choice([.01, .05, .2, .5]))
            for m, meth in (("p", G.PValueDecisionMethod), ("cv", G.CriticalValueDecisionMethod)):
                ck.ev()
                ck.count(f"{phase}:{m}")
                ck.nontrivial(name, vi, phase, m)
                case = {"criterion": name, "kwargs": kw, "code": code, "params": params, "size": n, "level": level, "records":
                        [[q.criterion_code, q.criterion_parameters, q.sample_size, q.monte_carlo_count, q.experiment_id] for q in recs]}
                stat2 = cls(**kw)
                o = observe(G.GoodnessOfFitTest(stat2).test, list(x), level, meth(res))
                if phase == "absent":
                    if o.kind == "ok":
                        ck.violation("decided-without-record", f"{name} {kw}: no record for its null and size, yet test() returned {o.short()}", case)
                    elif not isinstance(o.exc, ValueError):
                        ck.violation("absence-not-reported", f"{name} {kw}: {o.short()} instead of ValueError", case)
                    continue
                best = max(exact, key=lambda q: q.monte_carlo_count)
                want = f32(best.results_statistics)
                if o.kind != "ok":
                    ck.violation("record-not-found" if isinstance(o.exc, ValueError) else "test-raised",
                                 f"{name} {kw}: record stored under code {code} params {params} size {n}, test(): {o.short()}", case)
                    continue
                got = [float(a) for a in res.got[-1]]
                if got != want:
                    ck.violation("wrong-record", f"{name} {kw}: used {got[:4]} ({len(got)}), the record of its key is {want[:4]} ({len(want)})", case)
                    continue
                w = observe(G.GoodnessOfFitTest(cls(**kw)).test, list(x), level, meth(FixedResolver(list(want))))
                if w.kind == "ok" and w.value != o.value:
                    ck.violation("decision-differs", f"{name} {kw}: from storage {o.value}, from the same list {w.value}", case)
                ck.count("decisions-compared")
        ck.sample(fam, {"criterion": name, "kwargs": kw, "code": code, "params": params, "size": n})
        st.engine.dispose()


def key(stat):
    return stat.code(), json.dumps(stat.hypothesis().parameters())


def run(ck):
    from pysatl_criterion import DistributionType as DT
    from pysatl_criterion.statistics.alternative import AlternativeType as AT
    from pysatl_criterion.hypothesis_testing.limit_distribution.base import StorageLimitDistributionResolver as R
    from pysatl_criterion.persistence.models.limit_distribution import LimitDistributionModel as M
    from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage as Store
    import pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test as G
    names = C.classes()
    tasks = []
    for nm, cls in names.items():
        k = len(C.variants(nm, C.family(cls)))
        tasks += [(nm, v) for v in (range(k) if ck.thorough else sorted({0, (ck.seed + 1) % k, k - 1}))]
    parallel(ck, tasks, one)
    # two constructions of one class that compute different statistics must not share a record
    r = ck.rng("keys")
    for nm, cls in names.items():
        fam = C.family(cls)
        vs = C.variants(nm, fam)
        if fam == "student" and "loc" in vs[0]:
            vs = vs + [dict(df=4, loc=2.0, scale=3.0)]
        null_names = set(C.PARAMS[fam][0])
        for i in range(len(vs)):
            for j in range(i):
                a, b = observe(cls, **vs[i]), observe(cls, **vs[j])
                if a.kind != "ok" or b.kind != "ok":
                    continue
                ck.ev()
                if key(a.value) != key(b.value):
                    ck.count("keys-differ")
                    continue
                ck.count("keys-equal")
                x = [float(v) for v in C.sample(fam, vs[i], max(16, C.nmin(nm)) if C.nmax(nm) > 16 else C.nmax(nm), r, "null")]
                va, vb = observe(a.value.execute_statistic, list(x)), observe(b.value.execute_statistic, list(x))
                if va.kind != "ok" or vb.kind != "ok" or va.value != vb.value or a.value.alternative().type() != b.value.alternative().type():
                    d = {q for q in set(vs[i]) | set(vs[j]) if vs[i].get(q) != vs[j].get(q)}
                    what = "null-parameters" if d & null_names else "options"
                    ck.violation(f"{what}-not-in-key:{nm}", f"{nm}({vs[i]}) and {nm}({vs[j]}) share the storage key {key(a.value)} although they are "
                                 "different tests", {"class": nm, "a": vs[i], "b": vs[j]})
    # the same null written with integers and with floats
    for nm, cls in names.items():
        fam = C.family(cls)
        kw = C.variants(nm, fam)[0]
        o = observe(cls, **kw)
        if o.kind != "ok" or not o.value.hypothesis().parameters():
            continue
        with_f = {q: float(v) if isinstance(v, int) and not isinstance(v, bool) and q in C.PARAMS[fam][0] else v for q, v in kw.items()}
        p = observe(cls, **with_f)
        ck.ev()
        ck.count("int-float-pairs")
        if p.kind == "ok" and p.value.hypothesis().parameters() == o.value.hypothesis().parameters() and key(p.value) != key(o.value):
            with Scratch() as sc:
                st = Store(sc.url())
                st.init()
                st.insert_data(M(1, o.value.code(), o.value.hypothesis().parameters(), 12, 10, [1.0, 2.0]))
                if R(st).resolve(o.value, 12) != [1.0, 2.0]:
                    ck.violation("record-not-found", f"{nm}: exact key not found", nm)
                if R(st).resolve(p.value, 12) is None:
                    ck.violation("integer-and-float-parameters-are-different-keys",
                                 f"record of {nm}({kw}) is not found for {nm}({with_f})", {"class": nm, "a": kw, "b": with_f})
                st.engine.dispose()
    # whole-history cases on one storage: overwrite, delete, reopen
    for h in range(12 if not ck.thorough else 150):
        rr = ck.rng("hist", h)
        with Scratch() as sc:
            st = Store(sc.url())
            st.init()
            model = {}
            stats = [SpyStatistic(DT.NORMAL, {"mean": float(a), "var": float(b)}, AT.RIGHT, fn=lambda x, i: float(np.mean(x)), name=nm)
                     for nm in ("AA", "AB") for a in (0, 1) for b in (1, 2)]
            for step in range(40):
                s = stats[int(rr.integers(len(stats)))]
                n = int(rr.choice([5, 6, 50]))
                k = (s.code(), tuple(s.hypothesis().parameters()), n)
                op = int(rr.integers(5))
                if op == 0:
                    cnt = int(rr.choice([10, 20, 30]))
                    vals = [float(a) for a in rr.normal(size=int(rr.integers(1, 20)))]
                    e = int(rr.integers(3))
                    st.insert_data(M(e, k[0], list(k[1]), n, cnt, vals))
                    model.setdefault(k, {})[(cnt, e)] = f32(vals)
                elif op == 1 and model.get(k):
                    from pysatl_criterion.persistence.models.limit_distribution import LimitDistributionQuery
                    cnt = sorted(model[k])[0][0]
                    st.delete_data(LimitDistributionQuery(k[0], list(k[1]), n, cnt))
                    model[k] = {q: v for q, v in model[k].items() if q[0] != cnt}
                elif op == 2 and rr.random() < .3:
                    st.engine.dispose()
                    st = Store(st.connection_string)
                    st.init()
                x = [float(a) for a in rr.normal(size=n)]
                ck.ev()
                ck.count("history-tests")
                o = observe(G.GoodnessOfFitTest(s).test, x, .3, G.PValueDecisionMethod(R(st)))
                have = model.get(k)
                case = {"history": h, "step": step, "key": k}
                if not have:
                    if o.kind != "exc" or not isinstance(o.exc, ValueError):
                        ck.violation("history:decided-without-record", o.short(), case)
                    continue
                ck.nontrivial("hist", h, step)
                top = max(c for c, _ in have)
                okv = [observe(G.GoodnessOfFitTest(s).test, x, .3, G.PValueDecisionMethod(FixedResolver(list(v)))).value
                       for (c, _), v in have.items() if c == top]
                if o.kind != "ok" or o.value not in okv:
                    ck.violation("history:wrong-decision", f"{o.short()}, expected one of {okv}", case)
            st.engine.dispose()
    # a storage that fails is not a missing record
    class Broken:
        def get_data(self, q):
            raise ConnectionError("storage is down")
    ck.ev()
    o = observe(G.GoodnessOfFitTest(SpyStatistic(params={"mean": 0.0, "var": 1.0})).test, [1., 2.], .05, G.PValueDecisionMethod(R(Broken())))
    if o.kind != "exc" or not isinstance(o.exc, (ConnectionError, ValueError)):
        ck.violation("storage-failure-hidden", o.short(), None)
    for c in ("absent:p", "absent:cv", "present:p", "present:cv", "decisions-compared"):
        ck.need(c, 300)
    ck.need("neighbouring nulls", 100)
    ck.need("magnitudes:any", 50)
    ck.need("history-tests", 300)
    ck.need("keys-differ", 200)
