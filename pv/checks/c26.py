"""C26: operation histories against a dictionary model of the storage."""
import json
from pv.core import observe
from pv.store import CODES, PARAMS, SIZES, COUNTS, Scratch, f32, same, values
RULE = ("random histories (20-120 operations over a handful of colliding keys: same code with other parameters, sizes, counts and "
        "experiments; hostile code strings; reopen mid-history) executed on a file or in-memory SQLite storage and on a dict model; "
        "an evaluation is one operation whose result is judged; distinct = different (operation, key, model state size) ; "
        "non-trivial = a read whose expected answer is a record, or a write hitting an existing key")


def jk(params):
    return json.dumps(params)


def bulk_sizes(ck, CVQ, LM, LQ, Store):
    """Bulk writes and reads far larger than a batch, page or bound-variable limit, and large numbers in every field."""
    r = ck.rng("bulk-sizes")
    for mem in (False, True):
        for N in (501, 1203, 2600) if not ck.thorough else (257, 501, 999, 1001, 1203, 2600, 5200, 11000):
            with Scratch() as sc:
                url = "sqlite:///:memory:" if mem else sc.url()
                st = Store(url)
                st.init()
                M, recs = {}, []
                for i in range(N):
                    # a third of the codes have several records, in random order of counts, sizes and experiments
                    for _ in range(1 if i % 3 else int(r.integers(2, 5))):
                        x = LM(int(r.choice([0, 1, 40, 2 ** 31 + 5])), f"CODE_{i:05d}", [[], [float(r.normal())], [float(i), 1 / 3]][int(r.integers(3))],
                               int(r.choice([10, 10, 11, 10 ** 6, 2 ** 33])), int(r.choice([10, 500, 10 ** 7, 2 ** 31, 2 ** 40])), [float(v) for v in r.normal(size=3)])
                        k = (x.experiment_id, x.criterion_code, jk(x.criterion_parameters), x.sample_size, x.monte_carlo_count)
                        if k not in M:      # distinct keys: which of two equal keys a re-insertion leaves is settled by the histories below
                            M[k] = f32(x.results_statistics)
                            recs.append(x)
                by = {}
                for k in M:
                    by.setdefault(k[1], []).append(k)
                half = len(recs) // 2
                case = {"codes": N, "records": len(recs), "url": url}

                def step(tag, fn, *a):
                    o = observe(fn, *a, cpu=120)
                    ck.ev()
                    if o.kind != "ok":
                        ck.violation(f"bulk-size:{tag}:raised", f"{tag} with {N} codes: {o.short()}", case)
                    return o.value if o.kind == "ok" else None

                def judge(tag, got, codes, n, e):
                    seen = {}
                    for g in got or []:
                        if g.criterion_code in seen:
                            ck.violation("bulk-size:duplicates", f"{tag}: two records of {g.criterion_code}", case)
                        seen[g.criterion_code] = g
                    for c in set(codes) | set(seen):
                        w = [k for k in by.get(c, []) if abs(k[3] - n) <= e] if c in codes else []
                        m = max((k[4] for k in w), default=None)
                        w = [k for k in w if k[4] == m]
                        g = seen.get(c)
                        ck.count("large-bulk-records")
                        if (g is None) != (not w):
                            ck.violation("bulk-size:presence", f"{tag} of {len(codes)} codes: {c} {'missing' if w else 'phantom'}", case)
                        elif g is not None:
                            k = (g.experiment_id, g.criterion_code, jk(g.criterion_parameters), g.sample_size, g.monte_carlo_count)
                            if k not in w or not same(g.results_statistics, M[k]):
                                ck.violation("bulk-size:record", f"{tag} of {len(codes)} codes: {c} gave {k}, expected one of {w[:3]}", case)
                step("insert_bulk_data", st.insert_bulk_data, recs[:half])
                step("insert_bulk_data", st.insert_bulk_data, recs[half:] + recs[: half // 7])
                ck.nontrivial("bulk-size", N, mem)
                if not mem:
                    st.engine.dispose()
                    st = Store(url)
                    st.init()
                codes = [f"CODE_{int(i):05d}" for i in r.permutation(N + 40)]
                for n, e in ((10, 0), (10, 1), (10 ** 6, 0), (2 ** 33, 5), (11, 0)):
                    judge("get_bulk_data", step("get_bulk_data", st.get_bulk_data, codes, n, e), codes, n, e)
                judge("get_bulk_data", step("get_bulk_data", st.get_bulk_data, codes + codes[:99], 10, 0), codes, 10, 0)
                for k in [sorted(M)[int(i)] for i in r.choice(len(M), 60)]:
                    g = step("get_data", st.get_data, LQ(k[1], json.loads(k[2]), k[3], k[4]))
                    same_q = [q for q in by[k[1]] if q[2:] == k[2:]]
                    if g is None or not any(same(g.results_statistics, M[q]) for q in same_q):
                        ck.violation("bulk-size:get_data", f"{k}: {g}", case)
                    g = step("get_data_for_cv", st.get_data_for_cv, CVQ(k[1], k[3], 0))
                    judge("get_data_for_cv", [g] if g is not None else [], [k[1]], k[3], 0)
                st.engine.dispose()


def run(ck):
    from pysatl_criterion.persistence.models.limit_distribution import CriticalValueQuery, LimitDistributionModel, LimitDistributionQuery
    from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage as Store
    r = ck.rng("c26")
    hist = 60 if not ck.thorough else 900
    for h in range(hist):
        with Scratch() as sc:
            mem = h % 4 == 3
            url = "sqlite:///:memory:" if mem else sc.url()
            st = Store(url)
            st.init()
            M = {}
            codes = [CODES[int(i)] for i in r.choice(len(CODES), 3, replace=False)]
            pars = [PARAMS[int(i)] for i in r.choice(len(PARAMS), 3, replace=False)]
            sizes = [SIZES[int(i)] for i in r.choice(len(SIZES), 3, replace=False)] + [10, 11]
            counts = [COUNTS[int(i)] for i in r.choice(len(COUNTS), 3, replace=False)]
            exps = [0, 1, 2, 7]
            log = []

            def pick(seq):
                return seq[int(r.integers(len(seq)))]

            def newrec():
                if M and r.random() < .5:
                    e, c, p, n, m = pick(sorted(M, key=repr))
                    p = json.loads(p)
                    # neighbour of an existing key: change at most one component
                    which = int(r.integers(0, 7))
                    e = pick(exps) if which == 1 else e
                    c = pick(codes) if which == 2 else c
                    p = pick(pars) if which == 3 else p
                    n = pick(sizes) if which == 4 else n
                    m = pick(counts) if which == 5 else m
                else:
                    e, c, p, n, m = pick(exps), pick(codes), pick(pars), pick(sizes), pick(counts)
                return LimitDistributionModel(e, c, list(p), n, m, values(r))

            def key(x):
                return (x.experiment_id, x.criterion_code, jk(x.criterion_parameters), x.sample_size, x.monte_carlo_count)

            def bad(tag, what):
                ck.violation(tag, what, {"history": log[-40:], "url": url, "model_keys": list(M)})

            def rec_ok(tag, got, cands):
                """got must be one of the candidate model records, field by field."""
                if got is None:
                    if cands:
                        bad(tag + ":missing", f"{tag} returned nothing; model holds {cands[:4]}")
                    return
                if not cands:
                    bad(tag + ":phantom", f"{tag} returned {got}, model holds nothing for it")
                    return
                k = key(got)
                if k not in cands:
                    bad(tag + ":wrong-record", f"{tag} returned key {k}, expected one of {cands[:4]}")
                elif not same(got.results_statistics, M[k]):
                    bad(tag + ":wrong-values", f"{tag} key {k}: got {got.results_statistics[:6]}, stored {M[k][:6]}")

            def by_query(q):
                return [k for k in M if k[1] == q.criterion_code and k[2] == jk(q.criterion_parameters) and k[3] == q.sample_size
                        and k[4] == q.monte_carlo_count]

            def best(cands):
                if not cands:
                    return []
                m = max(k[4] for k in cands)
                return [k for k in cands if k[4] == m]

            def do(tag, fn, *a, **kw):
                ck.ev()
                ck.count("op:" + tag)
                o = observe(fn, *a, **kw)
                if o.kind != "ok":
                    bad(tag + ":raised", f"{tag}{a} raised {o.short()}")
                    return False, None
                return True, o.value

            def read_all():
                seen = set()
                for k in list(M):
                    qk = k[1:]
                    if qk in seen:
                        continue
                    seen.add(qk)
                    q = LimitDistributionQuery(k[1], json.loads(k[2]), k[3], k[4])
                    ok, got = do("get_data", st.get_data, q)
                    if ok:
                        rec_ok("get_data", got, by_query(q))
                for c in codes:
                    for n in set(sizes):
                        for err in (0, 1):
                            ok, got = do("get_data_for_cv", st.get_data_for_cv, CriticalValueQuery(c, n, err))
                            if ok:
                                rec_ok("get_data_for_cv", got, best([k for k in M if k[1] == c and abs(k[3] - n) <= err]))
                ck.count("audits")

            for step in range(int(r.integers(20, 120 if ck.thorough else 60))):
                op = pick(["insert", "insert", "insert", "bulk", "get", "get", "delete", "cv", "cv", "getbulk", "reopen", "mutate"])
                if op == "insert":
                    x = newrec()
                    log.append(["insert", key(x), x.results_statistics[:5]])
                    hit = key(x) in M
                    ok, _ = do("insert_data", st.insert_data, x)
                    if ok:
                        M[key(x)] = f32(x.results_statistics)
                        if hit:
                            ck.count("overwrites")
                            ck.nontrivial("ow", key(x), h, step)
                        if x.results_statistics:
                            x.results_statistics[0] = 12345.0     # later changes of the caller's list must not leak in
                elif op == "bulk":
                    xs = [newrec() for _ in range(int(r.integers(0, 6)))]
                    if xs and r.random() < .4:
                        d = xs[int(r.integers(len(xs)))]
                        xs.append(LimitDistributionModel(d.experiment_id, d.criterion_code, d.criterion_parameters, d.sample_size,
                                                         d.monte_carlo_count, values(r)))
                    log.append(["bulk", [key(x) for x in xs]])
                    ok, _ = do("insert_bulk_data", st.insert_bulk_data, xs)
                    if ok:
                        for x in xs:
                            M[key(x)] = f32(x.results_statistics)
                        if xs:
                            ck.nontrivial("bulk", h, step)
                elif op in ("get", "delete", "mutate"):
                    x = newrec()
                    q = LimitDistributionQuery(x.criterion_code, x.criterion_parameters, x.sample_size, x.monte_carlo_count)
                    c = by_query(q)
                    log.append([op, q.criterion_code, q.criterion_parameters, q.sample_size, q.monte_carlo_count])
                    if op == "delete":
                        ok, _ = do("delete_data", st.delete_data, q)
                        if ok:
                            for k in c:
                                del M[k]
                            if c:
                                ck.count("deletes-hitting")
                                ck.nontrivial("del", h, step)
                            if len(c) > 1:
                                ck.count("deletes-shared-key")
                            ok, got = do("get_data", st.get_data, q)
                            if ok:
                                rec_ok("get_data", got, [])
                    else:
                        ok, got = do("get_data", st.get_data, q)
                        if ok:
                            rec_ok("get_data", got, c)
                            if c:
                                ck.count("hits")
                                ck.nontrivial("get", h, step)
                            if got is not None and op == "mutate" and got.results_statistics:
                                got.results_statistics[0] = -77.0
                                got.criterion_parameters.append(3.0)
                                ok, again = do("get_data", st.get_data, q)
                                if ok:
                                    rec_ok("get_data", again, c)
                elif op == "cv":
                    q = CriticalValueQuery(pick(codes), pick(sizes), int(r.choice([0, 0, 1, 2, 50])))
                    c = best([k for k in M if k[1] == q.criterion_code and abs(k[3] - q.sample_size) <= q.sample_size_error])
                    log.append(["cv", q.criterion_code, q.sample_size, q.sample_size_error])
                    ok, got = do("get_data_for_cv", st.get_data_for_cv, q)
                    if ok:
                        rec_ok("get_data_for_cv", got, c)
                        if c:
                            ck.count("hits")
                            ck.nontrivial("cv", h, step)
                elif op == "getbulk":
                    cs = [pick(codes + ["absent"]) for _ in range(int(r.integers(0, 5)))]
                    n, e = pick(sizes), int(r.choice([0, 0, 1, 2, 50]))
                    log.append(["getbulk", cs, n, e])
                    ok, got = do("get_bulk_data", st.get_bulk_data, cs, n, e)
                    if ok:
                        names = [g.criterion_code for g in got]
                        if len(set(names)) != len(names):
                            bad("get_bulk_data:duplicates", f"two records for one code: {names}")
                        for c in set(cs) | set(names):
                            cand = best([k for k in M if k[1] == c and abs(k[3] - n) <= e]) if c in cs else []
                            g = [x for x in got if x.criterion_code == c]
                            rec_ok("get_bulk_data", g[0] if g else None, cand)
                            if cand:
                                ck.count("hits")
                                ck.nontrivial("gb", h, step, c)
                elif op == "reopen" and not mem:
                    log.append(["reopen"])
                    ck.count("reopens")
                    if r.random() < .5:
                        st.engine.dispose()
                    st = Store(url)
                    if r.random() < .7:
                        st.init()
                if step % 25 == 24:
                    read_all()
            read_all()
            ck.sample("history", log[:12])
            st.engine.dispose()
    bulk_sizes(ck, CriticalValueQuery, LimitDistributionModel, LimitDistributionQuery, Store)
    for n, m in (("large-bulk-records", 2000), ("hits", 200), ("overwrites", 60), ("deletes-hitting", 20), ("deletes-shared-key", 1), ("reopens", 20), ("audits", 20)):
        ck.need(n, m)
    # distinct operations were counted per (history, step)
