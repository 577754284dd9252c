"""C41: limit distributions simulated once, stored, transferred and loaded elsewhere give the decisions of the simulation itself."""
import json
import os
import subprocess
import sys
import numpy as np
from pv import catalog as C
from pv.core import observe, parallel
from pv.formula import random_kw
from pv.spy import FixedResolver, TeeResolver
from pv.store import Scratch, f32

RULE = ("the whole workflow on real files: a producer simulates the null of a criterion and stores it in a remote database (partly in another, fresh interpreter), a consumer transfers it with "
        "CriticalValueLoader (one by one or in bulk, before or after reopening, with the remote removed afterwards) and tests samples of several kinds with both decision methods; every test is compared "
        "with the same test on the simulated list itself; evaluation = one such comparison; non-trivial = distinct (class, variant, kind of sample, method, level)")
ASSUMPTIONS = ["stored values carry single precision (documented column option): the simulated list is rounded to it before comparing", "one null per criterion code and size in the remote database, since the loader transfers one record per code"]
PRODUCER = """
import json, sys
import numpy as np
from pv import catalog as C
from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver as MC
from pysatl_criterion.persistence.models.limit_distribution import LimitDistributionModel as LM
from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage as Store
url, seed, count, jobs = json.loads(sys.argv[1])
st = Store(url); st.init()
recs = []
for name, kw, n in jobs:
    s = C.classes()[name](**kw)
    np.random.seed(seed)
    recs.append(LM(1, s.code(), s.hypothesis().parameters(), n, count, [float(v) for v in MC(count).resolve(s, n)]))
st.insert_bulk_data(recs)
"""


def scaled(cls, factor):
    """The same criterion reported in another unit (a user's subclass), so that values of any magnitude are stored."""
    def execute_statistic(self, rvs, **kwargs):
        return factor * cls.execute_statistic(self, rvs, **kwargs)
    return type("Scaled" + cls.__name__, (cls,), {"execute_statistic": execute_statistic, "__module__": __name__})


def one(ck, task):
    import pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test as G
    from pysatl_criterion.hypothesis_testing.critical_values.loader.remote_loader import CriticalValueLoader
    from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver as MC, StorageLimitDistributionResolver as R
    from pysatl_criterion.persistence.models.limit_distribution import LimitDistributionModel as LM
    from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage as Store
    import logging
    logging.getLogger().setLevel(logging.CRITICAL)
    logging.getLogger("pysatl_criterion").setLevel(logging.CRITICAL)
    group, names, fresh = task
    r = ck.rng("c41", group)
    jobs, seen = [], set()
    have = {name: C.classes()[name] for name in names}
    if not fresh:
        for name in names:
            if r.uniform() < .35:
                have[name] = scaled(have[name], 10.0 ** float(r.uniform(-25, 25)))
                ck.count("other magnitudes")
    for name in names:
        cls = have[name]
        fam = C.family(cls)
        vs = C.variants(name, fam)
        kw = dict(vs[int(r.integers(len(vs)))])
        if not name.startswith("RyanJoiner") and not fresh and r.integers(0, 2):
            kw = {**{q: v for q, v in kw.items() if q not in C.PARAMS[fam][0]}, **random_kw(name, fam, r)}
        o = observe(lambda: (cls(**kw).code(), cls(**kw).alternative().type()))
        if o.kind != "ok" or o.value[0] in seen or any(not isinstance(v, (int, float, str)) for v in kw.values()):
            continue
        seen.add(o.value[0])
        slow = name.startswith(("Hollander", "LaplaceTransform", "KL", "Graph", "Ahsan", "Ross", "Coin", "BHS"))
        jobs.append((name, kw, min(max(C.nmin(name), 8 if slow else int(r.choice([8, 13, 21]))), C.nmax(name))))
    count, seed = int(r.choice([19, 40])) if not ck.thorough else int(r.choice([40, 199])), int(r.integers(0, 2 ** 31))
    with Scratch() as sc:
        rem_url, loc_url = sc.url("remote.db"), sc.url("local.db")
        lists = {}
        for name, kw, n in jobs:
            s = have[name](**kw)
            np.random.seed(seed)
            o = observe(lambda: [float(v) for v in MC(count).resolve(s, n)], cpu=120)
            if o.kind == "ok":
                lists[name] = o.value
            else:
                ck.count("simulation failed")
        jobs = [j for j in jobs if j[0] in lists]
        if fresh:
            env = {**os.environ, "PYTHONPATH": os.pathsep.join(sys.path)}
            p = subprocess.run([sys.executable, "-c", PRODUCER, json.dumps([rem_url, seed, count, jobs])], env=env, capture_output=True, text=True, timeout=600)
            if p.returncode:
                ck.violation("producer-failed", f"simulating and storing {[j[0] for j in jobs]} in a fresh interpreter failed: {p.stderr[-300:]}", {"jobs": jobs})
                return
            ck.count("fresh producers")
        else:
            st = Store(rem_url)
            st.init()
            recs = []
            for name, kw, n in jobs:
                s = have[name](**kw)
                recs.append(LM(int(r.integers(1, 9)), s.code(), s.hypothesis().parameters(), n, count, lists[name]))
                recs.append(LM(1, s.code(), s.hypothesis().parameters(), n + 1, count * 2, [v + 7 for v in lists[name]]))
                recs.append(LM(1, s.code() + "_OTHER", s.hypothesis().parameters(), n, count * 2, [v - 7 for v in lists[name]]))
            recs = [recs[int(i)] for i in r.permutation(len(recs))]
            st.insert_bulk_data(recs)
            st.engine.dispose()
        loc, rem = Store.create_safe(loc_url), Store.create_safe(rem_url)
        ld = CriticalValueLoader(loc, rem)
        bulk = bool(r.integers(0, 2))
        by_n = {}
        for name, kw, n in jobs:
            by_n.setdefault(n, []).append(have[name](**kw).code())
        for n, codes in by_n.items():
            if bulk:
                o = observe(ld.load_bulk, codes, n)
                ok = o.kind == "ok" and (o.value.newly_cached_count, list(o.value.not_found_codes)) == (len(codes), [])
            else:
                o = observe(lambda: [ld.load(c, n) for c in codes])
                ok = o.kind == "ok" and all(o.value)
            ck.ev()
            ck.count("transfers", len(codes))
            if not ok:
                ck.violation("transfer", f"transferring {len(codes)} stored distributions ({'bulk' if bulk else 'single'}) gave {o.short()}", {"codes": codes, "n": n})
        rem.engine.dispose()
        os.remove(os.path.join(sc.dir, "remote.db"))
        if r.integers(0, 2):
            loc.engine.dispose()
            loc = Store.create_safe(loc_url)
        # another installation's database, read in the same process, must not leak into this one
        other = Store(sc.url("other.db"))
        other.init()
        other.insert_bulk_data([LM(1, have[name](**kw).code(), have[name](**kw).hypothesis().parameters(), n, count, [v - 9 for v in lists[name]]) for name, kw, n in jobs])
        for name, kw, n in jobs:
            cls = have[name]
            fam = C.family(cls)
            want = f32(lists[name])
            if r.uniform() < .5:
                observe(R(other).resolve, cls(**kw), n)
                ck.count("other databases read")
            for kind in ("null", str(r.choice(C.KINDS[1:]))):
                x = [float(v) for v in C.sample(fam, kw, n, r, kind)]
                v = observe(cls(**kw).execute_statistic, list(x))
                if v.kind != "ok" or np.isnan(v.value):
                    ck.count("criterion-nonfinite")
                    continue
                for m, meth in (("p", G.PValueDecisionMethod), ("cv", G.CriticalValueDecisionMethod)):
                    level = float(r.choice([.01, .05, .1, .3]))
                    res = TeeResolver(R(loc))
                    o = observe(G.GoodnessOfFitTest(cls(**kw)).test, list(x), level, meth(res))
                    w = observe(G.GoodnessOfFitTest(cls(**kw)).test, list(x), level, meth(FixedResolver(list(want))))
                    ck.ev()
                    ck.count(f"compared:{m}")
                    ck.nontrivial(name, str(kw), kind, m, level)
                    case = {"criterion": name, "kwargs": kw, "n": n, "count": count, "kind": kind, "method": m, "level": level, "fresh producer": fresh, "bulk": bulk, "x": x}
                    if w.kind != "ok":
                        if o.kind == "ok":
                            ck.violation(f"{m}:decided", f"{name}({kw}): the test on the simulated list fails ({w.short()}), from the loaded storage it gives {o.short()}", case)
                        continue
                    if o.kind != "ok":
                        ck.violation(f"{m}:error", f"{name}({kw}) n={n}: the loaded distribution gives {o.short()}", case)
                        continue
                    got = [float(t) for t in res.got[-1]]
                    if not np.array_equal(np.asarray(got), np.asarray(want), equal_nan=True):
                        ck.violation("list", f"{name}({kw}) n={n}: the loaded distribution is {got[:4]} ({len(got)}), simulated {want[:4]} ({len(want)})", case)
                    elif o.value != w.value and not all(a == b or a != a and b != b for a, b in zip(vars(o.value).values(), vars(w.value).values())):
                        ck.violation(f"{m}:decision", f"{name}({kw}) n={n}: from the loaded storage {o.value}, from the simulation {w.value}", case)
                    # single precision may only matter when the statistic is next to a simulated value
                    d = observe(G.GoodnessOfFitTest(cls(**kw)).test, list(x), level, meth(FixedResolver(list(lists[name]))))
                    t = float(v.value)
                    near = min(abs(t - q) for q in lists[name]) <= 1e-5 * (abs(t) + max(map(abs, lists[name]))) if np.isfinite(t) and np.isfinite(lists[name]).all() else True
                    if d.kind == "ok" and m == "p" and not near:
                        ck.count("compared with unrounded simulation")
                        if d.value.rejected != o.value.rejected:
                            ck.violation("p:rounded-decision", f"{name}({kw}) n={n}: from the loaded storage {o.value}, from the simulation {d.value}", case)
            if len(ck.samples) < 3:
                ck.sample(fam, {"criterion": name, "kwargs": kw, "n": n, "count": count})
        loc.engine.dispose()
        other.engine.dispose()


def run(ck):
    names = list(C.classes())
    r = ck.rng("groups")
    tasks = []
    for rep in range(1 if not ck.thorough else 10):
        order = [names[int(i)] for i in r.permutation(len(names))]
        tasks += [(f"{rep}:{i}", order[i:i + 12], (i // 12) % 4 == 0) for i in range(0, len(order), 12)]
    parallel(ck, tasks, one)
    ck.need("transfers", 100)
    ck.need("compared:p", 200)
    ck.need("compared:cv", 200)
    ck.need("fresh producers", 2)
    ck.need("other magnitudes", 20)
    ck.need("compared with unrounded simulation", 100)
