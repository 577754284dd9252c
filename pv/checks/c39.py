"""C39: clients that use the same database at once never make each other's valid operations fail or each other's reports wrong."""
import json
import os
import sys
import threading
import time
import numpy as np
from pv.core import observe
from pv.store import Scratch

RULE = ("3 to 6 clients (threads sharing or owning their storage object, processes) started on a barrier on one SQLite database, with delays injected between the statements "
        "of a transaction, that initialise, insert and bulk-insert the same records, delete, read, load criteria through CriticalValueLoader and run storage-backed tests; every operation "
        "must succeed, the stored records must be ones that were written (batches undivided), and what a loader or a test reports must match a stored record; "
        "evaluation = one client operation; non-trivial = distinct (scenario, clients, outcome vector, final state)")
ASSUMPTIONS = ["a lock timeout of SQLite (database is locked) is a resource limit and tolerated, but counted",
               "a storage object shared between threads has been used once before (SQLAlchemy creates an engine's type cache on first use without a lock)"]


def run(ck):
    from sqlalchemy import event
    from sqlalchemy.engine import Engine
    from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage as Store
    from pysatl_criterion.persistence.models.limit_distribution import CriticalValueQuery as CQ, LimitDistributionModel as LM, LimitDistributionQuery as LQ
    from pysatl_criterion.hypothesis_testing.critical_values.loader.remote_loader import CriticalValueLoader
    from pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test import GoodnessOfFitTest, PValueDecisionMethod
    from pysatl_criterion.hypothesis_testing.limit_distribution.base import StorageLimitDistributionResolver
    from pysatl_criterion.statistics import goodness_of_fit as g
    import logging
    logging.getLogger().setLevel(logging.CRITICAL)
    logging.getLogger("pysatl_criterion").setLevel(logging.CRITICAL)
    r = ck.rng("c39")
    delay = {"on": False, "p": .5, "t": .003, "seen": 0}
    lock = threading.Lock()

    @event.listens_for(Engine, "before_cursor_execute")
    def _(conn, cursor, statement, parameters, context, executemany):
        if delay["on"] and not statement.lstrip().upper().startswith("PRAGMA"):
            with lock:
                delay["seen"] += 1
            if np.random.default_rng().random() < delay["p"]:
                time.sleep(float(np.random.default_rng().random()) * delay["t"])
    crit = g.KolmogorovSmirnovNormalityGofStatistic(mean=0, var=1)
    code, pars = crit.code(), crit.hypothesis().parameters()
    codes = [code, "CRIT_B", "CRIT_C", "CRIT_D"]

    def rec(c, tag, exp=1, n=10, mc=5):
        return LM(experiment_id=exp, criterion_code=c, criterion_parameters=pars, sample_size=n, monte_carlo_count=mc, results_statistics=[float(tag)] * 7)

    def q(c):
        return LQ(criterion_code=c, criterion_parameters=pars, sample_size=10)

    sample = [.1, .7, .5, .3, -.2, .9, 1.1, -.4, .05, .6]

    # client programs: (state, client number, storage factory) -> list of (operation, outcome)
    def p_init(u, i, st):
        s = Store.create_safe(u["new"])
        return [("create_safe", s is not None)] + ([("insert", done(s.insert_data, rec("A", 1, n=20 + i)))] if s is not None else [])

    def done(fn, *a):
        try:
            fn(*a)
            return True
        except Exception as e:
            return f"{type(e).__name__}: {str(e)[:100]}"

    def p_insert(u, i, st):
        return [("insert", done(st.insert_data, rec("A", 100 * (i + 1) + k))) for k in range(3)]

    def p_bulk(u, i, st):
        order = np.random.default_rng(i).permutation(4)
        return [("bulk", done(st.insert_bulk_data, [rec(codes[j], 100 * (i + 1) + k) for j in order])) for k in range(3)]

    def p_delete(u, i, st):
        out = []
        for k in range(3):
            out.append(("delete", done(st.delete_data, LQ(criterion_code="A", criterion_parameters=pars, sample_size=10, monte_carlo_count=5))))
            out.append(("insert", done(st.insert_data, rec("A", 100 * (i + 1) + k))))
        return out

    def p_load(u, i, st):
        ld = CriticalValueLoader(st, Store(u["remote"]))
        try:
            if i % 3 == 0:
                return [(f"load {c}", ld.load(c, 10) is True and st.get_data_for_cv(CQ(c, 10)) is not None) for c in codes]
            req = [codes[int(j)] for j in np.random.default_rng(i).permutation(4)] + ["NOWHERE"]
            b = ld.load_bulk(req, 10)
            return [("load_bulk", True if (b.requested_count, b.already_cached_count + b.newly_cached_count, list(b.not_found_codes or [])) == (5, 4, ["NOWHERE"]) else repr(b))]
        except Exception as e:
            return [("load", f"{type(e).__name__}: {str(e)[:100]}")]

    def p_test(u, i, st):
        out = []
        if i % 2:
            return [("bulk", done(st.insert_bulk_data, [rec(c, .1 * (i + k % 2)) for c in codes])) for k in range(4)]
        for k in range(5):
            try:
                t = GoodnessOfFitTest(crit).test(sample, .05, PValueDecisionMethod(StorageLimitDistributionResolver(st)))
                out.append(("test", True if t.p_value in (0.0, 1.0) and t.rejected == (t.p_value == 0.0) else repr(t)))
            except Exception as e:
                out.append(("test", f"{type(e).__name__}: {str(e)[:100]}"))
        return out

    def p_replace(u, i, st):
        """One writer replaces a record again and again; everybody else always finds it, whole, and never an older one than before."""
        if i == 0:
            return [("replace", done(st.insert_data if k % 2 else (lambda m: st.insert_bulk_data([m])), LM(experiment_id=1, criterion_code=code, criterion_parameters=pars, sample_size=10,
                                                                                                            monte_carlo_count=5, results_statistics=[float(k)] * (k % 7 + 1)))) for k in range(8, 20)]
        out, last = [], 7.0
        ld = CriticalValueLoader(st, Store(u["remote"]))
        for k in range(14):
            how = ("get", "cv", "bulk", "load")[(k + i) % 4]
            try:
                if how == "load":
                    out.append(("reader-load", ld.load(code, 10) is True))
                    continue
                if how == "get":
                    v = st.get_data(q(code))
                elif how == "cv":
                    v = st.get_data_for_cv(CQ(code, 10))
                else:
                    b = st.get_bulk_data(["CRIT_B", code], 10)
                    v = b[0] if len(b) == 1 else None
            except Exception as e:
                out.append((f"reader-{how}", f"{type(e).__name__}: {str(e)[:100]}"))
                continue
            if v is None:
                out.append((f"reader-{how}", "record vanished"))
                continue
            t = v.results_statistics[0] if len(v.results_statistics) else None
            if t is None or set(v.results_statistics) != {t} or len(v.results_statistics) != int(t) % 7 + 1:
                out.append((f"reader-{how}", f"torn record {list(v.results_statistics)[:9]}"))
            elif t < last:
                out.append((f"reader-{how}", f"older record: {t} after {last}"))
            else:
                out.append((f"reader-{how}", True))
            last = max(last, t or 0)
        return out

    def p_swap(u, i, st):
        """One writer stores ever larger simulations and deletes the smaller one afterwards: at every moment a record is there, and the best one never shrinks."""
        if i == 0:
            out = []
            for k in range(6, 18):
                m = LM(experiment_id=1, criterion_code=code, criterion_parameters=pars, sample_size=10, monte_carlo_count=k, results_statistics=[float(k)] * k)
                out.append(("swap-insert", done(st.insert_data, m) if k % 2 else done(st.insert_bulk_data, [m])))
                if out[-1][1] is True:
                    out.append(("swap-delete", done(st.delete_data, LQ(criterion_code=code, criterion_parameters=pars, sample_size=10, monte_carlo_count=k - 1))))
                time.sleep(.002)
            return out
        out, last = [], 5
        for k in range(24):
            how = ("get", "cv", "bulk", "test")[(k + i) % 4]
            try:
                if how == "test":
                    t = GoodnessOfFitTest(crit).test(sample, .05, PValueDecisionMethod(StorageLimitDistributionResolver(st)))
                    out.append(("swap-test", True if t.p_value == 0.0 and t.rejected else repr(t)))
                    continue
                v = st.get_data(q(code)) if how == "get" else st.get_data_for_cv(CQ(code, 10)) if how == "cv" else (st.get_bulk_data(["CRIT_B", code], 10) or [None])[0]
            except Exception as e:
                out.append((f"swap-{how}", f"{type(e).__name__}: {str(e)[:100]}"))
                continue
            if v is None:
                out.append((f"swap-{how}", "no record although one is always stored"))
                continue
            c = v.monte_carlo_count
            if list(v.results_statistics) != [float(c)] * c:
                out.append((f"swap-{how}", f"torn record {c}: {list(v.results_statistics)[:9]}"))
            elif c < last:
                out.append((f"swap-{how}", f"smaller simulation: {c} after {last}"))
            else:
                out.append((f"swap-{how}", True))
            last = max(last, c)
        return out

    def p_mixed(u, i, st):
        return [p_insert, p_bulk, p_delete, p_load, p_load][i % 5](u, i, st)

    progs = {"init": p_init, "insert": p_insert, "bulk": p_bulk, "delete-insert": p_delete, "load": p_load, "test": p_test, "replace": p_replace, "swap": p_swap, "mixed": p_mixed}
    rounds = 9 if not ck.thorough else 120
    old = sys.getswitchinterval()
    for rnd in range(rounds):
        for scen, prog in progs.items():
            how = ("threads-shared", "threads-own", "processes")[rnd % 3]
            with Scratch() as sc:
                u = {"db": sc.url("a.db"), "new": sc.url("new.db"), "remote": sc.url("r.db")}
                base = Store(u["db"])
                base.init()
                rem = Store(u["remote"])
                rem.init()
                rem.insert_bulk_data([rec(c, 5) for c in codes] + [rec(c, 4, exp=2, mc=3) for c in codes] + [rec(c, 3, exp=3, n=11, mc=9) for c in codes])
                if scen == "test":
                    base.insert_bulk_data([rec(c, .3) for c in codes])
                elif scen == "replace":
                    base.insert_data(LM(experiment_id=1, criterion_code=code, criterion_parameters=pars, sample_size=10, monte_carlo_count=5, results_statistics=[7.0]))
                elif scen == "swap":
                    base.insert_data(LM(experiment_id=1, criterion_code=code, criterion_parameters=pars, sample_size=10, monte_carlo_count=5, results_statistics=[5.0] * 5))
                elif scen != "init" and r.uniform() < .4:
                    base.insert_data(rec("A", 7))
                base.engine.dispose()
                rem.engine.dispose()
                nc = int(r.integers(3, 7))
                delay.update(on=True, p=float(r.choice([0, .3, .8])), t=float(r.choice([.001, .004, .01])))
                if scen in ("swap", "replace"):
                    delay.update(p=.8)
                results = {}
                if how == "processes":
                    gate_r, gate_w = os.pipe()
                    kids = []
                    for i in range(nc):
                        a, b = os.pipe()
                        pid = os.fork()
                        if pid == 0:
                            try:
                                os.close(gate_w)
                                st = Store(u["db"])
                                os.read(gate_r, 1)
                                out = json.dumps(prog(u, i, st)).encode()
                                while out:
                                    out = out[os.write(b, out):]
                            finally:
                                os._exit(0)
                        os.close(b)
                        kids.append((i, pid, a))
                    os.close(gate_r)
                    os.close(gate_w)  # releases everybody
                    for i, pid, a in kids:
                        buf = b""
                        while True:
                            x = os.read(a, 65536)
                            if not x:
                                break
                            buf += x
                        os.close(a)
                        os.waitpid(pid, 0)
                        results[i] = [tuple(x) for x in json.loads(buf)] if buf else [("process", "died")]
                else:
                    bar = threading.Barrier(nc)

                    def go(i, st):
                        bar.wait()
                        try:
                            results[i] = prog(u, i, st)
                        except Exception as e:
                            results[i] = [("client", f"{type(e).__name__}: {str(e)[:100]}")]
                    shared = Store(u["db"])
                    shared.get_data(q("A"))     # SQLAlchemy's per-engine type cache is not safe on its very first use
                    ths = [threading.Thread(target=go, args=(i, shared if how == "threads-shared" else Store(u["db"]))) for i in range(nc)]
                    sys.setswitchinterval(1e-5)
                    for t in ths:
                        t.start()
                    for t in ths:
                        t.join()
                    sys.setswitchinterval(old)
                    shared.engine.dispose()
                delay["on"] = False
                flat = [(i, op, ok) for i, rows in sorted(results.items()) for op, ok in rows]
                case = {"scenario": scen, "clients": nc, "how": how, "operations": flat}
                ck.ev(len(flat))
                ck.count(f"operations:{scen}", len(flat))
                ck.sample(scen, case)
                for i, op, ok in flat:
                    if ok is True:
                        continue
                    if isinstance(ok, str) and "database is locked" in ok:
                        ck.count("lock timeouts")
                        continue
                    kind = str(ok).split(":")[0].split("(")[0].split("[")[0].strip()
                    ck.violation(f"{scen}:{op.split()[0]}:{kind}", f"{how}, {nc} clients, {scen}: {op} of client {i} gave {ok!r}", case)
                # final state
                fin = Store(u["new"] if scen == "init" else u["db"])
                state = {}
                if scen == "init":
                    have = {i for i in range(nc) if getattr(observe(fin.get_data_for_cv, CQ("A", 20 + i)), "value", None) is not None}
                    state["A"] = len(have)
                    lost = [i for i, rows in results.items() if ("insert", True) in rows and i not in have]
                    if lost:
                        ck.violation("init:lost-record", f"records that clients {lost} inserted during the initialisation are gone", case)
                else:
                    written = {100.0 * (i + 1) + k for i in range(nc) for k in range(3)} | {7.0, 5.0}
                    for c in ["A"] + codes:
                        o = observe(fin.get_data, q(c))
                        if o.kind != "ok":
                            ck.violation(f"{scen}:unreadable", f"after {scen} ({how}): {o.short()}", case)
                            continue
                        v = o.value
                        state[c] = None if v is None else v.results_statistics[0]
                        if v is not None and scen not in ("test", "replace", "swap") and (len(set(v.results_statistics)) != 1 or len(v.results_statistics) != 7 or state[c] not in written):
                            ck.violation(f"{scen}:foreign-value", f"after {scen} ({how}) record {c} holds {v.results_statistics[:3]}", case)
                    locked = any(isinstance(ok, str) and "locked" in ok for _, _, ok in flat)
                    if not locked:
                        if scen == "replace" and (state[code] != 19.0):
                            ck.violation("replace:final", f"after the replacements ({how}) the record is {state[code]}, written last was 19", case)
                        if scen == "swap" and state[code] != 17.0:
                            ck.violation("swap:final", f"after the replacements ({how}) the record is {state[code]}, stored last was 17", case)
                        if scen in ("insert", "delete-insert") and state["A"] is None:
                            ck.violation(f"{scen}:lost-record", f"after {scen} ({how}) the record inserted last is gone", case)
                        if scen == "bulk" and len({state[c] for c in codes}) != 1:
                            ck.violation("bulk:mixed-batches", f"after concurrent batches ({how}) the records are {state}", case)
                        if scen == "load" and [state[c] for c in codes] != [5.0] * 4:
                            ck.violation("load:content", f"after concurrent loads ({how}) the local records are {state}", case)
                ck.nontrivial(scen, how, nc, str(sorted(state.items(), key=str)), str([ok for _, _, ok in flat]))
                fin.engine.dispose()
    ck.count("statements delayed or passed", delay["seen"])
    event.remove(Engine, "before_cursor_execute", _)
    for scen in progs:
        ck.need(f"operations:{scen}", 12)

