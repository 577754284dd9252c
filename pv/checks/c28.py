"""C28: fault injection at every SQL statement, kill -9 at crash points, and linearizability of concurrent histories."""
import os, select, signal, sys, threading, time
from pv.core import observe
from pv.linz import linearizable, selftest
from pv.store import Scratch, f32, same
RULE = ("(a) every statement/commit of insert, bulk insert and delete made to fail once (enumerated), and bulk inserts with an invalid "
        "record at each position; (b) writer processes killed with SIGKILL at enumerated statements, before and after commit, and at "
        "random times; (c) histories of 3-6 threads (shared or own storage object) or processes over 2 keys checked for "
        "linearizability, and bulk readers against bulk writers for torn batches; 8 threads storing large lists in their own databases (memory safety of the shared codec); (d) unreachable databases; an evaluation is one "
        "faulted operation, one reopened database or one recorded operation; non-trivial = a fault that fired, a kill that hit a "
        "running writer, or an operation overlapping another one")
ASSUMPTIONS = ["SQLite on a local file system stands for the SQL back end", "SIGKILL of the process, not power loss, is the crash model"]


def run(ck):
    selftest()
    from sqlalchemy import event
    from sqlalchemy.engine import Engine
    from pysatl_criterion.persistence.models.limit_distribution import CriticalValueQuery, LimitDistributionModel as LM, LimitDistributionQuery as LQ
    from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage as Store
    r = ck.rng("c28")

    class Boom(Exception):
        pass

    class F:
        armed, k, seen, fired, mode = False, 0, 0, False, "raise"
    F.where = ""

    def hit(where):
        if not F.armed:
            return
        F.seen += 1
        if F.seen == F.k:
            F.armed = False
            F.fired = True
            F.where = where
            if F.mode == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
                time.sleep(10)
            raise (KeyboardInterrupt() if F.mode == "interrupt" else Boom("injected fault"))

    event.listen(Engine, "before_cursor_execute", lambda *a: hit("stmt:" + a[2].split()[0]))
    event.listen(Engine, "after_cursor_execute", lambda *a: hit("after:" + a[2].split()[0]))
    event.listen(Engine, "commit", lambda c: hit("commit"))

    def arm(k, mode="raise"):
        F.armed, F.k, F.seen, F.fired, F.mode = True, k, 0, False, mode

    def dump(st, keys):
        out = {}
        for k in keys:
            g = st.get_data(LQ(k, [1.0], 10, 5))
            out[k] = None if g is None else tuple(g.results_statistics)
        return out

    def model(k, v):
        return LM(1, k, [1.0], 10, 5, [float(v), 0.5])

    def val(v):
        return (float(v), 0.5)

    # ---------------------------------------------------------------- (a) injected faults
    keys = [f"K{i}" for i in range(8)]
    ops = {"bulk": lambda st: st.insert_bulk_data([model(k, 100 + i) for i, k in enumerate(keys[2:7])]),
           "bulk-dup": lambda st: st.insert_bulk_data([model("K1", 7), model("K5", 8), model("K1", 9), model("K6", 1)]),
           "insert-new": lambda st: st.insert_data(model("K6", 55)),
           "overwrite": lambda st: st.insert_data(model("K1", 66)),
           "delete": lambda st: st.delete_data(LQ("K1", [1.0], 10, 5))}
    after = {"bulk": {k: val(100 + i) for i, k in enumerate(keys[2:7])}, "bulk-dup": {"K1": val(9), "K5": val(8), "K6": val(1)},
             "insert-new": {"K6": val(55)}, "overwrite": {"K1": val(66)}, "delete": {"K1": None}}
    modes = ["raise", "interrupt"]
    for name, op in ops.items():
        for mode in modes:
            k = 0
            while True:
                k += 1
                with Scratch() as sc:
                    st = Store(sc.url())
                    st.init()
                    for i, kk in enumerate(keys[:4]):
                        st.insert_data(model(kk, i))
                    before = dump(st, keys)
                    want_after = dict(before, **after[name])
                    arm(k, mode)
                    raised = False
                    try:
                        op(st)
                    except (Boom, KeyboardInterrupt):
                        raised = True
                    except Exception:
                        raised = True
                    fired, where = F.fired, F.where
                    F.armed = False
                    ck.ev()
                    if not fired:
                        st.engine.dispose()
                        break
                    ck.count("faults-fired")
                    ck.nontrivial("fault", name, mode, k)
                    case = {"operation": name, "fault": f"{mode} at event {k} ({where})"}
                    ck.sample("fault:" + name, case)
                    for label, reader in (("same object", st), ("reopened", Store(sc.url()))):
                        o = observe(dump, reader, keys)
                        if o.kind != "ok":
                            ck.violation(f"{name}:unusable-after-fault", f"{label}: reads fail after {case}: {o.short()}", case)
                            continue
                        got = o.value
                        ok = (got == before) if raised else (got == want_after)
                        if not ok:
                            kind = "not-atomic" if got != want_after else "raised-but-applied"
                            if not raised:
                                kind = "returned-but-lost"
                            diff = {x: [before[x], got[x]] for x in keys if got[x] != before[x]}
                            ck.violation(f"{name}:{kind}", f"{label}, {case}: changed {diff}", case)
                    o = observe(st.insert_data, model("K7", 777))
                    if o.kind != "ok" or dump(Store(sc.url()), ["K7"])["K7"] != val(777):
                        ck.violation(f"{name}:unusable-after-fault", f"storage object unusable after {case}: {o.short()}", case)
                    o = observe(op, st)
                    if o.kind != "ok" or dump(Store(sc.url()), keys[:7]) != {x: want_after[x] for x in keys[:7]}:
                        ck.violation(f"{name}:retry", f"retry after {case} wrong: {o.short()}", case)
                    st.engine.dispose()
                if k > 200:
                    break
    # invalid record at each position of a bulk insert
    class NoJson:
        pass
    bads = {"values-with-text": LM(1, "BAD", [1.0], 10, 5, [0.1, "x"]), "params-not-json": LM(1, "BAD", [NoJson()], 10, 5, [0.1]),
            "null-size": LM(1, "BAD", [1.0], None, 5, [0.1]), "null-values": LM(1, "BAD", [1.0], 10, 5, None),
            "not-a-model": object()}
    for bname, badrec in bads.items():
        for pos in range(4):
            with Scratch() as sc:
                st = Store(sc.url())
                st.init()
                for i, kk in enumerate(keys[:4]):
                    st.insert_data(model(kk, i))
                before = dump(st, keys)
                batch = [model("K1", 11), model("K5", 12), model("K6", 13)]
                batch.insert(pos, badrec)
                ck.ev()
                ck.count("bad-batches")
                ck.nontrivial("badbatch", bname, pos)
                o = observe(st.insert_bulk_data, batch)
                if o.kind == "ok":
                    ck.violation(f"bulk:accepts:{bname}", f"bulk insert with {bname} at {pos} returned normally", [bname, pos])
                    continue
                for reader in (st, Store(sc.url())):
                    g = observe(dump, reader, keys)
                    if g.kind != "ok" or g.value != before:
                        ck.violation("bulk:partial-after-bad-record", f"{bname} at {pos}: state {g.short()} expected {before}", [bname, pos])
                o = observe(st.insert_data, model("K7", 5))
                if o.kind != "ok":
                    ck.violation("bulk:unusable-after-bad-record", o.short(), [bname, pos])
                st.engine.dispose()

    # large batches: nothing of them may stay behind when a late record is bad or a late statement fails
    big = [60, 130, 260, 530, 1100] + ([3000, 10500] if ck.thorough else [])
    for n in big:
        for how in ("bad-record", "fault-half", "fault-late"):
            with Scratch() as sc:
                st = Store(sc.url())
                st.init()
                st.insert_data(model("K1", 1))
                batch = [LM(1, f"L{i}", [1.0], 10, 5, [float(i)]) for i in range(n)]
                if how == "bad-record":
                    batch.append(bads["values-with-text"])
                else:
                    F.armed, F.k, F.seen, F.fired = True, 10 ** 9, 0, False      # count the events of a successful run
                    F.mode = "raise"
                    with Scratch() as sc2:
                        s2 = Store(sc2.url())
                        F.armed = False
                        s2.init()
                        F.armed = True
                        s2.insert_bulk_data(batch)
                        F.armed = False
                        total = F.seen
                        s2.engine.dispose()
                    arm(max(1, total // 2 if how == "fault-half" else total - 1))
                o = observe(st.insert_bulk_data, batch, cpu=120)
                F.armed = False
                ck.ev()
                ck.count("large-batches")
                ck.nontrivial("large-batch", n, how)
                if o.kind == "ok":
                    ck.violation(f"bulk:accepts:{how}", f"bulk insert of {n} records with {how} returned normally", [n, how])
                    continue
                left = [x.criterion_code for x in Store(sc.url()).get_bulk_data([f"L{i}" for i in range(0, n, max(1, n // 500))], 10)]
                if left or dump(Store(sc.url()), ["K1"])["K1"] != val(1):
                    ck.violation("bulk:partial-large-batch", f"failed bulk insert of {n} records ({how}) left {len(left)} of the probed ones behind: {left[:4]}", [n, how])
                st.engine.dispose()

    # ---------------------------------------------------------------- (b) kill -9
    def child_run(url, w, plan):
        try:
            st = Store(url)
            if plan[0] == "point":
                arm(plan[1], "kill")
            i = 0
            while i < 400:
                i += 1
                os.write(w, f"c {i}\n".encode())
                if i % 3 == 0:
                    st.insert_bulk_data([LM(1, f"B{j}", [1.0], 10, 5, [float(i), 0.5]) for j in range(4)])
                elif i % 5 == 0:
                    st.delete_data(LQ("S0", [1.0], 10, 5))
                else:
                    st.insert_data(LM(1, f"S{i % 4}", [1.0], 10, 5, [float(i), 0.5]))
                os.write(w, f"r {i}\n".encode())
        finally:
            os._exit(0)

    plans = [("point", k) for k in range(1, 60 if not ck.thorough else 260)]
    plans += [("random", int(r.integers(1, 40)), float(r.random() * .004)) for _ in range(25 if not ck.thorough else 250)]
    for plan in plans:
        with Scratch() as sc:
            url = sc.url()
            st = Store(url)
            st.init()
            st.insert_data(LM(1, "S0", [1.0], 10, 5, [0.0, 0.5]))
            st.engine.dispose()
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                child_run(url, wr, plan)
            os.close(wr)
            buf = b""
            killed = False
            while True:
                ready, _, _ = select.select([rd], [], [], 60)
                if not ready:
                    os.kill(pid, signal.SIGKILL)
                    break
                b = os.read(rd, 65536)
                if not b:
                    break
                buf += b
                if plan[0] == "random" and not killed and buf.count(b"r") >= plan[1]:
                    time.sleep(plan[2])
                    os.kill(pid, signal.SIGKILL)
                    killed = True
            os.close(rd)
            _, status = os.waitpid(pid, 0)
            calls = [int(x.split()[1]) for x in buf.decode().splitlines() if x.startswith("c ")]
            rets = [int(x.split()[1]) for x in buf.decode().splitlines() if x.startswith("r ")]
            ck.ev()
            if os.WIFSIGNALED(status):
                ck.count("kills")
                ck.nontrivial("kill", plan)
            acked, started = (max(rets) if rets else 0), (max(calls) if calls else 0)

            def state(upto):
                s = {f"S{j}": None for j in range(4)}
                s.update({f"B{j}": None for j in range(4)})
                s["S0"] = 0.0
                for i in range(1, upto + 1):
                    if i % 3 == 0:
                        for j in range(4):
                            s[f"B{j}"] = float(i)
                    elif i % 5 == 0:
                        s["S0"] = None
                    else:
                        s[f"S{i % 4}"] = float(i)
                return s
            o = observe(lambda: {k: (lambda g: None if g is None else g.results_statistics[0])(Store(url).get_data(LQ(k, [1.0], 10, 5)))
                                 for k in state(0)})
            case = {"plan": plan, "acknowledged": acked, "started": started}
            ck.sample("kill:" + plan[0], case)
            if o.kind != "ok":
                ck.violation("kill:unreadable", f"after kill {case}: {o.short()}", case)
            elif o.value != state(acked) and o.value != state(started):
                kind = "torn-bulk" if len({o.value[f"B{j}"] for j in range(4)}) > 1 else "lost-or-phantom-write"
                ck.violation(f"kill:{kind}", f"after kill {case}: {o.value}; acknowledged state {state(acked)}", case)

    # ---------------------------------------------------------------- (c) concurrency
    def client(st, rng, cid, nops, keys, hist, base):
        for i in range(nops):
            k = keys[int(rng.integers(len(keys)))]
            what = ("write", "write", "read", "read", "delete")[int(rng.integers(5))]
            v = float(base + i + 1)
            t0 = time.monotonic_ns()
            try:
                if what == "write":
                    st.insert_data(LM(1, k, [1.0], 10, 5, [v]))
                    res = v
                elif what == "read":
                    g = st.get_data(LQ(k, [1.0], 10, 5))
                    res = None if g is None else g.results_statistics[0]
                else:
                    st.delete_data(LQ(k, [1.0], 10, 5))
                    res = None
                hist.append((k, t0, time.monotonic_ns(), what, res, cid))
            except Exception as e:
                if what != "read":
                    hist.append((k, t0, None, what, v if what == "write" else None, cid))
                hist.append((k, t0, -1, "failed", type(e).__name__, cid))

    def judge(hist, label):
        fails = [h for h in hist if h[3] == "failed"]
        for f in fails:
            ck.count(f"failed-concurrent-op:{f[4]}")
            # a lock timeout is reported as one of these; anything else is a broken storage object
            if f[4] != "OperationalError":
                ck.violation(f"{label}:unexpected-failure:{f[4]}", f"operation of client {f[5]} on {f[0]} failed with {f[4]}", list(f))
        hist = [h for h in hist if h[3] != "failed"]
        ck.ev(len(hist))
        ck.count("concurrent-ops", len(hist))
        # overlap actually observed
        ev = sorted([(h[1], 1) for h in hist] + [(h[2] or h[1], -1) for h in hist])
        cur = over = 0
        for _, d in ev:
            cur += d
            over = max(over, cur)
        ck.count(f"max-overlap-{label}-{min(over, 6)}")
        for k in sorted({h[0] for h in hist}):
            sub = [(h[1], h[2], h[3], h[4]) for h in hist if h[0] == k]
            res = linearizable(sub)
            if res is None:
                ck.count("linearizability-undecided")
            else:
                ck.count("key-histories-decided")
                ck.nontrivial("lin", label, tuple(x[2:] for x in sub))
                if res is False:
                    ck.violation(f"{label}:not-linearizable", f"history of key {k} with {len(sub)} operations is not linearizable",
                                 sorted([[h[1], h[2], h[3], h[4], h[5]] for h in hist if h[0] == k]))
        ck.sample("history:" + label, [[h[0], h[3], h[4], h[5]] for h in sorted(hist, key=lambda h: h[1])[:15]])

    rounds = 6 if not ck.thorough else 60
    for rd_ in range(rounds):
        for label in ("threads-shared", "threads-own", "processes"):
            with Scratch() as sc:
                url = sc.url()
                base_store = Store(url)
                base_store.init()
                nc = int(r.integers(3, 7))
                nops = 12 if not ck.thorough else 25
                seeds = [int(x) for x in r.integers(0, 2**31, nc)]
                import numpy as np
                hist = []
                if label == "processes":
                    base_store.engine.dispose()
                    pipes = []
                    for c in range(nc):
                        a, b = os.pipe()
                        pid = os.fork()
                        if pid == 0:
                            os.close(a)
                            h = []
                            try:
                                client(Store(url), np.random.default_rng(seeds[c]), c, nops, ["X", "Y"], h, 1000 * (c + 1))
                                import json
                                data = json.dumps(h).encode()
                                while data:
                                    data = data[os.write(b, data):]
                            finally:
                                os._exit(0)
                        os.close(b)
                        pipes.append((pid, a))
                    import json
                    for pid, a in pipes:
                        buf = b""
                        while True:
                            x = os.read(a, 65536)
                            if not x:
                                break
                            buf += x
                        os.close(a)
                        os.waitpid(pid, 0)
                        if not buf:
                            raise RuntimeError("client process died without a history")
                        hist += [tuple(x) for x in json.loads(buf)]
                else:
                    ths = []
                    old = sys.getswitchinterval()
                    sys.setswitchinterval(1e-5)
                    for c in range(nc):
                        st = base_store if label == "threads-shared" else Store(url)
                        ths.append(threading.Thread(target=client, args=(st, np.random.default_rng(seeds[c]), c, nops, ["X", "Y"], hist, 1000 * (c + 1))))
                    for t in ths:
                        t.start()
                    for t in ths:
                        t.join()
                    sys.setswitchinterval(old)
                    base_store.engine.dispose()
                judge(hist, label)
                o = observe(lambda: (Store(url).insert_data(LM(1, "Z", [1.0], 10, 5, [1.0])), Store(url).get_data(LQ("Z", [1.0], 10, 5)))[1])
                if o.kind != "ok" or o.value is None:
                    ck.violation(f"{label}:unusable-after-concurrency", o.short(), None)
    # torn bulk reads
    for rd_ in range(4 if not ck.thorough else 40):
        with Scratch() as sc:
            url = sc.url()
            st = Store(url)
            st.init()
            codes = [f"B{j}" for j in range(6)]
            stop = threading.Event()
            torn, reads = [], [0]

            def reader():
                s2 = Store(url)
                while not stop.is_set():
                    try:
                        g = s2.get_bulk_data(codes, 10)
                    except Exception:
                        continue
                    reads[0] += 1
                    tags = {x.results_statistics[0] for x in g}
                    if len(tags) > 1 or len(g) not in (0, 6):
                        torn.append(sorted((x.criterion_code, x.results_statistics[0]) for x in g))
            ths = [threading.Thread(target=reader) for _ in range(3)]
            for t in ths:
                t.start()
            for i in range(15):
                st.insert_bulk_data([LM(1, c, [1.0], 10, 5, [float(i)]) for c in codes])
            stop.set()
            for t in ths:
                t.join()
            ck.ev(reads[0])
            ck.count("bulk-reads-during-writes", reads[0])
            if torn:
                ck.violation("bulk:torn-read", f"a bulk reader saw a partial batch: {torn[0]}", torn[:3])
            st.engine.dispose()

    # memory safety and integrity of large values handled by several threads (own databases: no lock contention), in a child process
    def value_stress(fd, seed):
        import numpy as np
        bad = []

        def work(c):
            rr = np.random.default_rng([seed, c])
            st = Store("sqlite://")
            st.init()
            for i in range(12):
                v = [float(np.float32(x)) for x in rr.normal(size=int(rr.choice([10, 3000, 30000])))]
                try:
                    st.insert_data(LM(1, f"V{i % 3}", [1.0], 10, 5, v))
                    got = st.get_data(LQ(f"V{i % 3}", [1.0], 10, 5)).results_statistics
                    if got != v:
                        bad.append(f"thread {c} operation {i}: {len(v)} values came back different")
                except Exception as e:
                    bad.append(f"thread {c} operation {i}: {type(e).__name__}: {str(e)[:120]}")
        ths = [threading.Thread(target=work, args=(c,)) for c in range(8)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        os.write(fd, ("done " + "|".join(bad[:5])).encode())

    for rd_ in range(2 if not ck.thorough else 25):
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(a)
            try:
                sys.stderr.flush()
                os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
                value_stress(b, ck.seed * 100 + rd_)
            finally:
                os._exit(0)
        os.close(b)
        buf = b""
        while True:
            x = os.read(a, 65536)
            if not x:
                break
            buf += x
        os.close(a)
        _, status = os.waitpid(pid, 0)
        ck.ev(96)
        ck.count("threaded-large-values", 96)
        if os.WIFSIGNALED(status):
            ck.violation("threads:crash", f"8 threads storing and reading large lists: the process died of signal {os.WTERMSIG(status)}", rd_)
        elif not buf.startswith(b"done "):
            raise RuntimeError("value stress process ended without a report")
        elif buf != b"done ":
            ck.violation("threads:large-values", buf.decode()[5:], rd_)

    # ---------------------------------------------------------------- (d) unreachable databases
    with Scratch() as sc:
        notdb = os.path.join(sc.dir, "notdb")
        open(notdb, "wb").write(b"this is not a database, just text padded " * 40)
        os.mkdir(os.path.join(sc.dir, "adir"))
        urls = ["sqlite:////nonexistent-dir/x.sqlite", f"sqlite:///{notdb}", f"sqlite:///{sc.dir}/adir", "nonsense", "", "foo://bar/baz",
                "postgresql://u:p@127.0.0.1:9/none", "mysql://u:p@127.0.0.1:9/none", "sqlite:///" + sc.dir + "/missing/sub/x.db"]
        for u in urls:
            ck.ev()
            ck.count("unreachable")
            o = observe(Store.create_safe, u)
            if o.kind != "ok" or o.value is not None:
                ck.violation("create_safe:raised" if o.kind != "ok" else "create_safe:phantom-storage", f"create_safe({u!r}) -> {o.short()}", u)
            o = observe(lambda: Store(u).init())
            if o.kind == "ok":
                ck.violation("init:silent", f"init() of unreachable {u!r} succeeded", u)
        o = observe(Store.create_safe, sc.url("fine.sqlite"))
        if o.kind != "ok" or o.value is None or observe(o.value.insert_data, model("K", 1)).kind != "ok":
            ck.violation("create_safe:reachable", f"reachable database gave {o.short()}", None)
        else:
            # opening again must not wipe anything
            again = Store.create_safe(sc.url("fine.sqlite"))
            if again is None or dump(again, ["K"])["K"] != val(1):
                ck.violation("create_safe:wipes", "record gone after reopening with create_safe", None)
    for n, m in (("faults-fired", 60), ("bad-batches", 15), ("kills", 40), ("concurrent-ops", 300), ("key-histories-decided", 20),
                 ("bulk-reads-during-writes", 20), ("unreachable", 5), ("large-batches", 10), ("threaded-large-values", 100)):
        ck.need(n, m)
