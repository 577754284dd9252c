"""C29: critical-value loader against a model of both storages, every storage call recorded, faults injected."""
import json
from collections import Counter
from pv.core import observe
from pv.store import f32, same, values
RULE = ("random local and remote storages (several records per code: other sizes, counts, parameters, experiments), load() and load_bulk() "
        "with duplicates, size windows, absent remote, failing local or remote operations and single records the local storage refuses; every storage call is recorded; an "
        "evaluation is one load judged against the storages' contents before and after; non-trivial = something was missing or faulted")


def run(ck):
    from pysatl_criterion.hypothesis_testing.critical_values.loader.remote_loader import CriticalValueLoader
    from pysatl_criterion.persistence.models.limit_distribution import (CriticalValueQuery, ILimitDistributionStorage,
                                                                        LimitDistributionModel as LM, LimitDistributionQuery as LQ)
    from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage as Store

    class Boom(Exception):
        pass

    class Spy(ILimitDistributionStorage):
        """Records every call at the storage boundary; can fail the k-th read or the k-th write."""

        def __init__(self, inner):
            self.inner, self.calls, self.fail, self.poison = inner, [], {}, None

        def _do(self, kind, name, arg, f):
            self.calls.append((kind, name, arg))
            if kind == "write" and self.poison in arg:
                raise Boom(f"the record of {self.poison} cannot be stored")
            if self.fail.get(kind) == sum(1 for c in self.calls if c[0] == kind):
                raise Boom(f"injected {kind} failure in {name}")
            return f()

        def init(self):
            return self.inner.init()

        def get_data(self, q):
            return self._do("read", "get_data", [q.criterion_code], lambda: self.inner.get_data(q))

        def get_data_for_cv(self, q):
            return self._do("read", "get_data_for_cv", [q.criterion_code], lambda: self.inner.get_data_for_cv(q))

        def get_bulk_data(self, c, n, e=0):
            return self._do("read", "get_bulk_data", list(c), lambda: self.inner.get_bulk_data(c, n, e))

        def insert_data(self, d):
            return self._do("write", "insert_data", [d.criterion_code], lambda: self.inner.insert_data(d))

        def insert_bulk_data(self, ms):
            return self._do("write", "insert_bulk_data", [m.criterion_code for m in ms], lambda: self.inner.insert_bulk_data(ms))

        def delete_data(self, q):
            return self._do("write", "delete_data", [q.criterion_code], lambda: self.inner.delete_data(q))

    r = ck.rng("c29")
    CODES = ["ks", "ad", "cvm", "KS", "zz'q", "watson", "ks_2"]

    def fill(st, n):
        M = {}
        for _ in range(n):
            x = LM(int(r.integers(0, 3)), CODES[int(r.integers(len(CODES)))], [[], [0.0, 1.0], [2.0, 3.0]][int(r.integers(3))],
                   int(r.choice([9, 10, 10, 10, 11, 13, 30])), int(r.choice([10, 100, 1000, 5000])), values(r))
            st.insert_data(x)
            M[(x.experiment_id, x.criterion_code, json.dumps(x.criterion_parameters), x.sample_size, x.monte_carlo_count)] = f32(x.results_statistics)
        return M

    def dump(st, extra):
        """All records reachable for the known keys (plus extra keys), read through exact-key queries."""
        out = {}
        for k in extra:
            g = st.get_data(LQ(k[1], json.loads(k[2]), k[3], k[4]))
            if g is not None:
                out[(g.experiment_id, g.criterion_code, json.dumps(g.criterion_parameters), g.sample_size, g.monte_carlo_count)] = g.results_statistics
        return out

    rounds = 420 if not ck.thorough else 6000
    for it in range(rounds):
        local, remote = Spy(Store("sqlite:///:memory:")), Spy(Store("sqlite:///:memory:"))
        local.init()
        remote.init()
        L = fill(local.inner, int(r.integers(0, 6)))
        R = fill(remote.inner, int(r.integers(0, 14)))
        absent = r.random() < .15
        fault = ["none", "none", "none", "local-write", "remote-read", "local-read", "unstorable"][int(r.integers(7))]
        if fault == "local-write":
            local.fail = {"write": int(r.choice([1, 1, 1, 2, 3]))}
        elif fault == "unstorable":
            local.poison = CODES[int(r.integers(len(CODES)))]
        elif fault == "local-read":
            local.fail = {"read": int(r.integers(1, 4))}
        elif fault == "remote-read" and not absent:
            remote.fail = {"read": int(r.integers(1, 3))}
        n, e = int(r.choice([10, 10, 11, 30, 50])), int(r.choice([0, 0, 0, 1, 3, 40]))
        loader = CriticalValueLoader(local, None if absent else remote)
        bulk = r.random() < .65

        def in_window(M, c):
            return [k for k in M if k[1] == c and abs(k[3] - n) <= e]

        def best(M, c):
            w = in_window(M, c)
            m = max((k[4] for k in w), default=None)
            return [k for k in w if k[4] == m]
        if bulk:
            codes = [CODES[int(i)] for i in r.choice(len(CODES), int(r.integers(0, 6)), replace=False)]
            if codes and r.random() < .2:
                codes.append(codes[int(r.integers(len(codes)))])
            arg = list(codes)
            o = observe(loader.load_bulk, arg, n, e) if e or r.random() < .5 else observe(loader.load_bulk, arg, n)
        else:
            codes = [CODES[int(r.integers(len(CODES)))]]
            arg = list(codes)
            o = observe(loader.load, codes[0], n, e) if e or r.random() < .5 else observe(loader.load, codes[0], n)
        tag = "load_bulk" if bulk else "load"
        ck.ev()
        ck.count(tag)
        ck.count(f"fault:{fault}")
        case = dict(call=tag, codes=codes, sample_size=n, error=e, remote_absent=absent, fault=fault, local=sorted(map(list, L)), remote=sorted(map(list, R)),
                    outcome=o.short(), local_calls=local.calls, remote_calls=remote.calls)
        ck.sample(tag + fault, case)

        def bad(key, what):
            ck.violation(f"{tag}:{key}", what, case)
        if arg != codes:
            bad("mutates-request", f"request list changed to {arg}")
        cached = [c for c in codes if in_window(L, c)]
        missing = [c for c in codes if not in_window(L, c)]
        avail = [] if absent else [c for c in dict.fromkeys(missing) if in_window(R, c)]
        if missing:
            ck.nontrivial(it)
        injected = any(c[0] == "write" and local.poison in c[2] for c in local.calls) or bool([c for s in (local, remote) for k, v in s.fail.items() if sum(1 for x in s.calls if x[0] == k) >= v for c in [1]])
        # what the storages contain now
        local.fail = {}
        local.poison = None
        remote.fail = {}
        allk = list(dict.fromkeys(list(L) + list(R)))
        L2 = {}
        for k in allk:
            # several experiments can share a query key: read through the inner storage by key component
            for kk, v in dump(local.inner, [k]).items():
                L2[kk] = v
        newk = {k for k in L2 if k not in L}
        shadowed = {k[1:] for k in newk}
        for k, v in L.items():
            if k not in L2:
                # hidden by another experiment with the same query key: acceptable only if that one exists
                if not any(q[1:] == k[1:] for q in L2):
                    bad("lost-local-record", f"local record {k} disappeared")
            elif not same(L2[k], v):
                if k in R and k[1] in avail and same(L2[k], R[k]) and not cached.count(k[1]):
                    pass
                else:
                    bad("changed-local-record", f"local record {k} changed")
        if any(c[0] == "write" for c in remote.calls):
            bad("writes-remote", f"remote storage was written: {remote.calls}")
        asked = [x for c in remote.calls for x in c[2]]
        if any(a not in missing for a in asked):
            bad("fetches-cached", f"remote asked for {asked}, missing were {missing}")
        if not missing and remote.calls:
            bad("touches-remote-when-cached", f"remote calls {remote.calls} although everything was cached")
        if not missing and [c for c in local.calls if c[0] == "write" and c[2]]:
            bad("writes-when-cached", f"local writes {local.calls} although everything was cached")
        for k in newk:
            if k[1] not in avail or k not in R:
                bad("phantom-record", f"local record {k} appeared, not a missing remote record")
            elif k not in best(R, k[1]):
                bad("not-best-record", f"stored {k}, largest Monte Carlo count is {best(R, k[1])}")
            elif not same(L2[k], R[k]):
                bad("changed-record", f"stored copy of {k} differs from the remote one")
        now = lambda c: local.inner.get_data_for_cv(CriticalValueQuery(c, n, e)) is not None or c in [x.criterion_code for x in local.inner.get_bulk_data([c], n, e)]
        have = {c: now(c) for c in set(codes)}
        if o.kind == "hang":
            bad("hang", "no result")
            continue
        if o.kind == "exc":
            if injected and isinstance(o.exc, Boom):
                ck.count("fault-propagated")
                if fault in ("local-write", "unstorable") and newk:
                    bad("partial-after-failure", f"write failed yet {newk} stored")
            else:
                bad("raised", f"{o.short()}")
            continue
        # everything a reachable storage has must be available locally afterwards
        if not injected:
            for c in codes:
                want = bool(in_window(L, c)) or c in avail
                if want and not have[c]:
                    bad("not-cached", f"{c} is available {'locally' if in_window(L, c) else 'remotely'} but the local storage does not have it")
        if injected:
            ck.count("fault-absorbed")
        if bulk:
            v = o.value
            nf = list(v.not_found_codes)
            if v.requested_count != len(codes):
                bad("requested-count", f"{v} for {len(codes)} requested codes")
            if v.already_cached_count != len(cached):
                bad("cached-count", f"{v}, cached before: {cached}")
            if Counter(nf) != Counter(c for c in codes if not have[c]):
                bad("not-found-list", f"{v}, not in the local storage afterwards: {[c for c in codes if not have[c]]}")
            if v.already_cached_count + v.newly_cached_count + len(nf) != v.requested_count:
                bad("partition", f"{v} does not add up")
            if v.newly_cached_count != len([c for c in missing if have[c]]):
                bad("new-count", f"{v}, newly available: {[c for c in missing if have[c]]}")
        else:
            if not isinstance(o.value, bool) or o.value != have[codes[0]]:
                bad("return-value", f"load returned {o.value!r}, local storage has the record afterwards: {have[codes[0]]}")
        if not bulk or codes:
            # loading again is a no-op that does not touch the remote storage for what is there now
            local.calls.clear()
            remote.calls.clear()
            got = [c for c in codes if have[c]]
            if got:
                o2 = observe(loader.load_bulk, got, n, e) if bulk else observe(loader.load, got[0], n, e)
                ck.ev()
                ck.count("repeat-loads")
                if o2.kind != "ok" or remote.calls or [c for c in local.calls if c[0] == "write" and c[2]]:
                    bad("repeat-not-noop", f"repeated load: {o2.short()}, remote calls {remote.calls}, local calls {local.calls}")
        local.inner.engine.dispose()
        remote.inner.engine.dispose()
    # requests far larger than a batch or page
    for it, N in enumerate((520, 1103, 2300) if not ck.thorough else (257, 520, 999, 1001, 1103, 2300, 5200, 10500)):
        local, remote = Spy(Store("sqlite:///:memory:")), Spy(Store("sqlite:///:memory:"))
        local.init()
        remote.init()
        names = [f"CODE_{i:05d}" for i in range(N)]
        inl = {c for c in names if r.random() < .3}
        inr = {c for c in names if r.random() < .8}
        L, R = {}, {}
        for M, S, have in ((L, local, inl), (R, remote, inr)):
            ms = []
            for c in sorted(have):
                for cnt in sorted({int(v) for v in r.choice([10, 100, 1000, 5000], 2)}):
                    x = LM(1, c, [float(r.integers(3))], int(r.choice([10, 11])), cnt, [float(v) for v in r.normal(size=2)])
                    ms.append(x)
                    M.setdefault(c, []).append((x.monte_carlo_count, x.sample_size, x.criterion_parameters, f32(x.results_statistics)))
            S.inner.insert_bulk_data([ms[int(i)] for i in r.permutation(len(ms))])
        codes = [names[int(i)] for i in r.permutation(N)]
        o = observe(CriticalValueLoader(local, remote).load_bulk, list(codes), 10, 1, cpu=120)
        ck.ev()
        ck.count("large-bulk-loads")
        ck.nontrivial("large", N)
        case = {"codes": N, "outcome": o.short()[:200]}
        if o.kind != "ok":
            ck.violation("large:raised", f"load_bulk of {N} codes: {o.short()}", case)
            continue
        v = o.value
        want_nf = [c for c in codes if c not in inl and c not in inr]
        if (v.requested_count, v.already_cached_count, v.newly_cached_count) != (N, len(inl), len(inr - inl)) or sorted(v.not_found_codes) != sorted(want_nf):
            ck.violation("large:report", f"load_bulk of {N} codes reports {v.requested_count}/{v.already_cached_count}/{v.newly_cached_count}/{len(v.not_found_codes)} not found; "
                         f"{len(inl)} were cached, {len(inr - inl)} available remotely, {len(want_nf)} nowhere", case)
        if any(c[0] == "write" for c in remote.calls):
            ck.violation("large:writes-remote", "remote storage written", case)
        for c in names:
            g = local.inner.get_data_for_cv(CriticalValueQuery(c, 10, 1))
            src = L.get(c) or R.get(c)
            ck.count("large-bulk-records")
            if src is None:
                if g is not None:
                    ck.violation("large:phantom", f"{c}: {g}", case)
                continue
            top = max(s[0] for s in src)
            if g is None or not any((g.monte_carlo_count, g.sample_size, g.criterion_parameters) == s[:3] and same(g.results_statistics, s[3]) for s in src if s[0] == top):
                ck.violation("large:record", f"load_bulk of {N} codes left {c} locally as {g}; available {src}", case)
        local.inner.engine.dispose()
        remote.inner.engine.dispose()
    ck.need("large-bulk-records", 3000)
    for nme, m in (("load", 60), ("load_bulk", 100), ("fault:local-write", 20), ("fault:remote-read", 20), ("repeat-loads", 50)):
        ck.need(nme, m)
