"""C40: components written by users (criteria, alternatives, resolvers, decision methods, storages, corrections, descriptors) work like the built-in ones."""
import abc
import gc
import math
import types
import numpy as np
from pv.core import observe, close
from pv import ref_edf as E, ref_gen
from pv.checks.c22 import judge

RULE = ("classes created at run time against the public abstract bases - criteria (direct, over abstract and concrete parents, diamonds, on the shared EDF / chi-square / graph mixins, for all "
        "21 distribution types, stateful and randomised ones), alternatives, resolvers, decision methods, storages, multiple-testing corrections, descriptors and validators - driven through "
        "discovery, Monte Carlo resolution, tests, loader and corrections with every call across the interface recorded; evaluation = one interface call or result judged; "
        "non-trivial = distinct (scenario, class shape, configuration, outcome)")
ASSUMPTIONS = ["a user-defined concrete generator or descriptor for a type that has a built-in one is ambiguous and not used", "criteria declare code / short_code / distribution as static methods, as the base class does"]


class Boom(Exception):
    pass


def run(ck):
    from pysatl_criterion import DistributionParameterDescriptor, DistributionType as DT
    from pysatl_criterion.distribution.distributions import DistributionDescriptor
    from pysatl_criterion.distribution.validator import Validator
    from pysatl_criterion.generator.model import AbstractRVSGenerator
    from pysatl_criterion.hypothesis_testing.critical_values.loader.remote_loader import CriticalValueLoader
    import pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test as G
    from pysatl_criterion.hypothesis_testing.limit_distribution import base as L
    from pysatl_criterion.hypothesis_testing.model import DecisionMethod, TestResult
    from pysatl_criterion.hypothesis_testing.multiple_testing.abstract_multiple_testing import AbstractMultipleTesting
    from pysatl_criterion.hypothesis_testing.multiple_testing import fwer, fdr
    from pysatl_criterion.persistence.models.limit_distribution import ILimitDistributionStorage, LimitDistributionModel as LM
    from pysatl_criterion.statistics import AbstractGoodnessOfFitStatistic as Base, goodness_of_fit as g
    from pysatl_criterion.statistics.goodness_of_fit import common, graph_goodness_of_fit as gg
    from pysatl_criterion.statistics.alternative import Alternative, AlternativeType as AT
    from pysatl_criterion.statistics.hypothesis import GoodnessOfFitHypothesis as H
    from pysatl_criterion.utils.distribution import get_available_distribution_descriptor as find_desc
    from pysatl_criterion.utils.generator import get_available_generator as find_gen
    from pysatl_criterion.utils.statistic import get_available_criteria as find_crit
    import logging
    logging.getLogger().setLevel(logging.CRITICAL)
    logging.getLogger("pysatl_criterion").setLevel(logging.CRITICAL)
    r = ck.rng("c40")
    deep = ck.tier == "thorough"
    serial = [0]

    def mk(dist, bases=(Base,), params=None, alt=None, fn=None, module="user_plugin", abstract=False, extra=None):
        """A criterion class with static code / short_code / distribution; records its samples on the instance."""
        serial[0] += 1
        short = f"USR{serial[0]}"
        ns = {"__module__": module, "code": staticmethod(lambda: f"{short}_USER_GOODNESS_OF_FIT"), "short_code": staticmethod(lambda: short), "distribution": staticmethod(lambda: dist)}

        def execute_statistic(self, rvs, **kw):
            self.__dict__.setdefault("seen", []).append(rvs)
            v = fn(self, rvs)
            self.__dict__.setdefault("values", []).append(v)
            return v
        if fn is not None:
            ns["execute_statistic"] = execute_statistic
            ns["hypothesis"] = lambda self: H(getattr(self, "params", params))
            ns["alternative"] = lambda self: alt() if callable(alt) else Alternative.get_alternative(alt)
        if abstract:
            ns["missing"] = abc.abstractmethod(lambda self: None)
        ns.update(extra or {})
        cls = types.new_class(f"Usr{serial[0]}", bases, {}, lambda d: d.update(ns))
        return cls, short

    mean = lambda self, x: float(np.mean(np.asarray(x, float)))

    # --- discovery ----------------------------------------------------------------------------------------------
    keep, expected = [], {d: sorted(find_crit(d)) for d in DT}

    def audit(how, dists):
        for d in dists:
            o = observe(find_crit, d)
            ck.ev()
            ck.count("discovery audits")
            if o.kind != "ok":
                ck.violation(f"discovery:{how}:error", f"get_available_criteria({d.name}) after defining {how}: {o.short()}")
                return
            if sorted(o.value) != sorted(expected[d]):
                lost = sorted(set(expected[d]) - set(o.value))
                more = sorted(set(o.value) - set(expected[d]))
                ck.violation(f"discovery:{how}", f"get_available_criteria({d.name}) after defining {how}: missing {lost[:4]}, unexpected {more[:4]}, "
                             f"{len(o.value)} entries instead of {len(expected[d])}")
    builtin = [c for c in (getattr(g, n) for n in g.__all__) if isinstance(c, type) and issubclass(c, Base)]
    concrete = [c for c in builtin if not getattr(c, "__abstractmethods__", None)]
    kinds = ("direct", "module", "over-abstract", "over-concrete", "abstract-again", "mixin", "diamond", "deep", "builtin-child-other-distribution")
    for _ in range(12 if not deep else 40):
        for how in r.permutation(kinds):
            d = list(DT)[int(r.integers(0, len(DT)))]
            touched = {d}
            if how == "direct":
                c, s = mk(d, fn=mean, alt=AT.RIGHT)
                expected[d].append(s)
            elif how == "module":
                c, s = mk(d, fn=mean, alt=AT.RIGHT, module=str(r.choice(["__main__", "pysatl_criterion_extra.stats", "", "builtins", "tests.unit"])))
                expected[d].append(s)
            elif how == "over-abstract":
                a, _s = mk(d, fn=mean, alt=AT.LEFT, abstract=True)
                keep.append(a)
                audit(how, touched)
                c, s = mk(d, (a,), extra={"missing": lambda self: None})
                expected[d].append(s)
            elif how == "over-concrete":
                p, s1 = mk(d, fn=mean, alt=AT.RIGHT)
                keep.append(p)
                expected[d].append(s1)
                audit(how, touched)
                c, s = mk(d, (p,))
                expected[d].append(s)
            elif how == "abstract-again":
                p, s1 = mk(d, fn=mean, alt=AT.RIGHT)
                keep.append(p)
                expected[d].append(s1)
                c, _s = mk(d, (p,), abstract=True)
            elif how == "deep":
                # a line of descent: every concrete member of it is a criterion, however far from the base class it is
                p, s1 = mk(d, fn=mean, alt=AT.RIGHT) if r.integers(2) else mk(d, (concrete[int(r.integers(len(concrete)))],), fn=mean, alt=AT.RIGHT)
                expected[d].append(s1)
                for _ in range(int(r.integers(3, 14))):
                    keep.append(p)
                    missing = bool(r.integers(4) == 0)
                    p, s1 = mk(d, (p,), abstract=missing, extra=None if missing else {"missing": lambda self: None})
                    if not missing:
                        expected[d].append(s1)
                c = p
            elif how == "mixin":
                m = (common.KSStatistic, common.ADStatistic, common.CrammerVonMisesStatistic, common.MinToshiyukiStatistic, common.LillieforsTest, common.Chi2Statistic)[int(r.integers(0, 6))]
                c, s = mk(d, (m, Base), fn=mean, alt=AT.RIGHT)
                expected[d].append(s)
            elif how == "diamond":
                a, _s = mk(d, fn=mean, alt=AT.RIGHT, abstract=True)
                b1, _s = mk(d, (a,), abstract=True)
                b2, _s = mk(d, (a,), abstract=True)
                keep += [a, b1, b2]
                c, s = mk(d, (b1, b2), extra={"missing": lambda self: None})
                expected[d].append(s)
            else:
                p = concrete[int(r.integers(0, len(concrete)))]
                c, s = mk(d, (p,))
                expected[d].append(s)
                touched.add(p.distribution())
            keep.append(c)
            audit(str(how), touched)
            ck.nontrivial("discovery", str(how), d.name)
    audit("everything", DT)
    # abstract generators and descriptors of users never get in the way
    for base, finder in ((AbstractRVSGenerator, lambda d: find_gen(d, dict(ref_gen.SPEC[d.name][4][0]))), (DistributionDescriptor, find_desc)):
        before = {d: type(observe(finder, d).value) for d in DT}
        for parent in (base, *[t for t in before.values() if t is not type(None)][::5]):
            keep.append(types.new_class("UsrAbs", (parent,), {}, lambda ns: ns.update(extra=abc.abstractmethod(lambda self: None))))
        for d in DT:
            o = observe(finder, d)
            ck.ev()
            ck.count("lookup with abstract user classes")
            if o.kind != "ok" or type(o.value) is not before[d]:
                ck.violation(f"lookup:{base.__name__}", f"with an abstract user class the lookup of {d.name} gives {o.short()}")

    # --- simulation for every distribution type -----------------------------------------------------------------
    for d in DT:
        spec = ref_gen.SPEC.get(d.name)
        if spec is None:
            continue
        sets = [dict(p) for p in spec[4][:3]] + [spec[3](r) for _ in range(4 if not deep else 40)]
        for p in sets:
            c, _s = mk(d, fn=lambda self, x: float(np.asarray(x, float)[0]), alt=AT.RIGHT, params=p)
            s = c()
            n, m = int(r.integers(2, 9)), int(r.choice([60, 90]))
            np.random.seed(int(r.integers(0, 2 ** 31)))
            o = observe(L.MonteCarloLimitDistributionResolver(m).resolve, s, n)
            ck.ev()
            case = {"distribution": d.name, "params": p, "n": n, "count": m}
            if o.kind != "ok":
                ck.violation(f"simulate:{d.name}:error", f"user criterion of {d.name}{p}: {o.short()}", case)
                continue
            if list(o.value) != s.values or len(s.values) != m or any(len(x) != n for x in s.seen):
                ck.violation(f"simulate:{d.name}:list", f"user criterion of {d.name}{p}: {len(o.value)} values from {len(s.values)} evaluations on sizes {sorted({len(x) for x in s.seen})}", case)
                continue
            allx = np.concatenate([np.asarray(x, float) for x in s.seen])
            ck.count("simulated observations", len(allx))
            with np.errstate(all="ignore"):
                u = spec[1](allx, **p)
            bad, _tests = ref_gen.uniformity(u)
            if bad:
                ck.violation(f"simulate:{d.name}:law", f"samples simulated for a user criterion of {d.name}{p} do not follow it: {bad[0]}", case)
            ck.nontrivial("simulate", d.name, tuple(sorted(p.items())), n, m)
            if o.value[0] != o.value[-1] and len(set(o.value)) < m * .9 and d.name not in ():
                ck.count("simulate: repeated values")

    # --- generators for a distribution of the user's own ----------------------------------------------------------
    import enum
    for it in range(24 if not deep else 300):
        Own = enum.Enum(f"Own{it}", {"A": "a", "B": "b"})
        made = []

        def gen(kind, tag):
            def init(self, **kw):
                AbstractRVSGenerator.__init__(self, **kw)
                made.append((self, dict(kw)))
                self.kw = kw

            def init_named(self, p=1, q=2, **kw):
                AbstractRVSGenerator.__init__(self, **kw)
                self.kw = {"p": p, "q": q, **kw}
                made.append((self, dict(self.kw)))

            def init_strict(self, p, *, q):
                AbstractRVSGenerator.__init__(self)
                self.kw = {"p": p, "q": q}
                made.append((self, dict(self.kw)))
            ns = {"__module__": "user_plugin", "__init__": {"kwargs": init, "named": init_named, "strict": init_strict}[kind], "parameters": lambda self: self.kw,
                  "distribution_type": staticmethod(lambda: tag), "code": lambda self: f"OWN_{self.kw}", "generate": lambda self, size: np.full(size, float(sum(self.kw.values())))}
            return types.new_class(f"OwnGen{it}{tag.name}", (AbstractRVSGenerator,), {}, lambda d: d.update(ns))
        kind = ("kwargs", "named", "strict")[it % 3]
        keep += [gen(kind, Own.A), gen("kwargs", Own.B)]
        params = {"p": float(r.normal()), "q": float(r.integers(0, 5))}
        if kind == "kwargs":
            params[str(r.choice(["z", "scale", "lam", "self_", "size"]))] = float(r.normal())
        made.clear()
        o = observe(find_gen, Own.A, dict(params))
        ck.ev()
        ck.count("own generators")
        ck.nontrivial("own generator", kind, tuple(params))
        case = {"constructor": kind, "params": params}
        if o.kind != "ok" or type(o.value).__name__ != f"OwnGen{it}A":
            ck.violation("own-generator:lookup", f"looking up a user's generator ({kind}) gives {o.short()}", case)
            continue
        if o.value.kw != params:
            ck.violation("own-generator:parameters", f"a user's generator ({kind}) looked up with {params} was built with {o.value.kw}", case)
            continue
        c, _s = mk(Own.A, params=params, fn=lambda self, x: float(np.sum(x)), alt=AT.RIGHT)
        n, m = int(r.integers(1, 9)), int(r.integers(1, 6))
        o = observe(L.MonteCarloLimitDistributionResolver(m).resolve, c(), n)
        want = float(np.sum(np.full(n, float(sum(params.values())))))
        if o.kind != "ok" or list(o.value) != [want] * m:
            ck.violation("own-generator:simulate", f"simulating a criterion of the user's own distribution gives {o.short()}, expected {m} times {want}", case)
        if it % 3 == 2:
            o = observe(find_gen, Own.A, {"p": 1.0})
            if o.kind == "ok" or not isinstance(o.exc, TypeError):
                ck.violation("own-generator:missing-parameter", f"a strict user generator looked up without a required parameter gives {o.short()}", case)
            o = observe(find_gen, Own.A, {"p": 1.0, "q": 2.0, "x": 3.0})
            if o.kind == "ok" or not isinstance(o.exc, TypeError):
                ck.violation("own-generator:unknown-parameter", f"a strict user generator looked up with an unknown parameter gives {o.short()}", case)
        o = observe(find_crit, Own.A)
        if o.kind != "ok" or sorted(o.value) != [_s]:
            ck.violation("own-generator:criteria", f"criteria of the user's own distribution: {o.short()}", case)

    # --- complete tests -----------------------------------------------------------------------------------------
    class Far(Alternative):
        side = AT.RIGHT

        @staticmethod
        def type():
            return Far.side

    kinds_of_value = {"float": float, "float64": np.float64, "int": lambda v: int(round(v * 20)), "float32": lambda v: np.float32(v), "bool": lambda v: bool(v > 0)}
    containers = {"list": list, "tuple": tuple, "array": np.array, "strided": lambda x: np.repeat(np.array(x), 2)[::2], "float32": lambda x: np.array(x, np.float32)}

    class Res(L.AbstractLimitDistributionResolver):
        """Returns a different limit sample on every call; keeps what it returned."""

        def __init__(self, kind):
            self.kind, self.calls, self.out = kind, [], []

        def resolve(self, statistic, sample_size):
            self.calls.append((statistic, sample_size))
            m = int(r.integers(3, 60))
            v = [float(t) for t in (r.normal(size=m) if self.kind != "ties" else r.integers(-2, 3, m))]
            self.out.append(list(v))
            return tuple(v) if self.kind == "tuple" else np.array(v) if self.kind == "array" else v

    for it in range(600 if not deep else 9000):
        side = (AT.LEFT, AT.RIGHT, AT.TWO_TAILED)[it % 3]
        Far.side = side
        vk = list(kinds_of_value)[int(r.integers(0, len(kinds_of_value)))]
        stateful = bool(r.integers(0, 2))
        conv = kinds_of_value[vk]
        base_v = float(r.choice([float(r.normal()), float(r.integers(-2, 3))]))
        c, _s = mk(DT.CAUCHY, fn=lambda self, x: conv(base_v + (len(self.__dict__.get("values", [])) * .37 if stateful else 0)), alt=Far if it % 2 else side, params={"t": 0, "s": 1})
        s = c()
        rk = str(r.choice(["list", "ties", "list"]))
        res = Res(rk)
        method = "p" if it % 4 < 2 else "cv"
        dm = G.PValueDecisionMethod(res) if method == "p" else G.CriticalValueDecisionMethod(res)
        level = float(r.choice([.01, .05, .1, .25, .5, .9]))
        x = [float(t) for t in r.normal(size=int(r.integers(1, 30)))]
        ct = list(containers)[int(r.integers(0, len(containers)))]
        arg = containers[ct](x)
        o = observe(G.GoodnessOfFitTest(s).test, arg, level, dm)
        ck.count(f"tests:{method}:{side.value}")
        case = {"side": side.value, "value": vk, "stateful": stateful, "resolver": rk, "method": method, "container": ct, "n": len(x), "level": level}
        tag = "user-test"
        if o.kind != "ok":
            ck.violation(f"{tag}:error", f"test of a user criterion: {o.short()}", case)
            continue
        t = o.value
        if not s.seen or not all(len(q) == len(x) and np.array_equal(np.asarray(q), np.asarray(arg)) for q in s.seen):
            ck.violation(f"{tag}:sample", "the user criterion was evaluated on something else than the observed sample", case)
            continue
        if not res.calls or any(a is not s for a, _n in res.calls) or any(n != len(x) for _a, n in res.calls):
            ck.violation(f"{tag}:resolver-call", f"the user resolver was asked {[(type(a).__name__, n) for a, n in res.calls]} for a sample of {len(x)}", case)
            continue
        if not any(t.statistic == v for v in s.values):
            ck.violation(f"{tag}:statistic", f"reported statistic {t.statistic!r}, the criterion returned {s.values!r}", case)
            continue
        if len(res.out) > 1:       # a resolver may be asked more than once; then the last answer counts
            ck.count("resolver asked more than once")
        if len(s.values) > 1:
            ck.count("criterion evaluated more than once")
        judge(ck, tag, side.value, res.out[-1], float(t.statistic), level, t, method, case)
        ck.nontrivial("test", side.value, vk, stateful, rk, method, ct, level, t.rejected)

    # user decision methods: called with what was observed, their object is what the test returns
    class Sub(TestResult):
        pass

    for it in range(180 if not deep else 2000):
        got = []
        ret = Sub(1.0, .5, None, True, .3) if it % 3 else object()

        class DM(DecisionMethod):
            def decide(self, statistic, statistic_value, significance_level, sample_size):
                got.append((statistic, statistic_value, significance_level, sample_size))
                return ret
        c, _s = mk(DT.RICE, fn=mean, alt=side)
        s = c() if it % 2 else concrete_normal(g)
        x = [float(t) for t in r.normal(size=int(r.integers(6, 25)))]
        level = float(r.random())
        o = observe(G.GoodnessOfFitTest(s).test, x, level, DM())
        want = observe(s.execute_statistic, x)
        ck.ev()
        ck.count("user decision methods")
        if o.kind != "ok" or o.value is not ret:
            ck.violation("decision-method:result", f"test() with a user decision method gave {o.short()}")
        elif len(got) != 1 or got[0][0] is not s or got[0][1] != want.value or got[0][2] != level or got[0][3] != len(x):
            ck.violation("decision-method:arguments", f"the user decision method got {[(type(a[0]).__name__,) + a[1:] for a in got]} instead of one call with {(type(s).__name__, want.value, level, len(x))}")
        ck.nontrivial("decide", it, len(x))

    # errors of user components come out as they are, and nothing is decided
    for where in ("criterion", "resolver", "decide", "storage", "alternative"):
        for exc in (Boom("x"), KeyError("k"), StopIteration(), ValueError("v"), ZeroDivisionError(), NotImplementedError(), AttributeError("a"), TypeError("t"), OSError(5, "io")):
            for method in ("p", "cv"):
                def bang(*a, **k):
                    raise exc
                c, _s = mk(DT.NORMAL, fn=bang if where == "criterion" else mean, alt=bang if where == "alternative" else AT.RIGHT, params={"mean": 0, "var": 1})
                inner = L.MonteCarloLimitDistributionResolver(5)
                if where == "resolver":
                    inner = types.SimpleNamespace(resolve=bang)
                elif where == "storage":
                    inner = L.StorageLimitDistributionResolver(types.SimpleNamespace(get_data=bang))
                dm = (G.PValueDecisionMethod if method == "p" else G.CriticalValueDecisionMethod)(inner)
                if where == "decide":
                    dm = types.SimpleNamespace(decide=bang)
                o = observe(G.GoodnessOfFitTest(c()).test, [.1, .5, -1.2], .05, dm)
                ck.ev()
                ck.count("user errors")
                if o.kind != "exc" or not (o.exc is exc or o.exc.__cause__ is exc or o.exc.__context__ is exc):
                    ck.violation(f"error:{where}", f"a user {where} raised {type(exc).__name__}, the test gave {o.short()}")
                ck.nontrivial("error", where, type(exc).__name__, method)

    # --- user storages ------------------------------------------------------------------------------------------
    class Mem(ILimitDistributionStorage):
        def __init__(self):
            self.d, self.log = {}, []

        def init(self):
            self.log.append(("init",))

        def get_data(self, q):
            self.log.append(("get", q.criterion_code, tuple(q.criterion_parameters), q.sample_size, getattr(q, "monte_carlo_count", None)))
            return self.d.get((q.criterion_code, tuple(q.criterion_parameters), q.sample_size))

        def insert_data(self, m):
            self.log.append(("insert", m.criterion_code))
            self.d[(m.criterion_code, tuple(m.criterion_parameters), m.sample_size)] = m

        def delete_data(self, q):
            self.log.append(("delete", q.criterion_code))
            self.d.pop((q.criterion_code, tuple(q.criterion_parameters), q.sample_size), None)

        def get_data_for_cv(self, q):
            hit = [m for (c, _p, n), m in self.d.items() if c == q.criterion_code and abs(n - q.sample_size) <= q.sample_size_error]
            return hit[0] if hit else None

        def get_bulk_data(self, codes, n, err=0):
            from pysatl_criterion.persistence.models.limit_distribution import CriticalValueQuery as CQ
            return [m for m in (self.get_data_for_cv(CQ(c, n, err)) for c in dict.fromkeys(codes)) if m is not None]

        def insert_bulk_data(self, models):
            for m in models:
                self.insert_data(m)

    class MyModel(LM):
        pass

    def rec(code, pars, n, vals):
        return (MyModel if r.integers(0, 2) else LM)(experiment_id=int(r.integers(1, 99)), criterion_code=code, criterion_parameters=pars, sample_size=n, monte_carlo_count=len(vals), results_statistics=vals)

    for it in range(200 if not deep else 3000):
        p = {"df": float(it % 7) + .5} if it % 2 else {"a": 1.0, "zeta": -2.0, "b": float(it)}
        side = (AT.LEFT, AT.RIGHT, AT.TWO_TAILED)[it % 3]
        c, _s = mk(DT.TUKEY, fn=mean, alt=side, params=p)
        s, st = c(), Mem()
        n = int(r.integers(1, 20))
        vals = [float(t) for t in r.normal(size=int(r.integers(2, 40)))]
        pars = list(p.values())
        for code, pp, nn in ((s.code(), pars, n), (s.code(), pars, n + 1), (s.code(), pars[::-1] + [0.0], n), (s.short_code(), pars, n)):
            st.insert_data(rec(code, pp, nn, vals if (code, pp, nn) == (s.code(), pars, n) else [99.0, 98.0]))
        st.log.clear()
        x = [float(t) for t in r.normal(size=n)]
        method = "p" if it % 4 < 2 else "cv"
        dm = (G.PValueDecisionMethod if method == "p" else G.CriticalValueDecisionMethod)(L.StorageLimitDistributionResolver(st))
        o = observe(G.GoodnessOfFitTest(s).test, x, .1, dm)
        ck.count("user storages")
        case = {"params": p, "n": n, "method": method, "log": st.log}
        if o.kind != "ok":
            ck.violation("storage:error", f"test backed by a user storage: {o.short()}", case)
        elif any(e[0] != "get" for e in st.log) or {e[1:4] for e in st.log} != {(s.code(), tuple(pars), n)}:
            ck.violation("storage:calls", f"a test made the calls {st.log[:4]} on a user storage", case)
        else:
            judge(ck, "user-storage", side.value, vals, float(mean(None, x)), .1, o.value, method, case)
        if any(m.results_statistics is vals and len(vals) != m.monte_carlo_count for m in st.d.values()):
            ck.violation("storage:record-changed", "the record of a user storage was changed by a test", case)
        ck.nontrivial("storage", it, method, side.value)
        # the loader between two user storages
        loc, rem = Mem(), Mem()
        codes = [f"U{k}" for k in range(int(r.integers(1, 7)))]
        for k in codes:
            if r.integers(0, 3) == 0:
                loc.insert_data(rec(k, [1.0], 10, [1.0]))
            if r.integers(0, 2):
                rem.insert_data(rec(k, [1.0], 10, [2.0]))
        hasl, hasr = {k[0] for k in loc.d}, {k[0] for k in rem.d}
        src = dict(rem.d)
        ld = CriticalValueLoader(loc, rem)
        if it % 2:
            o = observe(ld.load_bulk, codes, 10, 0)
            want = (len(codes), len([k for k in codes if k in hasl]), len([k for k in codes if k in hasr - hasl]), [k for k in codes if k not in hasl | hasr])
            gotv = (o.value.requested_count, o.value.already_cached_count, o.value.newly_cached_count, list(o.value.not_found_codes)) if o.kind == "ok" else o.short()
        else:
            gotv, want = [], [k in hasl | hasr for k in codes]
            for k in codes:
                o = observe(ld.load, k, 10, 0)
                gotv.append(o.value if o.kind == "ok" else o.short())
        ck.ev()
        ck.count("user storage loads", len(codes))
        if gotv != want:
            ck.violation("loader:report", f"loading between user storages reported {gotv}, content gives {want}")
        elif {k[0] for k in loc.d} != hasl | hasr & set(codes) or any(loc.d[k] is not src[k] and loc.d[k] != src[k] for k in loc.d if k[0] not in hasl) or rem.d != src:
            ck.violation("loader:content", "records after loading between user storages are not those of the remote one")
        ck.nontrivial("load", tuple(sorted(hasl)), tuple(sorted(hasr)), it % 2)

    # --- user corrections ---------------------------------------------------------------------------------------
    for it in range(180 if not deep else 2000):
        got = []
        parent = (AbstractMultipleTesting, fwer.Holm, fwer.BonferroniMultipleTesting, fwer.SidakHolm, fwer.SidakMultipleTesting, fdr.BenjaminiYekutieli)[it % 6]
        shift = float(r.choice([0.0, .01, -.001, 1.5]))

        def adjust(cls, p):
            got.append((cls, list(p)))
            return [v + shift for v in p]
        C = type("UsrCorr", (parent,), {"adjust": classmethod(adjust)})
        p = [float(v) for v in r.random(int(r.integers(1, 9)))]
        th = float(r.choice([p[0], p[0] + shift, .05, .5]))
        o = observe(C.test if it % 2 else C().test, list(p), th)
        ck.ev()
        ck.count("user corrections")
        want = [v + shift for v in p]
        if o.kind != "ok" or list(o.value[1]) != want or [bool(b) for b in o.value[0]] != [v < th for v in want]:
            ck.violation("correction:result", f"{parent.__name__} with a user adjust(): {o.short()}, adjusted values are {want}, threshold {th}", {"p": p})
        if any(c is not C or q != p for c, q in got) or not got:
            ck.violation("correction:arguments", f"user adjust() was called with {got[:2]} for {p}")
        o = observe(C.test, p + [1.0000001], th)
        if o.kind == "ok":
            ck.violation("correction:validation", "a user correction accepted a p-value above 1")
        ck.nontrivial("correction", parent.__name__, shift, it % 2, len(p))
    # a non-numeric subclass of abstract correction cannot be used without adjust()
    # --- user validators and descriptors ------------------------------------------------------------------------
    class Even(Validator):
        def validate(self, value):
            return value % 2 == 0
    pd = DistributionParameterDescriptor("k", "k", validator=Even())
    for v in (-4, -3, 0, 1, 2.0, 2.5):
        ck.ev()
        ck.count("user validators")
        if bool(pd.validator(v)) != (v % 2 == 0):
            ck.violation("validator", f"a user validator says {pd.validator(v)!r} for {v}")
    if (pd.default, pd.description) != (None, None) or (pd.display_name, pd.name) != ("k", "k"):
        ck.violation("descriptor:fields", f"descriptor fields {pd!r}")

    # --- shared mixins under a user criterion ------------------------------------------------------------------
    names = [d.name for d in DT if d.name in ref_gen.SPEC]
    for it in range(400 if not deep else 6000):
        nm = names[it % len(names)]
        cdf = ref_gen.SPEC[nm][1]
        p = ref_gen.SPEC[nm][3](r)
        n = int(r.choice([1, 2, 3, 5, 10, 50, 300]))
        np.random.seed(int(r.integers(0, 2 ** 31)))
        o = observe(lambda: np.asarray(find_gen(getattr(DT, nm), p).generate(n), float))
        if o.kind != "ok":
            continue
        x = o.value
        if it % 3 == 0 and n > 2:
            x = np.round(x, 1)
        with np.errstate(all="ignore"):
            F = np.clip(np.asarray(cdf(np.sort(x), **p), float), 1e-12, 1 - 1e-12)
        at = (AT.LEFT, AT.RIGHT, AT.TWO_TAILED)[int(r.integers(0, 3))]
        todo = {
            "KS": (common.KSStatistic, lambda self, v: common.KSStatistic.do_execute_statistic(self, np.sort(v), F), lambda: E.ks(F, at)),
            "Lilliefors": (common.LillieforsTest, lambda self, v: common.LillieforsTest.do_execute_statistic(self, np.sort(v), F), lambda: E.ks(F)),
            "AD": (common.ADStatistic, lambda self, v: common.ADStatistic.do_execute_statistic(self, np.sort(v), np.log(F), np.log1p(-F)), lambda: E.ad(np.log(F), np.log1p(-F))),
            "CVM": (common.CrammerVonMisesStatistic, lambda self, v: common.CrammerVonMisesStatistic.do_execute_statistic(self, np.sort(v), F), lambda: E.cvm(F)),
            "MT": (common.MinToshiyukiStatistic, lambda self, v: common.MinToshiyukiStatistic.do_execute_statistic(self, F), lambda: E.min_toshiyuki(F, 1 - F)),
            "MT-sf": (common.MinToshiyukiStatistic, lambda self, v: common.MinToshiyukiStatistic.do_execute_statistic(self, F, 1 - F), lambda: E.min_toshiyuki(F, 1 - F)),
        }
        for k, (mix, fn, ref) in todo.items():
            extra = {"__init__": (lambda self, a=at: common.KSStatistic.__init__(self, a))} if k == "KS" else {}
            c, _s = mk(getattr(DT, nm), (mix, Base), fn=fn, alt=AT.RIGHT, extra=extra)
            if k in ("KS", "Lilliefors"):
                del c.alternative
            s = c()
            o = observe(s.execute_statistic, x)
            ck.ev()
            ck.count(f"mixin:{k}")
            w = ref()
            if o.kind != "ok" or not close(o.value, w, 1e-8, 1e-10):
                ck.violation(f"mixin:{k}", f"user {k} criterion of {nm}: {o.short()}, definition gives {w!r}", {"params": p, "x": list(x)[:60], "side": at.value})
            if k == "KS" and s.alternative().type() != at:
                ck.violation("mixin:KS:alternative", f"user KS criterion declared {at}, reports {s.alternative().type()}")
            if k == "Lilliefors" and s.alternative().type() != AT.TWO_TAILED:
                ck.violation("mixin:Lilliefors:alternative", f"user Lilliefors criterion reports {s.alternative().type()}")
            ck.nontrivial("mixin", k, nm, n, at.value)
        # chi-square family on user cells
        k = int(r.integers(2, 12))
        obs_, lam = r.integers(1, 20, k), float(r.choice([-2.0, -1.0, -.5, 0.0, 2 / 3, 1.0, 3.0]))
        exp_ = r.random(k) + .1
        exp_ = exp_ / exp_.sum() * obs_.sum()
        if lam == 0:
            w = 2 * math.fsum(a * math.log(a / b) for a, b in zip(obs_, exp_))
        elif lam == -1:
            w = 2 * math.fsum(b * math.log(b / a) for a, b in zip(obs_, exp_))
        else:
            w = 2 / (lam * (lam + 1)) * math.fsum(a * ((a / b) ** lam - 1) for a, b in zip(obs_, exp_))
        c, _s = mk(DT.LAPLACE, (common.Chi2Statistic, Base), fn=lambda self, v: common.Chi2Statistic.do_execute_statistic(self, obs_.tolist() if it % 2 else obs_, exp_, lam), alt=AT.RIGHT)
        o = observe(c().execute_statistic, [0.0])
        ck.ev()
        ck.count("mixin:chi2")
        if o.kind != "ok" or not close(o.value, w, 1e-8, 1e-9):
            ck.violation("mixin:chi2", f"user power-divergence criterion, lambda {lam}: {o.short()}, definition gives {w!r}", {"obs": obs_.tolist(), "exp": exp_.tolist()})
        # graph criteria with a user threshold or a user graph functional
        n = int(r.integers(2, 14))
        y = [float(t) for t in r.integers(0, 12, n)] if it % 2 else [float(t) for t in r.normal(size=n)]
        thr = float(r.choice([.5, 1.0, 2.0, 3.3]))
        adj = [[j for j in range(n) if j != i and abs(y[i] - y[j]) < thr] for i in range(n)]
        for nmg, ref in (("GraphEdgesNumberTestStatistic", lambda a: sum(map(len, a)) / 2), ("GraphMaxDegreeTestStatistic", lambda a: max(map(len, a))), (None, lambda a: sum(len(t) ** 2 for t in a))):
            b = getattr(gg, nmg) if nmg else gg.AbstractGraphTestStatistic
            serial[0] += 1
            ns = {"_compute_dist": staticmethod(lambda rvs: thr), "code": staticmethod(lambda: "G"), "distribution": staticmethod(lambda: DT.LAPLACE), "hypothesis": lambda self: H(None),
                  "alternative": lambda self: Alternative.get_alternative(AT.RIGHT), "short_code": staticmethod(lambda: f"GR{serial[0]}")}
            if nmg is None:
                ns["get_graph_stat"] = staticmethod(lambda graph: sum(len(t) ** 2 for t in graph))
            c = types.new_class("UsrGraph", (b,), {}, lambda d_: d_.update(ns))
            o = observe(lambda: c().execute_statistic(np.array(y) if it % 3 else list(y)))
            ck.ev()
            ck.count("mixin:graph")
            if o.kind != "ok" or not close(o.value, ref(adj), 1e-12, 1e-12):
                ck.violation(f"mixin:graph:{nmg or 'user functional'}", f"user graph criterion with threshold {thr}: {o.short()}, graph gives {ref(adj)}", {"y": y})
    gc.collect()
    o = observe(find_crit, DT.NORMAL)
    if o.kind != "ok" or not set(expected[DT.NORMAL]) <= set(o.value):
        ck.violation("discovery:end", f"after the run get_available_criteria(NORMAL) gives {o.short()}")
    for k, m in (("discovery audits", 40), ("simulated observations", 10000), ("tests:p:left", 15), ("tests:cv:two_tailed", 15), ("user decision methods", 40), ("user errors", 80),
                 ("user storages", 40), ("user storage loads", 60), ("user corrections", 40), ("mixin:KS", 80), ("mixin:chi2", 80), ("mixin:graph", 200)):
        ck.need(k, m)


def concrete_normal(g):
    return g.KolmogorovSmirnovNormalityGofStatistic(mean=0, var=1)
