"""C38: copies, pickles and other processes behave as the original object."""
import copy
import json
import math
import os
import pickle
import subprocess
import sys
import numpy as np
from pv import catalog as C
from pv.core import observe, parallel
from pv.formula import random_kw, shaped
from pv.meta import call_options

RULE = ("every criterion class x options and random parameters, every generator and descriptor class, test, resolver, decision, record, query and result objects, fresh and after use: "
        "shallow copies, deep copies, pickles of every protocol (also loaded in freshly spawned interpreters) against the original: type, code, hypothesis, alternative, parameters and "
        "bit-equal values on the same data; changing the copy must not change the original; evaluation = one copy judged; non-trivial = distinct (class, parameters, way)")
ASSUMPTIONS = ["statistics are compared bit for bit within one machine", "two objects of the same generator draw the same sample from the same seed"]
WAYS = [("copy", copy.copy), ("deepcopy", copy.deepcopy)] + [(f"pickle{p}", lambda o, p=p: pickle.loads(pickle.dumps(o, p))) for p in range(2, pickle.HIGHEST_PROTOCOL + 1)]


def bits(v):
    return repr(v) if not isinstance(v, (float, np.floating)) else float(v).hex()


def same(a, b):
    return a.kind == b.kind and (bits(a.value) == bits(b.value) if a.kind == "ok" else type(a.exc) is type(b.exc) and str(a.exc) == str(b.exc))


def face(s):
    return repr((type(s).__module__, type(s).__qualname__, s.code(), s.short_code(), type(s.alternative()).__name__, s.hypothesis().params, s.hypothesis().parameters(), s.distribution()))


CHILD = """
import sys, json, pickle, warnings
warnings.simplefilter("ignore")
out = []
for s, xs, calls in pickle.load(open(sys.argv[1], "rb")):
    s = pickle.loads(s)
    row = [repr((type(s).__module__, type(s).__qualname__, s.code(), s.short_code(), type(s.alternative()).__name__, s.hypothesis().params, s.hypothesis().parameters(), s.distribution()))]
    for x, c in zip(xs, calls):
        try:
            row.append(float(s.execute_statistic(x, **c)).hex())
        except Exception as e:
            row.append(type(e).__name__)
    out.append(row)
json.dump(out, sys.stdout)
"""


def criteria(ck):
    have = C.classes()

    def worker(sub, task):
        fam, names = task
        batch, expect = [], []
        for name in names:
            cls = have[name]
            r = sub.rng(name)
            vs = C.variants(name, fam)
            kws = [vs[int(i)] for i in r.choice(len(vs), min(3, len(vs)), replace=False)]
            kws += [{**{k: v for k, v in vs[int(r.integers(len(vs)))].items() if k not in C.PARAMS[fam][0]}, **random_kw(name, fam, r)} for _ in range(3 if not sub.thorough else 25)]
            for kw in kws:
                o = observe(lambda: cls(**kw))
                if o.kind != "ok":
                    continue
                s = o.value
                n = int(r.integers(C.nmin(name) + 1, 30 if C.nmax(name) > 40 else 11))
                xs = [shaped(fam, kw, n, r, k) for k in ("null", "low", "edge")]
                opts = call_options(name)
                calls = [opts[int(r.integers(len(opts)))] for _ in xs]
                used = r.uniform() < .5
                if used:
                    observe(s.execute_statistic, xs[2])
                f0 = face(s)
                copies = []
                for way, fn in WAYS:
                    c = observe(fn, s)
                    sub.ev()
                    sub.count(f"way:{way}")
                    sub.nontrivial(name, str(sorted(map(str, kw.items()))), way, used)
                    if c.kind != "ok":
                        sub.violation(f"{name}:{way}:fails", f"{way} of {name}({kw}) {'after use' if used else 'fresh'}: {c.short()}", {"class": name, "kwargs": kw})
                        continue
                    copies.append((way, c.value))
                want = [observe(s.execute_statistic, x, **c) for x, c in zip(xs, calls)]
                for way, c in copies:
                    g = observe(face, c)
                    if g.kind != "ok" or g.value != f0:
                        sub.violation(f"{name}:{way}:identity", f"{way} of {name}({kw}) declares {g.short()} instead of {f0}", {"class": name, "kwargs": kw})
                        continue
                    for x, call, w in zip(xs, calls, want):
                        g = observe(c.execute_statistic, x, **call)
                        if not same(g, w):
                            sub.violation(f"{name}:{way}:value", f"{way} of {name}({kw}) gives {g.short()}, the original {w.short()}", {"class": name, "kwargs": kw, "sample": x, "call": call})
                            break
                # a changed copy leaves the original alone
                for way, c in copies[:3]:
                    p = c.hypothesis().params
                    if isinstance(p, dict):
                        for k in p:
                            p[k] = 77.25
                    for k, v in list(vars(c).items()):
                        if isinstance(v, (int, float)):
                            setattr(c, k, 3.5)
                        elif way != "copy" and isinstance(v, (list, np.ndarray)) and len(v):
                            v[0] = 3.5
                    g = observe(face, s)
                    if way == "copy":
                        continue
                    if g.kind != "ok" or g.value != f0 or not all(same(observe(s.execute_statistic, x, **cc), w) for x, cc, w in zip(xs, calls, want)):
                        sub.violation(f"{name}:{way}:shares-state", f"changing a {way} of {name}({kw}) changes the original", {"class": name, "kwargs": kw})
                p = observe(pickle.dumps, cls(**kw) if not used else copies[-1][1] if False else cls(**kw))
                if p.kind == "ok":
                    batch.append((p.value, xs, calls))
                    expect.append((name, kw, [f0] + [float(w.value).hex() if w.kind == "ok" else type(w.exc).__name__ for w in want]))
                sub.sample(fam, {"class": name, "kwargs": kw, "used": used, "ways": [w for w, _ in copies]})
        import tempfile
        import shutil
        d = tempfile.mkdtemp(prefix="pv38-")
        try:
            with open(os.path.join(d, "in"), "wb") as f:
                pickle.dump(batch, f)
            e = dict(os.environ, PYTHONPATH="/repo/src", PYTHONDONTWRITEBYTECODE="1")
            p = subprocess.run([sys.executable, "-c", CHILD, os.path.join(d, "in")], capture_output=True, text=True, env=e, cwd=d, timeout=800)
            if p.returncode:
                sub.violation(f"{fam}:other-process", f"a fresh interpreter cannot use pickled {fam} criteria: {p.stderr.strip().splitlines()[-1:]}", {"stderr": p.stderr[-1500:]})
                return
            for (name, kw, want), got in zip(expect, json.loads(p.stdout)):
                sub.ev()
                sub.count("values from fresh interpreters", len(got) - 1)
                if got != want:
                    sub.violation(f"{name}:other-process", f"{name}({kw}) pickled into a fresh interpreter gives {got}, here {want}", {"class": name, "kwargs": kw})
        finally:
            shutil.rmtree(d, ignore_errors=True)
    groups = {}
    for name, cls in have.items():
        groups.setdefault(C.family(cls), []).append(name)
    parallel(ck, [(f, ns[i::4]) for f, ns in groups.items() for i in range(4) if ns[i::4]], worker)


def others(ck):
    import inspect
    import pysatl_criterion.generator.generators as gg
    from pysatl_criterion.distribution import distributions as dd
    from pysatl_criterion.generator.model import AbstractRVSGenerator
    from pysatl_criterion.distribution.distributions import DistributionDescriptor
    r = ck.rng("others")

    def judge(kind, make, view, label):
        a = make()
        want = view(a)
        for way, fn in WAYS:
            c = observe(fn, a)
            ck.ev()
            ck.count(f"{kind}:{way}")
            ck.nontrivial(kind, label, way)
            g = observe(view, c.value) if c.kind == "ok" else c
            if g.kind != "ok" or g.value != want:
                ck.violation(f"{kind}:{label}:{way}", f"{way} of {label}: {g.short()}, original {want[:300]}", {"label": label})
        if view(a) != want:
            ck.violation(f"{kind}:{label}:changed", f"copying {label} changed it", {"label": label})
    desc = {}
    for n, c in vars(dd).items():
        if inspect.isclass(c) and issubclass(c, DistributionDescriptor) and not inspect.isabstract(c):
            desc[n] = c

    def pview(p):
        return [sorted((k, v if not callable(v) else [type(v).__qualname__] + [repr(observe(v, t).value) for t in (-1.0, 0.0, .5, 1.5, math.inf, math.nan)])
                       for k, v in vars(p).items())]

    def dview(d):
        return repr((type(d).__qualname__, d.type(), [pview(p) for p in (d.params if hasattr(d, "params") else d.parameters())]))
    for n, c in desc.items():
        judge("descriptor", c, dview, n)
        for i, p in enumerate(c().parameters()):
            judge("parameter", lambda p=p: p, lambda p: repr(pview(p)), f"{n}[{i}]")
    for n, c in vars(gg).items():
        if not (inspect.isclass(c) and issubclass(c, AbstractRVSGenerator) and not inspect.isabstract(c)):
            continue
        o = observe(c)
        sig = inspect.signature(c.__init__).parameters
        need = {k: 1.5 for k, p in sig.items() if k != "self" and p.default is p.empty and p.kind == p.POSITIONAL_OR_KEYWORD}
        need.update({k: v for k, v in dict(a=-.5, b=2.5, p=.25, lam=.5).items() if k in need})
        make = (lambda c=c, need=need: c(**need))
        if observe(make).kind != "ok":
            continue

        def gview(g):
            np.random.seed(7)
            return repr((type(g).__qualname__, g.code(), list(np.asarray(g.generate(5), float)), sorted(vars(g).items(), key=str), g.parameters()))
        if observe(gview, make()).kind != "ok":
            def gview(g):  # noqa: F811
                np.random.seed(7)
                return repr((type(g).__qualname__, g.code(), list(np.asarray(g.generate(5), float))))
        if observe(gview, make()).kind == "ok":
            judge("generator", make, gview, n)
    from pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test import CriticalValueDecisionMethod, GoodnessOfFitTest, PValueDecisionMethod
    from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver
    from pysatl_criterion.hypothesis_testing.model import TestResult
    from pysatl_criterion.persistence.models.limit_distribution import BulkLoadResult, CriticalValueQuery, LimitDistributionModel, LimitDistributionQuery
    have = C.classes()
    for name in ("KolmogorovSmirnovNormalityGofStatistic", "LillieforsNormalityGofStatistic", "AtkinsonExponentialityGofStatistic", "KolmogorovSmirnovUniformGofStatistic",
                 "KuiperStudentGofStatistic", "AndersonDarlingGammaGofStatistic", "WatsonWeibullGofStatistic"):
        if name not in have:
            continue
        cls = have[name]
        fam = C.family(cls)
        x = C.sample(fam, C.PARAMS[fam][1], 12, r, "null").tolist()
        for M in (PValueDecisionMethod, CriticalValueDecisionMethod):
            def make(cls=cls, fam=fam, M=M):
                kw = {} if name.startswith("RyanJoiner") else C.PARAMS[fam][1]
                return GoodnessOfFitTest(cls(**kw)), M(MonteCarloLimitDistributionResolver(31))

            def tview(tm, x=x):
                np.random.seed(5)
                return repr(tm[0].test(x, .1, tm[1]))
            if observe(lambda: tview(make())).kind == "ok":
                judge("test", make, tview, f"{name}:{M.__name__}")
    objs = [TestResult(statistic=.5, p_value=.25, critical_value=None, rejected=False, significance_level=.05),
            TestResult(statistic=.5, p_value=None, critical_value=(1.0, 2.5), rejected=True, significance_level=.1), BulkLoadResult(3, 1, 1, ["a"]),
            CriticalValueQuery("A", 10, 2), LimitDistributionQuery(criterion_code="A", criterion_parameters=[1.0, 2.5], sample_size=10),
            LimitDistributionModel(experiment_id=3, criterion_code="A", criterion_parameters=[.5], sample_size=9, monte_carlo_count=3, results_statistics=[1.0, 2.5, float("inf")])]
    for o in objs:
        judge("value-object", lambda o=o: o, repr, type(o).__name__)
        c = copy.deepcopy(o)
        ck.ev()
        if not c == o:
            ck.violation(f"value-object:{type(o).__name__}:equality", f"a deep copy of {o!r} is not equal to it", {})
    from pysatl_criterion.statistics.alternative import AlternativeType
    from pysatl_criterion.distribution.distribution_type import DistributionType
    for e in list(AlternativeType) + list(DistributionType):
        for way, fn in WAYS:
            ck.ev()
            if observe(fn, e).value is not e:
                ck.violation(f"enum:{way}", f"{way} of {e!r} is another object", {})


def run(ck):
    criteria(ck)
    others(ck)
    ck.need("way:deepcopy", 400)
    ck.need("values from fresh interpreters", 1000)
    ck.need("generator:deepcopy", 15)
    ck.need("descriptor:deepcopy", 15)
    ck.need("test:deepcopy", 8)
