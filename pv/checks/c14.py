"""C14: unique codes, complete registry, hypothesis = constructor parameters."""
import inspect
import itertools
import json
import os
import subprocess
import sys
import numpy as np
from pv import catalog as C
from pv.core import observe
from pv.formula import random_kw
from pysatl_criterion import DistributionType
from pysatl_criterion.utils.statistic import get_available_criteria

RULE = ("every concrete criterion class, its codes before and after executions, all pairs of classes for collisions, every distribution type against the registry, several "
        "import orders in fresh interpreters, and hypotheses of default, fixed and random parameterisations compared pairwise; evaluation = one identity fact observed; "
        "non-trivial = distinct (class, parameterisation) or (import order)")
ASSUMPTIONS = ["which family a criterion belongs to is read off its public class name", "constructor parameters that are options of the statistic are not null parameters"]
NAMES = {"Normality": "normal", "Exponentiality": "exponent", "Weibull": "weibull", "Uniform": "uniform", "Student": "student", "Gamma": "gamma", "Beta": "beta",
         "LogNormal": "log_normal"}
MODULES = ["beta", "exponent", "gamma", "graph_goodness_of_fit", "log_normal", "normal", "student", "uniform", "weibull", "common"]
PROG = """
import importlib, json, sys
for m in sys.argv[1].split(','):
    importlib.import_module(m)
from pysatl_criterion import DistributionType
from pysatl_criterion.utils.statistic import get_available_criteria
print(json.dumps({d.name: sorted(get_available_criteria(d)) for d in DistributionType}))
"""


def fam_by_name(name):
    hits = [v for k, v in NAMES.items() if k in name]
    if "log_normal" in hits:
        hits = ["log_normal"]
    return hits[0] if len(hits) == 1 else None


def want_params(name, fam, kw):
    d = dict(C.PARAMS[fam][0])
    for k, p in inspect.signature(C.classes()[name].__init__).parameters.items():
        if k in d and p.default is not inspect.Parameter.empty:
            d[k] = p.default
    return [kw.get(k, v) for k, v in d.items()]


def registry(mods):
    env = dict(os.environ)
    r = subprocess.run([sys.executable, "-c", PROG, ",".join(mods)], capture_output=True, text=True, env=env, timeout=300)
    return r


def run(ck):
    have = C.classes()
    by_code, by_short, dist_of = {}, {}, {}
    for name, cls in have.items():
        fam = fam_by_name(name)
        code, sc, dist = observe(cls.code), observe(cls.short_code), observe(cls.distribution)
        ck.ev(3)
        for what, o, t in (("code", code, str), ("short_code", sc, str), ("distribution", dist, DistributionType)):
            if o.kind != "ok" or not isinstance(o.value, t) or o.value == "":
                ck.violation(f"{name}:{what}", f"{name}.{what}() -> {o.short()}", {"class": name})
        if "ok" != code.kind or "ok" != sc.kind or "ok" != dist.kind:
            continue
        by_code.setdefault(code.value, []).append(name)
        by_short.setdefault((dist.value, sc.value), []).append(name)
        dist_of[name] = dist.value
        if fam is not None and C.family(cls) != fam:
            ck.violation(f"{name}:distribution", f"{name} declares {dist.value}", {"class": name})
        ck.count("classes")
        ck.sample("class", {"class": name, "code": code.value, "short_code": sc.value, "distribution": str(dist.value)})
    # collisions (keys name the classes, so a new pair is a new finding)
    for code, names in by_code.items():
        for a, b in itertools.combinations(sorted(names), 2):
            ck.violation(f"same-code:{a}+{b}", f"{a} and {b} share the code {code}", {"classes": [a, b], "code": code})
    for (d, sc), names in by_short.items():
        for a, b in itertools.combinations(sorted(names), 2):
            ck.violation(f"same-short-code:{a}+{b}", f"{a} and {b} share the short code {sc} for {d}", {"classes": [a, b], "code": sc})
    ck.count("pairs-compared", len(have) * (len(have) - 1) // 2)
    # registry
    here = {}
    for d in DistributionType:
        got = observe(get_available_criteria, d)
        ck.ev()
        if got.kind != "ok":
            ck.violation(f"registry-raised:{d.name}", f"get_available_criteria({d}) -> {got.short()}", None)
            continue
        mine = got.value
        if isinstance(mine, list):      # what a caller does with the list it got stays with the caller
            mine = list(mine)
            got.value.append("SPOILED")
            got.value.reverse()
            del got.value[1:3]
            again = observe(get_available_criteria, d)
            if again.kind != "ok" or sorted(again.value) != sorted(mine):
                ck.violation(f"registry:spoiled:{d.name}", f"after a caller changed its list, get_available_criteria({d}) gives {again.short()[:200]}", None)
            got.value[:] = mine
        want = sorted(have[n].short_code() for n, v in dist_of.items() if v == d)
        here[d.name] = sorted(got.value)
        if sorted(got.value) != want:
            miss = [x for x in want if x not in got.value]
            extra = [x for x in got.value if x not in want]
            ck.violation(f"registry:{d.name}", f"{d}: missing {miss[:5]}, unexpected {extra[:5]}, {len(got.value)} of {len(want)}", {"got": got.value, "want": want})
        ck.count("registry-queries")
        for n, v in dist_of.items():  # by name: the class is offered for the distribution its name states, not another
            f = fam_by_name(n)
            if v == d and f and C.DIST.get(d.name) and have[n].short_code() not in got.value:
                ck.violation(f"{n}:not-discoverable", f"{n} is not in get_available_criteria({d})", None)
    # import orders
    base = "pysatl_criterion.statistics.goodness_of_fit."
    rng = ck.rng("imports")
    orders = [["pysatl_criterion"], ["pysatl_criterion.utils.statistic"], ["pysatl_criterion.hypothesis_testing"], ["pysatl_criterion.generator.generators"]]
    for _ in range(3 if not ck.thorough else 12):
        k = int(rng.integers(1, len(MODULES) + 1))
        orders.append([base + MODULES[i] for i in rng.permutation(len(MODULES))[:k]])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for mods, r in zip(orders, ex.map(registry, orders)):
            ck.ev()
            ck.count("import-orders")
            ck.nontrivial("imports", tuple(mods))
            if r.returncode != 0:
                ck.violation("import-order:raised", f"importing {mods}: {r.stderr.strip().splitlines()[-1:] }", {"order": mods, "stderr": r.stderr[-2000:]})
            elif json.loads(r.stdout) != here:
                got = json.loads(r.stdout)
                diff = {k: (len(got.get(k, [])), len(here[k])) for k in here if got.get(k) != here[k]}
                ck.violation("import-order:registry-differs", f"after importing {mods} the registry differs (found, expected): {diff}", {"order": mods, "diff": diff})
            else:
                ck.sample("import-order", {"order": mods, "criteria": {k: len(v) for k, v in here.items() if v}})
    # the hypothesis object itself: names and values as given, in the order given
    from pysatl_criterion.statistics.hypothesis import GoodnessOfFitHypothesis
    rng = ck.rng("hypothesis")
    words = ["mean", "var", "a", "b", "loc", "scale", "s", "Z", "alpha", "df", "lam", "_x", "k2", "k10"]
    for j in range(60 if not ck.thorough else 1500):
        d = {words[int(i)]: [float(rng.normal()), int(rng.integers(-3, 9)), 0.0, True, float("inf")][int(rng.integers(5))] for i in rng.permutation(len(words))[:int(rng.integers(0, 7))]}
        h = GoodnessOfFitHypothesis(dict(d))
        ck.ev()
        ck.count("hypothesis-objects")
        for _ in range(2):
            o = observe(h.parameters)
            if o.kind != "ok" or type(o.value) is not list or len(o.value) != len(d) or any(a is not b and (a != b or type(a) is not type(b)) for a, b in zip(o.value, d.values())):
                ck.violation("hypothesis:order", f"GoodnessOfFitHypothesis({d}).parameters() gives {o.short()}", {"params": {k: repr(v) for k, v in d.items()}})
            if o.kind == "ok" and isinstance(o.value, list):
                o.value.append(-1)      # belongs to the caller
        if h.params != d:
            ck.violation("hypothesis:params", f"GoodnessOfFitHypothesis({d}).params is {h.params}", None)
    o = observe(lambda: GoodnessOfFitHypothesis(None).parameters())
    if o.kind != "ok" or list(o.value) != []:
        ck.violation("hypothesis:none", f"GoodnessOfFitHypothesis(None).parameters(): {o.short()}", None)
    # hypotheses
    for name, cls in have.items():
        fam = C.family(cls)
        rng = ck.rng(name)
        seen = {}
        kws = [{}] + C.variants(name, fam)
        if not name.startswith("RyanJoiner"):
            kws += [random_kw(name, fam, rng) for _ in range(4 if not ck.thorough else 40)]
        if name.startswith("RyanJoiner") and fam == "normal" or name == "LillieforsStudentGofStatistic":
            swap = []
        else:
            k0 = list(C.PARAMS[fam][0])
            one = random_kw(name, fam, rng)
            swap = [{k0[0]: one[k0[0]]}] if fam != "uniform" else [{"a": -1.5}]  # a single parameter, the others default
            swap += [dict(reversed(list(kw.items()))) for kw in kws[1:4]]        # keyword order must not matter
        code0, short0 = cls.code(), cls.short_code()
        for kw in kws + swap:
            o = observe(lambda: cls(**kw))
            if o.kind != "ok":
                ck.violation(f"{name}:constructor", f"{name}({kw}): {o.short()}", {"kwargs": kw})
                continue
            s = o.value
            h1, h2 = observe(lambda: s.hypothesis().parameters()), observe(lambda: s.hypothesis())
            ck.ev()
            ck.count("hypotheses")
            ck.nontrivial(name, str(sorted(map(str, kw.items()))))
            want = want_params(name, fam, kw)
            case = {"class": name, "kwargs": kw, "want": want, "got": h1.short()}
            if h1.kind != "ok" or h2.kind != "ok":
                ck.violation(f"{name}:hypothesis-raised", f"{name}({kw}).hypothesis(): {h1.short()}", case)
                continue
            if list(h1.value) != want:
                ck.violation(f"{name}:hypothesis-parameters", f"{name}({kw}) reports {h1.value}, constructed with {want}", case)
            names = list(h2.value.params or {})
            if seen and seen["names"] != names:
                ck.violation(f"{name}:parameter-order", f"{name}({kw}) names {names}, before {seen['names']}", case)
            seen["names"] = names
            # tampering with a returned hypothesis and executing must not change what is reported next
            try:
                h2.value.params.clear()
            except Exception:
                pass
            if "bins" not in kw and rng.uniform() < (.3 if not ck.thorough else 1):
                x = C.sample(fam, kw, max(C.nmin(name), 12), rng)
                observe(s.execute_statistic, x)
                ck.count("reported-after-execution")
            again = observe(lambda: s.hypothesis().parameters())
            if again.kind != "ok" or list(again.value) != list(h1.value):
                ck.violation(f"{name}:hypothesis-unstable", f"{name}({kw}) reports {h1.value}, later {again.short()}", case)
            if s.code() != code0 or s.short_code() != short0 or s.distribution() != dist_of[name]:
                ck.violation(f"{name}:code-unstable", f"{name}({kw}): {s.code()} / {s.short_code()}", case)
        cls_names = seen.get("names")
        ck.count(f"names:{fam}:{'/'.join(cls_names or [])}")
    for fam in C.FAMILIES:
        forms = [k for k in ck.counters if k.startswith(f"names:{fam}:")]
        if len(forms) > 1:
            ck.violation(f"{fam}:parameter-names-differ", f"criteria of {fam} report {forms}", {"forms": forms})
    ck.need("classes", 190)
    ck.need("hypotheses", 1000)
    ck.need("import-orders", 5)
    ck.need("registry-queries", 20)
