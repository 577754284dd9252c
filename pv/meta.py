"""Shared workload of the metamorphic checks: every criterion class x constructor variants x sizes x sample shapes."""
import numpy as np
from pv import catalog as C
from pv.core import observe, parallel
from pv.formula import shaped, random_kw, ALLKINDS


def call_options(name):
    """Extra keyword arguments of execute_statistic worth varying (valid ones)."""
    out = [{}]
    for key, opts in (("Atkinson", [dict(p=.5), dict(p=2)]), ("Deshpande", [dict(b=.2), dict(b=.9)]), ("Lorenz", [dict(p=.25), dict(p=.8)]),
                      ("Gnedenko", [dict(r=2)]), ("Harris", [dict(r=2)]), ("EntropyBeta", [dict(m=2)]), ("KullbackLeiblerWeibull", [dict(m=2)]),
                      ("LaplaceTransform", [dict(m=20)])):
        if name.startswith(key) and not (key == "Gnedenko" and False):
            out += opts
    return out


SLOW = {"Graph": 2100, "BHS": 2100, "Deshpande": 1100, "Stein": 520, "CensoredStein": 260, "EppsPulley": 2100}


def tasks(sizes, reps, cap=None, big=()):
    have = C.classes()
    out = []
    for name, cls in have.items():
        lo, hi = C.nmin(name), min(C.nmax(name), (cap or {}).get(name, 10 ** 6))
        for n in sorted({min(max(n, lo), hi) for n in sizes}, reverse=True):
            for rep in range(reps):
                out.append((name, n, rep))
        hi = min([hi] + [v for k, v in SLOW.items() if name.startswith(k)])
        out += [(name, n, 0) for n in big if n <= hi]
    out.sort(key=lambda t: -t[1])
    return out


def cases(sub, task, kinds=ALLKINDS, per_kind=1):
    """(kw, kind, sample) of one task; constructor options and null parameters rotate over the kinds."""
    name, n, rep = task
    cls = C.classes()[name]
    fam = C.family(cls)
    rng = sub.rng(*task)
    vs = C.variants(name, fam)
    off = int(rng.integers(len(vs)))
    i = 0
    if n > 200:
        kinds = [kinds[int(j)] for j in rng.choice(len(kinds), 2, replace=False)]
    for kind in kinds:
        for _ in range(per_kind):
            kw = vs[(i + off) % len(vs)]
            i += 1
            if rng.uniform() < .4 and not name.startswith("RyanJoiner"):
                opts = {k: v for k, v in kw.items() if k not in C.PARAMS[fam][0]}
                kw = {**opts, **random_kw(name, fam, rng)}
            x = shaped(fam, kw, n, rng, kind)
            if np.ptp(x) == 0 or len(set(x.tolist())) < 3:
                continue
            yield cls, fam, kw, kind, x, rng


def value(name, cls, kw, x, call=None, cpu=60):
    o = observe(lambda: cls(**kw).execute_statistic(x, **(call or {})), cpu=cpu)
    return o
