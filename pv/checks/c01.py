"""C01: EDF criteria vs the distance computed from the step function and the SciPy null."""
import numpy as np
from pv import catalog as C
from pv import ref_edf
from pv.core import parallel
from pv.formula import run_family, judge, random_kw, shaped, BIG
from pv.ref_edf import REFS, TOL
RULE = ("45 EDF criteria of all eight families x constructor variants (default, non-default, random null parameters, both one-sided KS) x "
        "sample sizes 4..220 x sample shapes (null, five alternatives, ties, repeated values, extreme quantiles; bounded distances also with infinite observations); evaluation = one execution "
        "compared with the distance computed from the empirical step function and SciPy's distribution functions; non-trivial = non-constant sample")
ASSUMPTIONS = ["SciPy's distribution functions are right", "Weibull null = exponentiated Weibull with exponent a and shape c=k, as the project declares"]


def run(ck):
    sizes = [2, 4, 5, 7, 10, 11, 25, 26, 51, 120] if not ck.thorough else [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 20, 24, 25, 26, 27, 33, 50, 51, 52, 75, 99, 100, 101, 150, 220, 500]
    run_family(ck, REFS, sizes, reps=1 if not ck.thorough else 6, tol=TOL, big=BIG)
    # an infinite observation (an overflowed measurement) is an observation: the bounded distances are defined there
    bounded = [n for n, f in REFS.items() if f in (ref_edf.r_ks, ref_edf.r_cvm, ref_edf.r_watson, ref_edf.r_kuiper)
               and n in C.classes() and C.family(C.classes()[n]) not in ("uniform", "beta")]

    def worker(sub, task):
        name, n, rep = task
        fam = C.family(C.classes()[name])
        rng = sub.rng("infinite", *task)
        vs = C.variants(name, fam)
        for j in range(4):
            kw = vs[int(rng.integers(len(vs)))]
            if j % 2:
                kw = {**{k: v for k, v in kw.items() if k not in C.PARAMS[fam][0]}, **random_kw(name, fam, rng)}
            x = shaped(fam, kw, n, rng, "null")
            k = min(n, int(rng.choice([1, 2, 1 + n // 3, n])))
            at = rng.permutation(n)[:k]
            x[at] = np.where(rng.uniform(size=k) < .5, -np.inf, np.inf) if fam in ("normal", "student") else np.inf
            judge(sub, name, kw, x, REFS[name], {}, *TOL.get(name, (1e-7, 1e-9)), tag=":infinite")
            sub.count(f"infinite:{C.short(name)}")
    parallel(ck, [(name, n, rep) for name in bounded for n in (4, 9, 30, 130) for rep in range(1 if not ck.thorough else 6)], worker)
    for n in bounded:
        ck.need(f"infinite:{C.short(n)}", 8)
