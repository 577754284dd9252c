"""C09: criterion values do not depend on the order of the observations."""
import numpy as np
from pv import catalog as C
from pv.core import close, parallel
from pv.meta import tasks, cases, value, call_options
RULE = ("every criterion class (195) x constructor variants and random null parameters x sample sizes x sample shapes x permutations (ascending, descending, "
        "random, rotations, an extreme moved to the front or the back); evaluation = one permuted execution compared with the ascending one; "
        "non-trivial = permutation that differs from the reference order")
ASSUMPTIONS = ["the marks of the censored Stein criterion are permuted together with the observations"]


def orders(x, rng, k):
    y = np.sort(x)
    n = len(y)
    yield "descending", y[::-1]
    for _ in range(k):
        yield "random", rng.permutation(y)
    yield "rotated", np.roll(y, int(rng.integers(1, n)))
    yield "max-first", np.concatenate([y[-1:], y[:-1]])
    yield "min-last", np.concatenate([y[1:], y[:1]])
    z = y.copy()
    i, j = rng.choice(n, 2, replace=False)
    z[[i, j]] = z[[j, i]]
    yield "swap", z
    o = np.arange(n)
    yield "odd-even", np.concatenate([y[o % 2 == 0], y[o % 2 == 1]])


def run(ck):
    sizes = [4, 5, 7, 12, 31] if not ck.thorough else [4, 5, 6, 7, 8, 9, 11, 12, 16, 25, 31, 60, 111]
    reps = 1 if not ck.thorough else 4

    def worker(sub, task):
        name = task[0]
        for cls, fam, kw, kind, x, rng in cases(sub, task):
            opts = call_options(name)
            call = opts[int(rng.integers(len(opts)))]
            ref = value(name, cls, kw, np.sort(x), call)
            for how, y in orders(x, rng, 2):
                o = value(name, cls, kw, np.ascontiguousarray(y), call)
                sub.ev()
                sub.count(f"executions:{C.short(name)}")
                if np.any(y != np.sort(x)):
                    sub.nontrivial(name, kind, len(x), how, float(y[0]), float(y[-1]))
                same = o.kind == ref.kind and (o.kind != "ok" and type(o.exc) is type(ref.exc) or o.kind == "ok" and close(o.value, ref.value, 1e-6, 1e-8))
                case = {"class": name, "kwargs": kw, "call": call, "sample": y, "got": o.short(), "sorted-sample": ref.short()}
                sub.sample(name, case)
                if not same:
                    # a value that rounding alone can move this much is not evidence
                    if ref.kind == "ok" and o.kind == "ok":
                        p = value(name, cls, kw, np.sort(x) * (1 + 1e-15 * rng.standard_normal(len(x))), call)
                        if p.kind == "ok" and not close(p.value, ref.value, 1e-7, 1e-9):
                            sub.count("ill-conditioned")
                            continue
                    sub.violation(f"{name}:order", f"n={len(x)} {kind} {kw} {call}: {how} order gives {o.short()}, ascending order gives {ref.short()}", case)
        if name == "CensoredSteinUniformGofStatistic":
            rng = sub.rng("marks", *task)
            cls = C.classes()[name]
            x = rng.uniform(size=task[1])
            m = (rng.uniform(size=task[1]) < .4).astype(int)
            ref = value(name, cls, {}, x, dict(censoring_indices=m))
            for _ in range(4):
                p = rng.permutation(task[1])
                o = value(name, cls, {}, x[p], dict(censoring_indices=m[p]))
                sub.ev()
                if o.kind != "ok" or not close(o.value, ref.value, 1e-6, 1e-8):
                    sub.violation(f"{name}:order-with-marks", f"{o.short()} vs {ref.short()}", {"sample": x, "marks": m, "permutation": p})
    parallel(ck, tasks(sizes, reps, big=(260, 1030, 5003) if not ck.thorough else (203, 260, 513, 1030, 2051, 5003)), worker)
    for n in C.classes():
        ck.need(f"executions:{C.short(n)}", 20)
