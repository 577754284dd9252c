"""C11: the same numbers in another container or numeric type give the same value."""
import array
import collections
import numpy as np
from pv import catalog as C
from pv.core import close, parallel
from pv.meta import tasks, cases, value
RULE = ("every criterion class (195) x constructor variants x sizes x shapes x containers (list, tuple, list of numpy scalars, array with stride, negative stride, "
        "column of a matrix, read-only, Fortran layout, big-endian, subclass of ndarray) and, for integer-valued samples, Python ints and signed and unsigned integer arrays "
        "of 8 to 64 bits; evaluation = one execution compared with the contiguous float64 array; non-trivial = distinct (class, container, sample)")
ASSUMPTIONS = ["a container of floats is a sequence (list, tuple) or a one-dimensional numpy array"]


class Sub(np.ndarray):
    pass


def float_boxes(x):
    yield "list", x.tolist()
    yield "tuple", tuple(x.tolist())
    yield "list-of-numpy-scalars", list(x)
    b = np.full(2 * len(x), 7.7)
    b[::2] = x
    yield "strided", b[::2]
    yield "negative-stride", np.ascontiguousarray(x[::-1])[::-1]
    m = np.full((len(x), 3), -1e9)
    m[:, 1] = x
    yield "matrix-column", m[:, 1]
    r = x.copy()
    r.setflags(write=False)
    yield "read-only", r
    yield "big-endian", x.astype(">f8")
    yield "subclass", x.copy().view(Sub)
    yield "python-and-numpy-mix", [v if i % 2 else float(v) for i, v in enumerate(x)]


def int_boxes(x):
    yield "list-of-int", [int(v) for v in x]
    yield "tuple-of-int", tuple(int(v) for v in x)
    lo, hi = x.min(), x.max()
    for t in ("int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64"):
        i = np.iinfo(t)
        if i.min <= lo and hi <= i.max:
            yield t, x.astype(t)
    r = x.astype("int64")
    r.setflags(write=False)
    yield "read-only-int64", r
    yield "list-of-int64", list(x.astype("int64"))
    yield "mixed-int-float", [int(v) if i % 2 else float(v) for i, v in enumerate(x)]


INT_KW = {"normal": {}, "exponent": dict(lam=.02), "weibull": dict(a=1, k=1), "uniform": dict(a=-10, b=3_000_000), "student": dict(df=3, loc=20, scale=15),
          "gamma": dict(alpha=2.0, beta=.05), "log_normal": dict(s=1, scale=30)}


def int_samples(fam, n, rng):
    yield "small", np.clip(np.round(rng.gamma(2, 20, n)), 1, 120)
    yield "bytes", np.clip(np.round(rng.gamma(3, 35, n)), 1, 250)
    yield "medium", np.clip(np.round(rng.lognormal(8, .7, n)), 1, 30000)
    yield "large", np.round(rng.lognormal(12, .5, n)) + 1
    if fam in ("normal", "student"):
        yield "signed", np.clip(np.round(rng.normal(-5, 40, n)), -120, 120)
        yield "signed-large", np.round(rng.normal(0, 200000, n))


def run(ck):
    sizes = [4, 8, 25] if not ck.thorough else [4, 5, 8, 13, 25, 60, 120]
    reps = 1 if not ck.thorough else 3

    def compare(sub, name, cls, kw, x, boxes, what):
        ref = value(name, cls, kw, np.array(x, float))
        boxes = list(boxes)
        if len(x) > 200:
            boxes = [boxes[int(i)] for i in sub.rng("boxes", name, len(x), what).choice(len(boxes), min(3, len(boxes)), replace=False)]
        for how, y in boxes:
            o = value(name, cls, kw, y)
            sub.ev()
            sub.count(f"container:{how}")
            sub.count(f"executions:{C.short(name)}")
            sub.nontrivial(name, how, len(x), float(x[0]), float(x[-1]))
            case = {"class": name, "kwargs": kw, "container": how, "sample": np.array(x, float), "got": o.short(), "float-array": ref.short()}
            sub.sample(how, case)
            if o.kind == ref.kind and (o.kind != "ok" and type(o.exc) is type(ref.exc) or o.kind == "ok" and close(o.value, ref.value, 1e-6, 1e-8)):
                continue
            if o.kind == "ok" and ref.kind == "ok":
                p = value(name, cls, kw, np.array(x, float) * (1 + 1e-15 * sub.rng(name, how).standard_normal(len(x))))
                if p.kind == "ok" and not close(p.value, ref.value, 1e-7, 1e-9):
                    sub.count("ill-conditioned")
                    continue
            sub.violation(f"{name}:{what}:{how}", f"n={len(x)} {kw}: {how} gives {o.short()}, the float array gives {ref.short()}", case)

    def worker(sub, task):
        name, n, rep = task
        kinds = ("null", "high", "ties") if not sub.thorough else ("null", "low", "high", "mid", "ties", "outlier")
        for cls, fam, kw, kind, x, rng in cases(sub, task, kinds):
            compare(sub, name, cls, kw, x, float_boxes(x), "float")
        cls = C.classes()[name]
        fam = C.family(cls)
        if fam not in INT_KW or name.startswith("RyanJoiner"):
            return
        rng = sub.rng("int", *task)
        opts = [{k: v for k, v in kw.items() if k not in C.PARAMS[fam][0]} for kw in C.variants(name, fam)]
        ints = list(int_samples(fam, n, rng))
        for kind, x in ints if n <= 200 else [ints[int(rng.integers(len(ints)))]]:
            if len(set(x.tolist())) < 3:
                continue
            kw = {**opts[int(rng.integers(len(opts)))], **INT_KW[fam]}
            if name == "LillieforsStudentGofStatistic":
                kw = dict(df=3)
            compare(sub, name, cls, kw, x, int_boxes(x), "integer")
    have = C.classes()
    cap = {n: 12 for n in have if n.startswith(("Rossberg", "Ahsanullah", "HollanderProshan"))}
    parallel(ck, tasks(sizes, reps, cap, big=(260, 1030, 5003) if not ck.thorough else (203, 260, 513, 1030, 2051, 5003)), worker)
    for n in have:
        ck.need(f"executions:{C.short(n)}", 10)
