"""Shared workload material for the storage properties."""
import json, os, shutil, struct, tempfile
import numpy as np

CODES = ["KS_NORMALITY_GOODNESS_OF_FIT", "ks", "KS", "AD", "AD_", "A%D", "A_D", "o'brien", 'q"uote', "юникод", " AD", "AD ", ";--", "x" * 300, ""]
PARAMS = [[], [0.0], [0.0, 1.0], [1.0, 0.0], [0.1, 0.2], [0.1, 0.2, 0.0], [1e-300], [1e300, -2.5], [0.30000000000000004], [0.3], [-1.0], [1.0], [10.0], [2.5, 2.5]]
SIZES = [1, 2, 3, 9, 10, 11, 12, 30, 100, 101]
COUNTS = [0, 1, 2, 10, 500, 1000, 1001, 1004, 99999, 100000]


def f32(vals):
    with np.errstate(over="ignore"):
        return np.asarray(vals, dtype=np.float64).astype(np.float32).tolist()


def same(a, b):
    """Equality of two float lists where NaN equals NaN and -0.0 differs from 0.0."""
    a, b = list(a), list(b)
    return len(a) == len(b) and struct.pack(f"<{len(a)}d", *a) == struct.pack(f"<{len(b)}d", *b)


def values(r, kind=None):
    k = int(r.integers(0, 6)) if kind is None else kind
    n = int(r.choice([0, 1, 2, 5, 20, 100]))
    if k == 0:
        return [float(x) for x in r.normal(size=n)]
    if k == 1:
        return [float(x) for x in r.integers(-3, 3, n)]
    if k == 2:
        return [float(x) for x in r.normal(size=n) * 10.0 ** r.integers(-30, 30)]
    if k == 3:
        return [float(x) for x in r.exponential(size=n)]
    if k == 4:
        return []
    return [float(x) for x in np.sort(r.random(n))]


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="pv-store-")
        return self

    def url(self, name="db.sqlite"):
        return f"sqlite:///{os.path.join(self.dir, name)}"

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)
