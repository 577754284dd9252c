"""Stand-in criteria, resolvers and decision inputs used by the test-pipeline monitors."""
import numpy as np
from pysatl_criterion import DistributionType
from pysatl_criterion.statistics.alternative import Alternative, AlternativeType
from pysatl_criterion.statistics.hypothesis import GoodnessOfFitHypothesis
from pysatl_criterion.statistics.statistic import AbstractGoodnessOfFitStatistic
from pysatl_criterion.hypothesis_testing.limit_distribution.base import AbstractLimitDistributionResolver


class PerInstance:
    """A method that reads the instance, and on the class gives `default`, so that discovery by class keeps working."""

    def __init__(self, fn, default):
        self.fn, self.default = fn, default

    def __get__(self, obj, owner=None):
        return (lambda: self.default) if obj is None else (lambda: self.fn(obj))


class SpyStatistic(AbstractGoodnessOfFitStatistic):
    """Records every sample it is evaluated on; the value comes from `fn(sample, call_number)`."""

    def __init__(self, dist=DistributionType.NORMAL, params=None, side=AlternativeType.RIGHT, fn=None, name="SPY"):
        self.dist, self.params, self.side, self.name = dist, params, side, name
        self.fn = fn or (lambda x, i: float(np.sum(x)))
        self.calls, self.values, self.ids = [], [], []

    def hypothesis(self):
        return GoodnessOfFitHypothesis(self.params)

    def alternative(self):
        return Alternative.get_alternative(self.side)

    distribution = PerInstance(lambda self: self.dist, None)
    code = PerInstance(lambda self: f"{self.name}_{AbstractGoodnessOfFitStatistic.code()}", "SPY")
    short_code = PerInstance(lambda self: self.name, "SPY")

    def execute_statistic(self, rvs):
        self.calls.append(list(np.asarray(rvs, float).ravel()) if np.ndim(rvs) == 1 else rvs)
        v = self.fn(rvs, len(self.calls) - 1)
        self.values.append(v)
        return v


class FixedResolver(AbstractLimitDistributionResolver):
    def __init__(self, values, exc=None):
        self.values, self.exc, self.calls = values, exc, []

    def resolve(self, statistic, sample_size):
        self.calls.append((statistic, sample_size))
        if self.exc:
            raise self.exc
        return self.values


class TeeResolver(AbstractLimitDistributionResolver):
    """Passes through to a real resolver and keeps what it returned."""

    def __init__(self, inner):
        self.inner, self.got = inner, []

    def resolve(self, statistic, sample_size):
        v = self.inner.resolve(statistic, sample_size)
        self.got.append(None if v is None else list(v))
        return v


def decide_by_p(side, limit, s, level):
    """(p-value, rejected) from counting."""
    n = len(limit)
    c = sum(1 for v in limit if v <= s)
    p = {"left": c / n, "right": (n - c) / n, "two_tailed": 2 * min(c, n - c) / n}[side]
    return p


def quantile(sx, q):
    from fractions import Fraction
    pos = Fraction(q) * (len(sx) - 1)
    k = int(pos)
    if k >= len(sx) - 1:
        return sx[-1]
    return sx[k] + (sx[k + 1] - sx[k]) * float(pos - k)


def critical(side, limit, level):
    sx = sorted(limit)
    return {"left": (quantile(sx, level),), "right": (quantile(sx, 1 - level),),
            "two_tailed": (quantile(sx, level / 2), quantile(sx, 1 - level / 2))}[side]


def outside(side, cv, s):
    return {"left": s < cv[0], "right": s > cv[0], "two_tailed": s < cv[0] or s > cv[-1]}[side]


def between(limit, a, b):
    lo, hi = min(a, b), max(a, b)
    return sum(1 for v in limit if lo < v < hi)
