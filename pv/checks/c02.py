"""C02: normality criteria vs their published formulas."""
from pv.formula import run_family, BIG
from pv.ref_normal import REFS, TOL
RULE = ("33 non-distance normality criteria x constructor options x sample sizes on both sides of every threshold (3/4/5/6, 20/21, 25/26, 40/41, "
        "50/51, 149/150) x sample shapes (normal, five alternatives, ties, repeated values, outliers), shifted and scaled; evaluation = one "
        "execution compared with an independent implementation of the published formula; non-trivial = non-constant sample")
ASSUMPTIONS = ["published formulas as in Romao/Delgado/Costa (2010), PoweR and the original papers; SciPy's skewtest, kurtosistest and normal quantiles"]


def run(ck):
    if ck.thorough:
        sizes = list(range(4, 31)) + [32, 39, 40, 41, 42, 49, 50, 51, 52, 63, 99, 100, 101, 148, 149, 150, 151, 152, 200, 301]
    else:
        sizes = [4, 5, 6, 7, 8, 9, 11, 12, 20, 21, 25, 26, 40, 41, 50, 51, 101, 149, 150]
    run_family(ck, REFS, sizes, reps=3 if ck.thorough else 1, tol=TOL, big=BIG, bigcaps={} if ck.thorough else {"BHSNormalityGofStatistic": 2100, "EppsPulleyNormalityGofStatistic": 2100},
               kinds=("null", "low", "high", "mid", "edge", "narrow", "ties", "repeat", "outlier", "wild", "whole"))
