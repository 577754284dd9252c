"""C04: Weibull criteria vs their definitions."""
from pv.formula import run_family, BIG
from pv.ref_weibull import REFS, CALLS, TOL
RULE = ("17 non-distance Weibull criteria x null parameters x call options x sample sizes x sample shapes (Weibull, five alternatives, ties, "
        "repeats, outliers); evaluation = one execution compared with an independent implementation of the definition (own maximum-likelihood root "
        "where parameters are estimated); non-trivial = non-constant sample")
ASSUMPTIONS = ["definitions as in the EWGoF package and Krit, Gaudoin & Remy; chi-square in its relative-frequency form; REJG in the squared-R-squared form "
               "the project's tests fix"]


def run(ck):
    sizes = list(range(4, 25)) + [30, 31, 50, 51, 100, 153, 300] if ck.thorough else [4, 5, 6, 7, 9, 10, 13, 16, 21, 30, 51, 100]
    run_family(ck, REFS, sizes, reps=4 if ck.thorough else 1, calls=CALLS, tol=TOL, big=BIG)
