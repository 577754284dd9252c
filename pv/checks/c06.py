"""C06: gamma, beta and Student criteria vs their definitions."""
from pv.formula import run_family, BIG
from pv.ref_other import GREFS, GCALLS, TOL
RULE = ("13 non-distance gamma, beta and Student criteria x null parameters (fixed and random) x bin counts and powers x call options x sample sizes x sample "
        "shapes; evaluation = one execution compared with an independent implementation of the definition; non-trivial = non-constant sample; samples "
        "with an observation on a bin edge or with tied observations under Moran are not compared")
ASSUMPTIONS = ["moment criterion: both deviations scaled by the null variance, as documented; entropy criterion skips empty windows"]


def run(ck):
    sizes = list(range(4, 25)) + [30, 31, 50, 51, 64, 65, 100, 150, 300] if ck.thorough else [4, 5, 6, 7, 8, 9, 10, 16, 17, 25, 33, 50, 101]
    run_family(ck, GREFS, sizes, reps=4 if ck.thorough else 1, calls=GCALLS, tol=TOL, big=BIG)
