"""C05: uniformity criteria vs their definitions."""
from pv.formula import run_family, BIG
from pv.ref_other import UREFS, UCALLS
RULE = ("8 non-distance uniformity criteria x intervals (fixed and random) x options (bins rule, power, bandwidth, smooth order, censoring marks as array or "
        "list) x sample sizes x sample shapes; evaluation = one execution compared with an independent implementation of the definition; "
        "non-trivial = non-constant sample; samples with an observation on a bin edge are not compared")
ASSUMPTIONS = ["censored Stein: inverse-probability-of-censoring weights from the Kaplan-Meier curve of the censoring times, averaged over all pairs"]


def run(ck):
    sizes = list(range(4, 25)) + [30, 31, 50, 51, 64, 65, 100, 150, 300] if ck.thorough else [4, 5, 6, 7, 8, 9, 10, 16, 17, 25, 33, 50, 101]
    run_family(ck, UREFS, sizes, reps=4 if ck.thorough else 1, calls=UCALLS, caps={"CensoredSteinUniformGofStatistic": 40, "SteinUniformGofStatistic": 120}, big=BIG,
               bigcaps={"CensoredSteinUniformGofStatistic": 260, "SteinUniformGofStatistic": 520})
