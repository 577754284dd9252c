"""C03: exponentiality criteria vs their published formulas."""
from pv.formula import run_family, BIG
from pv.ref_exponent import REFS, CALLS
RULE = ("22 non-distance exponentiality criteria x rate parameters x call options (Atkinson p, Deshpande b, Lorenz p, Gnedenko/Harris r) x sample "
        "sizes x sample shapes (exponential, five alternatives, ties, repeats, outliers); evaluation = one execution compared with an independent "
        "implementation of the published formula; non-trivial = non-constant sample")
ASSUMPTIONS = ["formulas as in Henze & Meintanis (2005), Ascher (1990) and the R package exptest"]


def run(ck):
    sizes = list(range(4, 25)) + [30, 31, 50, 51, 100, 153] if ck.thorough else [4, 5, 6, 7, 9, 10, 13, 16, 21, 30, 51, 100]
    caps = {} if ck.thorough else {"DeshpandeExponentialityGofStatistic": 60}
    run_family(ck, REFS, sizes, reps=5 if ck.thorough else 1, calls=CALLS, caps=caps, big=BIG,
               bigcaps={"DeshpandeExponentialityGofStatistic": 2100 if ck.thorough else 1030})
