"""The numpy score estimators equal the sparse kernel estimator's closed form."""
import numpy as np

from vlib import est, gen
from vlib.core import Sub

RULE = ("generated sample clouds (dim 1-6, several shapes, scales and offsets), inducing points, lengthscales "
        "(scalar or per dimension, in every documented container) and weighting constants; compared with an "
        "independent closed form; non-trivial: at least 5 samples, 2 inducing points and a non-constant score")
ASSUMPTIONS = ["kernel 'RBF' (the documentation says not to use 'periodic' yet)",
               "the closed form is evaluated by the oracle in double precision; tolerance 1e-6 of the largest value"]


def strat(names, nmax=80, mmax=30):
    return lambda: est.case(names, nmax=nmax, mmax=mmax, whole=True)


def check(case):
    X, Z, l, C = est.build(case)
    want = est.reference(case, X, Z, l, C)
    got = est.evaluate(case, X, Z, l, C)
    sc = est.scales(case, X, Z, l, C)
    est.compare(got, want, "score at the samples", scale=sc)
    if case["lseed"] % 2:
        est.compare(est.call(case, est.make(case, X, Z, l, C), X), want, "score function at the samples", scale=sc)
    return est.describe(case, want)


def agree(case):
    """all numpy variants give the same answer"""
    X, Z, l, C = est.build(case)
    want = est.reference(case, X, Z, l, C)
    sc = est.scales(case, X, Z, l, C)
    for name in ("sep", "alld", "old", "sep2"):
        est.compare(est.evaluate(dict(case, est=name), X, Z, l, C), want, "score by " + name, scale=sc)
    return est.describe(case, want)


SUBS = [
    Sub("per dimension", strat(["sep"]), check, 1000, 20000, 4),
    Sub("all dimensions", strat(["alld"]), check, 1000, 20000, 4),
    Sub("legacy", strat(["old", "sep2"]), check, 1000, 20000, 4),
    Sub("large", strat(["sep", "alld", "old", "sep2"], 600, 400), check, 160, 1500, 4),
    Sub("agreement", strat(["sep"]), agree, 400, 8000, 4),
]
