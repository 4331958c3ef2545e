"""Symmetries of the score estimate."""
import numpy as np

from vlib import est, gen
from vlib.core import Sub

RULE = ("a generated estimator case and a generated transformation of its input (permutation of samples or inducing "
        "points, translation, anisotropic scaling or reflection, permutation of the dimensions, rotation); the score "
        "must transform accordingly, at the samples and at query points; non-trivial: at least 5 samples, 2 inducing "
        "points, a non-constant score")
ASSUMPTIONS = ["kernel 'RBF'; translations of at most a few hundred spreads (rounding)"]

OPS = ["permute samples", "permute inducing", "translate", "scale", "uniform scale", "reflect", "permute dims", "rotate"]


def strat(names):
    def make():
        s = gen.st()
        return s.builds(lambda c, op, seed, fo: dict(c, op=op, opseed=seed, func=fo),
                        est.case(names, nmax=60, mmax=25), s.sampled_from(OPS), gen.seeds(), s.booleans())
    return make


def run(case, X, Z, l, C, Q):
    if case["func"]:
        return est.call(case, est.make(case, X, Z, l, C), Q)
    return est.evaluate(case, X, Z, l, C)


def check(case):
    X, Z, l, C = est.build(case)
    rng = np.random.default_rng([3, case["opseed"]])
    n, d = X.shape
    sd = np.where(X.std(0) > 0, X.std(0), np.where(np.ptp(np.r_[X, Z], axis=0) > 0, np.ptp(np.r_[X, Z], axis=0), 1.0))
    Q = X.mean(0) + sd * rng.normal(size=(7, d))
    op = case["op"]
    if op == "rotate" and case["lvec"]:
        op = "permute dims"
    if op == "scale" and not case["lvec"]:
        op = "uniform scale"
    base = run(case, X, Z, l, C, Q)
    scale = est.scales(case, X, Z, l, C, Q)
    X2, Z2, Q2, l2 = X, Z, Q, l
    back = lambda s: s
    if op == "permute samples":
        p = rng.permutation(n)
        X2 = X[p]
        if not case["func"]:
            back = lambda s: s[np.argsort(p)]
    elif op == "permute inducing":
        Z2 = Z[rng.permutation(len(Z))]
    elif op == "translate":
        c = rng.normal(size=d) * sd * rng.choice([1.0, 30.0])
        X2, Z2, Q2 = X + c, Z + c, Q + c
    elif op in ("scale", "uniform scale"):
        # other units: mostly within a few orders of magnitude, sometimes many
        r = rng.choice([1.0, 1.0, 4.0])
        a = np.exp(r * rng.uniform(-2, 2, size=d)) if op == "scale" else np.exp(2 * r * rng.uniform(-2, 2)) * np.ones(d)
        X2, Z2, Q2 = X * a, Z * a, Q * a
        l2 = l * a if case["lvec"] else float(l * a[0])
        back = lambda s: s * a
    elif op == "reflect":
        sg = rng.choice([-1.0, 1.0], size=d)
        X2, Z2, Q2 = X * sg, Z * sg, Q * sg
        back = lambda s: s * sg
    elif op == "permute dims":
        p = rng.permutation(d)
        X2, Z2, Q2 = X[:, p], Z[:, p], Q[:, p]
        l2 = l[p] if case["lvec"] else l
        back = lambda s: s[:, np.argsort(p)]
    elif op == "rotate":
        R = np.linalg.qr(rng.normal(size=(d, d)))[0]
        X2, Z2, Q2 = X @ R, Z @ R, Q @ R
        back = lambda s: s @ R.T
    got = back(run(case, X2, Z2, l2, C, Q2))
    est.compare(got, base, "score after: " + op, tol=3e-5, scale=scale)
    info = est.describe(case, base)
    info["classes"] = [op, case["est"], "function" if case["func"] else "samples", "dim%d" % d]
    return info


SUBS = [
    Sub("numpy", strat(list(est.NUMPY)), check, 1800, 24000, 4, qshards=3),
    Sub("pytorch", strat(["torch"]), check, 800, 12000, 4),
]
