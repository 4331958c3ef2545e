"""Function-valued score estimates: consistent, pointwise, repeatable, pure."""
import numpy as np

from vlib import est, gen
from vlib.core import Sub, require

RULE = ("as for the closed form, plus generated query points (1 to 1200, often as many as inducing points; inside, at, and up to tens of standard deviations away from the samples) and a generated "
        "order of calls, with other estimators created in between; non-trivial: at least 2 query points and a "
        "non-constant score")
ASSUMPTIONS = ["kernel 'RBF'"]


def strat(names):
    def make():
        s = gen.st()
        return s.builds(lambda c, q: dict(c, q=q), est.case(names, whole=True),
                        s.fixed_dictionaries(dict(k=s.one_of(*[s.integers(1, 12)] * 6, s.just(0), s.integers(100, 1200)), seed=gen.seeds(),
                                                  spread=s.sampled_from([0.2, 1.0, 3.0, 12.0]),
                                                  form=s.sampled_from([None] * 6 + ["integers", "single"]), calls=s.lists(s.integers(0, 6), min_size=1, max_size=6))))
    return make


def queries(case, X, m):
    rng = np.random.default_rng([5, case["q"]["seed"]])
    sd = X.std(0)
    sd = np.where(sd > 0, sd, 1.0)
    Q = X.mean(0) + sd * case["q"]["spread"] * rng.normal(size=(case["q"]["k"] or m, X.shape[1]))      # k = 0: as many as inducing points
    form = case["q"]["form"]
    if form == "integers" and sd.min() > 1:
        Q = np.round(Q).astype(np.int64)
    elif form == "single" and np.abs(Q).max() < 1e30 and case["est"] != "torch":
        Q = Q.astype(np.float32)
    return Q


def check(case):
    X, Z, l, C = est.build(case)
    Q = queries(case, X, len(Z))
    keep = [np.array(a, copy=True) for a in (X, Z, Q)]
    fs = est.make(case, X, Z, l, C)
    full = est.call(case, fs, Q)
    want = est.reference(case, X, Z, l, C, at=Q)
    atX = est.reference(case, X, Z, l, C)
    scale = est.scales(case, X, Z, l, C, Q)
    est.compare(full, want, "score function at the query points", scale=scale)
    est.compare(full, want, "score function, far points included", scale=est.pointwise(case, X, Z, l, C, Q))
    est.compare(est.call(case, fs, X), atX, "score function at the samples", scale=scale)
    est.compare(est.evaluate(case, X, Z, l, C), est.call(case, fs, X), "direct evaluation against function", scale=scale)
    K = len(Q)
    other = None
    for op in case["q"]["calls"]:
        if op == 0:        # one point at a time
            i = (case["q"]["seed"] + op) % K
            est.compare(est.call(case, fs, Q[i:i + 1]), full[i:i + 1], "value at a single point", tol=1e-8, scale=scale)
        elif op == 1:      # other order, repeated points
            idx = np.random.default_rng(case["q"]["seed"] % 1000).integers(0, K, size=K + 1)
            est.compare(est.call(case, fs, Q[idx]), full[idx], "values in another order", tol=1e-8, scale=scale)
        elif op == 2:      # again
            est.compare(est.call(case, fs, Q), full, "second evaluation", tol=1e-12, scale=scale)
        elif op == 3:      # an unrelated estimator
            rng = np.random.default_rng(case["q"]["seed"])
            X2 = rng.normal(size=X.shape) * 2 + 1
            Z2 = rng.normal(size=Z.shape) * 2 + 1
            other = est.make(case, X2, Z2, np.full(X.shape[1], 1.3) if case["lvec"] else 1.3, 0.01)
            est.call(case, other, Q)
        elif op == 5:      # points that agree with the earlier ones except in one coordinate
            rng = np.random.default_rng([6, case["q"]["seed"]])
            i, j = rng.integers(K), rng.integers(X.shape[1])
            if rng.random() < 0.5:
                i, j = K - 1, X.shape[1] - 1
            Q2 = Q.copy()
            Q2[i, j] += (X.std(0)[j] or 1.0) * rng.choice([0.3, -1.0])
            want2 = est.reference(case, X, Z, l, C, at=Q2)
            est.compare(est.call(case, fs, Q2), want2, "values after changing one coordinate of one point", scale=scale)
        elif op == 6:      # the same array with other contents
            rng = np.random.default_rng([7, case["q"]["seed"]])
            Q2 = Q.copy()
            est.call(case, fs, Q2)
            Q2[...] = Q[rng.integers(0, K, size=K)] + 0.1 * X.std(0) * rng.normal(size=Q.shape)
            want2 = est.reference(case, X, Z, l, C, at=Q2)
            est.compare(est.call(case, fs, Q2), want2, "values after overwriting the array of points", scale=scale)
        else:              # transposed memory layout
            est.compare(est.call(case, fs, np.ascontiguousarray(Q.T).T), full, "transposed layout", tol=1e-8, scale=scale)
    for a, b, n in zip((X, Z, Q), keep, ("samples", "inducing points", "query points")):
        require(np.array_equal(np.asarray(a), b), "the %s were modified", n)
    info = est.describe(case, want)
    info["nontrivial"] = info["nontrivial"] and K >= 2
    info["classes"] += ["queries within %g standard deviations" % case["q"]["spread"]] + (["more than 100 queries"] if K > 100 else [])
    return info


SUBS = [
    Sub("per dimension", strat(["sep"]), check, 700, 12000, 4),
    Sub("all dimensions", strat(["alld"]), check, 700, 12000, 4),
    Sub("legacy", strat(["old", "sep2"]), check, 700, 12000, 4),
    Sub("pytorch", strat(["torch"]), check, 700, 12000, 4),
]
