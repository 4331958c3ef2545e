"""The optimal-transport reweighting map."""
import numpy as np
from scipy.spatial.distance import cdist

from vlib import gen, sutmod as S
from vlib.core import Sub, require, sut

RULE = ("generated particle sets and normalised weights (generic, tied, concentrated, with zeros, with duplicated "
        "particles); non-trivial: at least 3 particles and non-uniform weights")
ASSUMPTIONS = ["weights are non-negative and sum to one, as every caller guarantees"]


def strat(big, least=None):
    def make():
        s = gen.st()
        return s.fixed_dictionaries(dict(
            n=s.integers(least, big) if least else s.one_of(s.integers(1, 8), s.integers(2, big)), dim=s.integers(1, 6), seed=gen.seeds(),
            w=s.sampled_from(["dirichlet", "concentrated", "uniform", "zeros", "ties", "exp", "nearly uniform", "copies"]),
            x=s.sampled_from(["normal", "lattice", "duplicates", "line"]),
            scale=s.sampled_from([1.0, 1e-3, 50.0]), offset=s.sampled_from([0.0, -5.0, 100.0]),
            shape=s.sampled_from(["column", "flat"]), order=s.sampled_from(["C", "T"])))
    return make


def build(case):
    rng = np.random.default_rng(case["seed"])
    n, d = case["n"], case["dim"]
    x = rng.normal(size=(n, d))
    if case["x"] == "lattice":
        x = np.round(x * 2)
    elif case["x"] == "duplicates":
        x = x[rng.integers(0, max(1, n // 2), size=n)]
    elif case["x"] == "line":
        x = x[:, :1] * np.ones((1, d))
    x = x * case["scale"] + case["offset"]
    k = case["w"]
    if k == "uniform":
        w = np.ones(n)
    elif k == "concentrated":
        w = np.full(n, 1e-6)
        w[rng.integers(n)] = 1.0
    elif k == "zeros":
        w = rng.random(n) * (rng.random(n) < 0.5)
        w[rng.integers(n)] += 0.5
    elif k == "ties":
        w = rng.integers(1, 4, size=n).astype(float)
    elif k == "exp":
        w = np.exp(-3 * (x / case["scale"] - case["offset"] / case["scale"])[:, 0] ** 2)
    elif k == "copies":           # every particle is taken a whole number of times
        w = rng.multinomial(n, np.full(n, 1 / n)).astype(float)
    elif k == "nearly uniform":
        w = 1 + 1e-4 * rng.normal(size=n)
    else:
        w = rng.gamma(1.0, size=n) + 1e-9
    w = w / w.sum()
    if case["order"] == "T":
        x = np.ascontiguousarray(x.T).T
    return x, w


def check(case):
    import ot
    x, w = build(case)
    n = len(w)
    W = w.reshape(-1, 1).copy() if case["shape"] == "column" else w.copy()
    x0, W0 = x.copy(), W.copy()
    T = np.asarray(sut(S.reweight, x, W))
    require(np.array_equal(x, x0) and np.array_equal(W, W0), "an input was modified")
    require(T.shape == (n, n), "shape of the map is %r", T.shape)
    require(np.isfinite(T).all(), "the map is not finite")
    require(T.min() >= -1e-9, "negative transport %g", T.min())
    tol = 1e-7 * n
    c = np.abs(T.sum(0) - 1).max()
    require(c <= tol, "a transported particle is not a weighted mean of particles (column sum off by %g)", c)
    r = np.abs(T.sum(1) - n * w).max()
    require(r <= tol, "a particle does not give away its weight (row sum off by %g)", r)
    new = x.T @ T
    scale = np.abs(x - x.mean(0)).max() + 1e-300
    m = np.abs(new.mean(1) - x.T @ w).max()
    require(m <= 1e-6 * scale + 1e-9 * np.abs(x).max(), "the weighted mean is not preserved (off by %g)", m)
    cost = cdist(x, x)
    if cost.max() > 0:
        best = ot.emd2(w, np.full(n, 1.0 / n), cost / cost.max(), numItermax=10 ** 7) * cost.max()
        got = float((T * cost).sum() / n)
        require(got <= best + 1e-6 * cost.max(), "transport cost %g, the optimum is %g", got, best)
        off = cost + np.eye(n) * cost.max()
        if case["w"] == "uniform" and off.min() > 0:
            require(np.abs(T - np.eye(n)).max() <= 1e-6, "uniform weights move the particles")
    return dict(nontrivial=n >= 3 and case["w"] != "uniform",
                classes=[case["w"], case["x"], "dim%d" % case["dim"], "n>600" if n > 600 else "n>50" if n > 50 else "n<=50", case["shape"]])


SUBS = [Sub("transport map", strat(60), check, 2400, 12000, 4, qshards=2),
        Sub("large ensembles", strat(250), check, 240, 1500, 4),
        Sub("very large ensembles", strat(1200, 600), check, 12, 200, 4)]
