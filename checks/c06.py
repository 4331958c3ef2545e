"""The score estimate is the gradient of the log density: known densities and the Stein identity."""
import numpy as np

from vlib import est, gen
from vlib.core import Sub, require

RULE = ("a generated density with known score (Gaussian with generated mean, scales and correlations; mixture of two "
        "Gaussians), 3000 or 4000 samples, estimated at the samples or, as a function, at fresh draws, with every estimator; "
        "and generated clouds of any shape, for which the estimate must satisfy Stein's identity; non-trivial: every case")
ASSUMPTIONS = ["dimensions 1-3 (Stein: 1-4), lengthscale two standard deviations (the library's choice), enough inducing points",
               "relative rms error at most 0.4 in the bulk of the density (0.16 typical; 0.26 the worst seen in calibration)",
               "Stein identity within 0.1 (0.15 in dimension 4, 0.6 for heavy tails); worst seen in 16000 calibration cases "
               "0.036, 0.077 and 0.31"]


def strat_known(names):
    def make():
        s = gen.st()
        return s.fixed_dictionaries(dict(
            est=s.sampled_from(list(names)), dim=s.integers(1, 3), n=s.sampled_from([3000, 4000, 4000, 9000]), m=s.sampled_from([80, 100]), sorted=s.booleans(), lscalar=s.booleans(),
            kind=s.sampled_from(["gauss", "gauss", "mixture"]), seed=gen.seeds(), func=s.booleans(),
            lkind=s.sampled_from(["array", "list", "tensor"]), corr=s.sampled_from([0.0, 0.4]),
            scale=s.sampled_from([1.0, 0.01, 30.0]), layout=s.sampled_from(["C", "T"])))
    return make


def density(c):
    """sampler, score and 'in the bulk' of the density, all by the oracle"""
    rng = np.random.default_rng([23, c["seed"]])
    d = c["dim"]
    A = (np.eye(d) + c["corr"] * rng.uniform(-1, 1, size=(d, d))) * np.exp(rng.uniform(-1, 1, size=(d, 1)) * (not c["lscalar"])) * c["scale"]
    m = rng.normal(size=d) * 3 * c["scale"]
    if c["kind"] == "gauss":
        comp, w = np.zeros((1, d)), np.ones(1)
    else:
        a = rng.normal(size=d)
        a /= np.linalg.norm(a)
        comp, p = np.stack([-a, a]) * rng.uniform(0.5, 1.3), rng.uniform(0.3, 0.7)
        w = np.array([1 - p, p])
    S = A @ A.T

    def sample(n):
        lab = (rng.random(n) < w[-1]).astype(int) if len(w) == 2 else np.zeros(n, int)
        return (comp[lab] + rng.normal(size=(n, d))) @ A.T + m

    def white(X):
        return np.linalg.solve(A, (X - m).T).T

    def score(X):
        y = white(X)
        q = w * np.exp(-0.5 * ((y[:, None] - comp[None]) ** 2).sum(2))
        q /= q.sum(1, keepdims=True)
        return np.linalg.solve(A.T, -(y - q @ comp).T).T

    def bulk(X):
        return ((white(X)[:, None] - comp[None]) ** 2).sum(2).min(1) < 2 * d
    return sample, score, bulk, A


def check_known(c):
    sample, score, bulk, A = density(c)
    X = sample(c["n"])
    if c["sorted"]:         # the order of the samples means nothing
        X = X[np.argsort(X[:, 0])]
    rng = np.random.default_rng([29, c["seed"]])
    Z = rng.uniform(X.min(0), X.max(0), size=(c["m"], c["dim"]))
    l = 2 * X.std(0)
    if c["lscalar"]:
        l = float(l.mean())
    case = dict(est=c["est"], lvec=not c["lscalar"], lkind=c["lkind"], cloud=None)
    if c["layout"] == "T":
        X = np.ascontiguousarray(X.T).T
    if c["func"]:
        Q = sample(1500)
        s = est.call(case, est.make(case, X, Z, l, 0.001), Q)
    else:
        Q = X
        s = est.evaluate(case, X, Z, l, 0.001)
    k = bulk(Q)
    t = score(Q)
    e = np.sqrt((((s - t) @ A)[k] ** 2).mean() / ((t @ A)[k] ** 2).mean())
    require(e <= 0.4, "%s: relative error %.3g of the score of a known density (%s, dimension %d)", c["est"], e, c["kind"], c["dim"])
    return dict(nontrivial=True, classes=[c["est"], c["kind"], "dim%d" % c["dim"], "one l" if c["lscalar"] else "l per dimension", "n=%d" % c["n"], "function" if c["func"] else "values",
                                          "error<0.1" if e < 0.1 else "error<0.2" if e < 0.2 else "error<0.4"])


def strat_stein(names):
    def make():
        s = gen.st()
        return s.fixed_dictionaries(dict(
            est=s.sampled_from(list(names)), dim=s.integers(1, 4), n=s.sampled_from([150, 400, 900]), seed=gen.seeds(),
            shape=s.sampled_from(["normal", "bimodal", "uniform", "skewed", "corr"]), scale=s.sampled_from([1.0, 0.02, 40.0]),
            offset=s.sampled_from([0.0, -3.0, 20.0]), z=s.sampled_from(["box", "subset"]), lfac=s.sampled_from([2.0, 3.0]),
            lkind=s.sampled_from(["array", "list", "tensor"])))
    return make


def check_stein(c):
    m = 40 if c["dim"] <= 2 else 80
    X, Z = gen.cloud(dict(dim=c["dim"], n=c["n"], m=m, shape=c["shape"], seed=c["seed"], scale=c["scale"], offset=c["offset"],
                          z="subset" if c["shape"] == "skewed" else c["z"]))
    case = dict(est=c["est"], lvec=True, lkind=c["lkind"])
    s = est.evaluate(case, X, Z, c["lfac"] * X.std(0), 0.001)
    sd = X.std(0)
    T = -(s * sd).T @ ((X - X.mean(0)) / sd) / len(X)
    dev = np.abs(T - np.eye(c["dim"])).max()
    lim = 0.6 if c["shape"] == "skewed" else 0.15 if c["dim"] == 4 else 0.1
    require(dev <= lim, "%s: mean of score times position deviates by %.3g from Stein's identity", c["est"], dev)
    mean = np.abs((s * sd).mean(0)).max()
    require(mean <= lim / 2, "%s: the mean score is %.3g, not 0", c["est"], mean)
    return dict(nontrivial=True, classes=[c["est"], c["shape"], "dim%d" % c["dim"], "n=%d" % c["n"]])


SUBS = [Sub("known densities numpy", strat_known(est.NUMPY), check_known, 180, 2400, 4, qshards=2),
        Sub("known densities pytorch", strat_known(["torch"]), check_known, 120, 1200, 3, qshards=2),
        Sub("stein numpy", strat_stein(est.NUMPY), check_stein, 540, 5000, 3, qshards=2),
        Sub("stein pytorch", strat_stein(["torch"]), check_stein, 360, 3000, 3)]
