"""Generators of systems and particle clouds.

A case is a small JSON value; arrays are expanded from it deterministically.
"""
import numpy as np


def st():
    from hypothesis import strategies
    return strategies


def seeds():
    return st().integers(0, 2 ** 31 - 1)


def floats(lo, hi):
    return st().floats(lo, hi, allow_nan=False, allow_infinity=False)


# ------------------------------------------------------------------ drifts

def system(dims=(1, 2, 3, 4), scale=2.0, kinds=("zero", "const", "linear", "cycle", "well", "forced", "alternating", "mixed")):
    s = st()
    return s.builds(lambda dim, kind, seed, sc: {"dim": dim, "kind": kind, "seed": seed, "scale": sc},
                    s.sampled_from(list(dims)), s.sampled_from(list(kinds)), s.integers(0, 9999),
                    s.sampled_from([scale * 0.25, scale, scale * 2]))


def _mats(sp):
    rng = np.random.default_rng([7, sp["seed"], sp["dim"]])
    d = sp["dim"]
    A = rng.normal(size=(d, d)) * sp["scale"] / np.sqrt(d)
    b = rng.normal(size=(d, 1)) * sp["scale"]
    ph = rng.uniform(0, 2 * np.pi, size=(d, 1))
    om = rng.uniform(0.5, 2.0, size=(d, 1)) * 20.0
    return A, b, ph, om


def drift(sp, lib="numpy"):
    """f(x, t) for a system spec; lib: numpy or torch."""
    A, b, ph, om = _mats(sp)
    kind = sp["kind"]
    sc = sp["scale"]
    if lib == "torch":
        import torch
        A, b, ph, om = (torch.tensor(v, dtype=torch.float64) for v in (A, b, ph, om))
        sin, cat, zeros_like = torch.sin, torch.cat, torch.zeros_like
        norm2 = lambda x: (x ** 2).sum(0, keepdim=True)
    else:
        sin, zeros_like = np.sin, np.zeros_like
        cat = np.concatenate
        norm2 = lambda x: (x ** 2).sum(0, keepdims=True)

    def roll(x):
        return cat([x[1:], x[:1]])

    if kind == "zero":
        return lambda x, t: 0.0 * x
    if kind == "const":
        return lambda x, t: b + 0.0 * x
    if kind == "linear":
        return lambda x, t: A @ x + b
    if kind == "cycle":
        return lambda x, t: sc * (roll(x) - x * (norm2(x) - 1.0))
    if kind == "well":
        return lambda x, t: sc * (x - x ** 3) + 0.0 * b
    if kind == "forced":
        return lambda x, t: b * sin(om * t + ph) + 0.0 * x
    if kind == "alternating":       # changes sign from one step of 0.001 to the next
        return lambda x, t: 5 * b * sin(1000 * np.pi * (t + 0.0005) + 0.3 * sin(ph)) + 0.0 * x
    if kind == "mixed":
        return lambda x, t: A @ x - sc * x ** 3 + b * sin(om * t + ph)
    raise KeyError(kind)


# --------------------------------------------------------------- constraints

def potential(sp, lib="numpy"):
    """U(x, t): dim x N -> N. Values are moderate: exp(U dt) neither over- nor underflows."""
    rng = np.random.default_rng([11, sp["seed"], sp["dim"]])
    c = rng.normal(size=(sp["dim"], 1)) * sp.get("spread", 0.3)
    om = 30.0
    a = sp["amp"]
    if lib == "torch":
        import torch
        c = torch.tensor(c, dtype=torch.float64)
        sin, exp = torch.sin, torch.exp
    else:
        sin, exp = np.sin, np.exp
    kind = sp["kind"]
    if kind == "quadratic":
        return lambda x, t: -a * ((x - c) ** 2).sum(0)
    if kind == "tracking":
        return lambda x, t: -a * ((x - c * sin(om * t)) ** 2).sum(0)
    if kind == "linear":
        return lambda x, t: a * (c * x).sum(0)
    if kind == "bump":
        return lambda x, t: -a * exp(-((x - c) ** 2).sum(0) * 8.0)
    if kind == "constant":
        return lambda x, t: 0.0 * x.sum(0) + a * 0.01 * sin(om * t)
    raise KeyError(kind)


def potentials(kinds=("quadratic", "tracking", "linear", "bump")):
    s = st()
    return s.builds(lambda k, seed, amp: {"kind": k, "seed": seed, "amp": amp},
                    s.sampled_from(list(kinds)), s.integers(0, 9999),
                    s.sampled_from([1.0, 30.0, 300.0, 2000.0]))


# -------------------------------------------------------------------- clouds

def cloud_spec(dims=(1, 2, 3, 4, 5, 6), nmax=80, mmax=30):
    s = st()
    return s.builds(
        lambda dim, n, m, shape, seed, sc, off, zk, big, ties: {
            "dim": dim, "n": min(2000, n * 12) if big else n, "m": min(150, m * 4) if big else m,
            "shape": shape, "seed": seed, "scale": sc, "offset": off, "z": zk, "ties": ties},
        s.sampled_from(list(dims)),
        s.one_of(s.integers(2, 12), s.integers(5, nmax), s.integers(nmax // 2, nmax)),
        s.one_of(s.integers(1, 6), s.integers(2, mmax), s.integers(mmax // 2, mmax)),
        s.sampled_from(["normal", "bimodal", "uniform", "skewed", "corr"] * 2 + ["heavy", "outlier"]),
        s.integers(0, 2 ** 31 - 1),
        s.sampled_from([1.0, 0.02, 0.3, 5.0, 40.0, 1e-5, 2e3, 1e-10]),
        s.sampled_from([0.0, 1.0, -3.0, 20.0, 3e5]),
        s.sampled_from(["box", "subset", "grid", "normal"]),
        s.sampled_from([False] * 14 + [True]),
        s.sampled_from([None] * 6 + ["inducing", "samples", "lattice", "sorted"]))


def cloud(sp):
    """samples X (n x dim) and inducing points Z (m x dim)"""
    rng = np.random.default_rng(sp["seed"])
    n, m, d = sp["n"], sp["m"], sp["dim"]
    X = rng.normal(size=(n, d))
    if sp["shape"] == "bimodal":
        X = X * 0.4 + np.where(rng.random((n, 1)) < 0.5, 1.0, -1.0)
    elif sp["shape"] == "uniform":
        X = rng.uniform(-1.5, 1.5, size=(n, d))
    elif sp["shape"] == "skewed":
        X = np.exp(0.6 * X)
    elif sp["shape"] == "corr":
        X = X @ (np.eye(d) + 0.5 * np.ones((d, d)))
    elif sp["shape"] == "heavy":
        X = rng.standard_t(2, size=(n, d))
    elif sp["shape"] == "outlier":         # a few samples far from all others
        k = rng.integers(0, n, size=1 + n // 100)
        X[k] += rng.choice([-60.0, -15.0, 15.0, 60.0], size=(len(k), 1))
    stretch = np.exp(rng.uniform(-1.0, 1.0, size=d))
    X = (X * stretch + sp["offset"]) * sp["scale"]
    lo, hi = X.min(0), X.max(0)
    if sp["z"] == "subset":
        Z = X[rng.permutation(n)[: min(m, n)]].copy()
    elif sp["z"] == "grid":
        Z = lo + (hi - lo) * (np.arange(m)[:, None] + 0.5 + 0.3 * rng.random((m, d))) / m
    elif sp["z"] == "normal":
        Z = X.mean(0) + X.std(0) * rng.normal(size=(m, d))
    else:
        Z = rng.uniform(lo, hi, size=(m, d))
    ties = sp.get("ties")
    if ties == "inducing":          # some of them several times
        Z = Z[rng.integers(0, len(Z), size=len(Z)) // 2]
    elif ties == "samples":
        X = X[rng.integers(0, n, size=n)]
    elif ties == "lattice":
        h = 0.5 * X.std(0)
        X, Z = np.round(X / h) * h, np.round(Z / h) * h
    elif ties == "sorted":
        X, Z = X[np.argsort(X[:, 0])], Z[np.argsort(Z[:, 0])]
    return X, Z


def lengths(X, factor, vec, seed=0):
    """Lengthscale(s) around the library's own choice 2 * std."""
    s = X.std(0)
    s = np.where(s > 0, s, 1.0)
    if vec:
        rng = np.random.default_rng(seed)
        near = seed % 5
        if near < 2:            # the same for all dimensions, or almost
            return factor * s.max() * np.exp(rng.uniform(-1, 1, size=len(s)) * [0.0, 0.02][near])
        return factor * s * np.exp(rng.uniform(-0.4, 0.4, size=len(s)))
    return float(factor * s.max())
