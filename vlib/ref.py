"""Reference models, written from the documentation and the paper."""
import numpy as np
from scipy.spatial.distance import cdist

DT = 0.001


def kern(x, z, l):
    x, z = np.asarray(x, float), np.asarray(z, float)
    l = np.broadcast_to(np.asarray(l, float), (x.shape[1],))
    return np.exp(-0.5 * sum(((x[:, None, d] - z[None, :, d]) / l[d]) ** 2 for d in range(x.shape[1])))


def score_weights(X, Z, l, C=1e-3, jitter=1e-3):
    """Weights w (M x dim) of the sparse kernel score estimate sum_m K(x, z_m) w_m.

    Minimiser of the regularised sparse kernel score matching functional
    (Maoutsa, Reich, Opper 2020), with the library's regularisation: jitter on
    the kernel matrix of the inducing points and C + jitter on the weights.
    """
    X = np.asarray(X, float)
    Z = np.asarray(Z, float)
    dim = X.shape[1]
    l = np.broadcast_to(np.asarray(l, float).reshape(-1) if np.ndim(l) else np.asarray(l, float), (dim,))
    Kx = kern(X, Z, l)
    Ks = kern(Z, Z, l) + jitter * np.eye(len(Z))
    G = np.stack([(-(X[:, None, d] - Z[None, :, d]) / l[d] ** 2 * Kx).sum(0) for d in range(dim)], 1)
    A = Kx.T @ Kx
    return -np.linalg.solve((C + jitter) * Ks + A, G), l


def score(X, Z, l, C=1e-3, at=None):
    """Estimated gradient of the log density of the samples X, evaluated at `at`."""
    w, l = score_weights(X, Z, l, C)
    return kern(X if at is None else at, Z, l) @ w


def weights_rounding(X, Z, l, C=1e-3):
    """What the weights would be if nothing cancelled: rounding errors are a small multiple of this.
    The coordinates are rounded relative to their own size, so far from the origin the multiple grows."""
    X, Z = np.asarray(X, float), np.asarray(Z, float)
    l = np.broadcast_to(np.asarray(l, float), (X.shape[1],))
    Kx = kern(X, Z, l)
    G = np.stack([(np.abs(X[:, None, d] - Z[None, :, d]) / l[d] ** 2 * Kx).sum(0) for d in range(X.shape[1])], 1)
    far = 1.0 + 1e-2 * max(np.abs(X / l).max(), np.abs(Z / l).max())
    return far * (np.abs(np.linalg.inv((C + 1e-3) * (kern(Z, Z, l) + 1e-3 * np.eye(len(Z))) + Kx.T @ Kx)) @ G)


def weights_dual(X, Z, l, C=1e-3):
    """The same weights through a different order of operations (conditioning probe)."""
    X = np.asarray(X, float)
    Z = np.asarray(Z, float)
    dim = X.shape[1]
    l = np.broadcast_to(np.asarray(l, float).reshape(-1) if np.ndim(l) else np.asarray(l, float), (dim,))
    Kx = kern(X, Z, l)
    Ksinv = np.linalg.inv(kern(Z, Z, l) + 1e-3 * np.eye(len(Z)))
    G = np.stack([(-(X[:, None, d] - Z[None, :, d]) / l[d] ** 2 * Kx).sum(0) for d in range(dim)], 1)
    P = np.linalg.inv((C + 1e-3) * np.eye(len(Z)) + Ksinv @ (Kx.T @ Kx))
    return -(P @ (Ksinv @ G))


def score_dual(X, Z, l, C=1e-3, at=None):
    return kern(X if at is None else at, Z, l) @ weights_dual(X, Z, l, C)


def mean_score(cloud, box, at, M, draws, rng, ddof=0):
    """Score of `cloud` (dim x N) at `at` (dim x K), averaged over the random
    inducing points (uniform in `box`); returns mean and standard deviation."""
    lo, hi = box
    l = 2 * cloud.std(axis=1, ddof=ddof)
    out = []
    for _ in range(draws):
        S = lo + (hi - lo) * rng.random((M, cloud.shape[0]))
        out.append(score(cloud.T, S, l, at=at.T).T)
    out = np.array(out)
    return out.mean(0), out.std(0)


def box_of(*clouds):
    lo = np.min([c.min(axis=1) for c in clouds], axis=0)
    hi = np.max([c.max(axis=1) for c in clouds], axis=0)
    return lo, hi


def box_common(a, b):
    return (np.maximum(a.min(1), b.min(1)), np.minimum(a.max(1), b.max(1)))


def grid(t1, t2, dt=DT):
    n = int(round((t2 - t1) / dt))
    return t1 + dt * np.arange(n + 1)


def etpf(x, w, metric):
    """Optimal transport map of the ensemble transform particle filter:
    plan from the weights to uniform weights, applied to the particles
    (x: dim x N, w: N)."""
    import ot
    w = np.asarray(w, float)
    w = w / w.sum()
    N = len(w)
    cost = cdist(x.T, x.T, metric)
    m = cost.max()
    if m > 0:
        cost = cost / m
    plan = ot.emd(w, np.full(N, 1.0 / N), cost)
    return (x @ plan) * N, plan
