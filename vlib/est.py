"""Uniform access to the five score estimators and their cases."""
import numpy as np

from . import gen, ref
from . import sutmod as S
from .core import fail, require, sut

NUMPY = ("sep", "alld", "old", "sep2")


def case(names, nmax=80, mmax=30, dims=(1, 2, 3, 4, 5, 6) * 4 + (7, 8, 9, 10, 12), whole=False):
    """whole: now and then coordinates that are whole numbers, in arrays of integers"""
    s = gen.st()
    return s.builds(
        lambda c, e, lf, lv, ls, lk, C, lay, w: dict(cloud=c, est=e, lfac=lf, lvec=lv, lseed=ls, lkind=lk, C=C, layout=lay, whole=w),
        gen.cloud_spec(dims, nmax, mmax), s.sampled_from(list(names)),
        s.sampled_from([2.0, 1.0, 0.4, 4.0]), s.booleans(), s.integers(0, 999),
        s.sampled_from(["array", "list", "tuple", "tensor"]),
        s.sampled_from([None, 1e-3, 1e-2, 1e-5, 0.0, 1.0]),
        s.sampled_from(["C", "T"]),
        s.sampled_from([None] * 8 + ["samples", "inducing", "both"]) if whole else s.none())


def build(c):
    X, Z = gen.cloud(c["cloud"])
    l = gen.lengths(X, c["lfac"], c["lvec"], c["lseed"])
    if c.get("whole"):
        unit = 0.2 * (X.std(0).max() or 1.0)
        X, Z, l = X / unit, Z / unit, l / unit
        if c["whole"] != "inducing":
            X = np.round(X).astype(np.int64)
        if c["whole"] != "samples":
            Z = np.round(Z).astype(np.int64)
    if not c["lvec"] and c["lkind"] == "tuple" and 1 < l < 1e6:     # whole numbers may be given as such
        l = float(np.round(l))
    if not c["lvec"] and c["lseed"] % 9 == 4:       # in these units, the default is meant
        X, Z, l = X / l, Z / l, 1.0
    if c["layout"] == "T":
        X = np.ascontiguousarray(X.T).T
        Z = np.ascontiguousarray(Z.T).T
    return X, Z, l, c["C"]


def flag(c, on):
    """a truth value in one of its forms"""
    return (on, on, on, int(on), np.bool_(on))[c.get("lseed", 0) % 5]


def _l(c, l):
    """the lengthscale in one of the documented containers"""
    if not c["lvec"]:
        k = c["lkind"]
        if k == "tuple" and l == int(l):
            return int(l)
        if c["est"] == "torch" and k == "tensor":
            return S.torch.tensor(float(l), dtype=S.torch.float64)
        if k == "list":
            return np.float64(l)
        return float(l)
    k = c["lkind"]
    if k == "list":
        return [float(v) for v in l]
    if k == "tuple":
        return tuple(float(v) for v in l)
    if k == "tensor" and c["est"] == "torch":
        return S.torch.tensor(np.asarray(l), dtype=S.torch.float64)
    return np.array(l, float)


def _kw(c, C, L):
    kw = {}
    if C is not None:
        kw["C"] = C
    if not (isinstance(L, float) and L == 1.0 and c.get("lseed", 0) % 9 == 4):
        kw["l"] = L
    return kw


def _np(a):
    if hasattr(a, "detach"):
        a = a.detach().cpu().numpy()
    return np.asarray(a)


def evaluate(c, X, Z, l, C):
    """n x dim array of the score at the samples"""
    e = c["est"]
    L = _l(c, l)
    kw = _kw(c, C, L)
    dim = X.shape[1]
    if e in ("sep", "old", "sep2"):
        fn = getattr(S, e)
        cols = []
        for d in range(dim):
            r = _np(sut(fn, X, Z, func_out=flag(c, False), which_dim=d + 1, **kw))
            require(r.reshape(-1).shape == (len(X),), "shape %r instead of one value per sample", r.shape)
            cols.append(r.reshape(-1))
        return np.stack(cols, 1)
    if e == "alld":
        r = _np(sut(S.alld, X, Z, func_out=flag(c, False), **kw))
    else:
        r = _np(sut(S.tscore, X, Z, func_out=flag(c, False), **kw))
    require(r.shape == X.shape, "shape %r instead of %r", r.shape, X.shape)
    return r


def make(c, X, Z, l, C):
    e = c["est"]
    L = _l(c, l)
    kw = _kw(c, C, L)
    if e in ("sep", "old", "sep2"):
        fn = getattr(S, e)
        return [sut(fn, X, Z, func_out=flag(c, True), which_dim=d + 1, **kw) for d in range(X.shape[1])]
    if e == "alld":
        return [sut(S.alld, X, Z, func_out=flag(c, True), **kw)]
    return [sut(S.tscore, X, Z, func_out=flag(c, True), **kw)]


def call(c, fs, Q):
    if c["est"] in ("sep", "old", "sep2"):
        cols = []
        for f in fs:
            r = _np(sut(f, Q))
            require(r.reshape(-1).shape == (len(Q),), "shape %r instead of one value per query point", r.shape)
            cols.append(r.reshape(-1))
        return np.stack(cols, 1)
    r = _np(sut(fs[0], Q))
    require(r.shape == tuple(Q.shape), "shape %r instead of %r", r.shape, tuple(Q.shape))
    return r


def reference(c, X, Z, l, C, at=None):
    return ref.score(X, Z, l, 1e-3 if C is None else C, at=at)


def scales(c, X, Z, l, C, *more):
    """magnitude below which a difference is rounding, per dimension: the values at the
    samples, inducing points and query points, in units of the lengthscales (several
    directions share one ill-conditioned linear system), plus the visible conditioning error"""
    C = 1e-3 if C is None else C
    pts = np.concatenate([np.asarray(a) for a in (X, Z) + more])
    v = ref.score(X, Z, l, C, at=pts)
    u = ref.score_dual(X, Z, l, C, at=pts)
    L = np.broadcast_to(np.asarray(l, float), (X.shape[1],))
    r = (ref.kern(pts, Z, l) @ ref.weights_rounding(X, Z, l, C)).max(0)
    return (np.abs(v).max(0) * L).max() / L + 3e7 * np.abs(u - v).max(0) + 1e-7 * (r * L).max() / L


def pointwise(c, X, Z, l, C, Q):
    """like scales, but per query point: the sum of the kernels times the largest weight. Far from
    all inducing points the estimate is tiny and still accurate relative to this."""
    C = 1e-3 if C is None else C
    L = np.broadcast_to(np.asarray(l, float), (X.shape[1],))
    w, wd = ref.score_weights(X, Z, l, C)[0], ref.weights_dual(X, Z, l, C)
    W = ((np.abs(w) + 3e7 * np.abs(w - wd) + 1e-7 * ref.weights_rounding(X, Z, l, C)).max(0) * L).max() / L
    return ref.kern(Q, Z, l).sum(1)[:, None] * W


def compare(got, want, what, tol=1e-6, scale=None):
    got, want = _np(got), _np(want)
    require(got.shape == want.shape, "%s: shape %r instead of %r", what, got.shape, want.shape)
    if scale is None:
        scale = np.abs(want).max(0)
    lim = tol * np.broadcast_to(scale, want.shape) + 1e-280
    bad = ~(np.abs(got - want) <= lim)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        fail("%s: entry %r is %r, should be %r (scale %.3g)", what, i, float(got[i]), float(want[i]),
             float(np.broadcast_to(scale, want.shape)[i]))


def describe(c, want):
    sp = c["cloud"]
    return dict(nontrivial=sp["n"] >= 5 and sp["m"] >= 2 and float(np.ptp(want)) > 0,
                classes=["dim%d" % sp["dim"], c["est"], "vector l" if c["lvec"] else "scalar l",
                         "l " + c["lkind"], "C=%s" % c["C"], sp["shape"], "z " + sp["z"], "ties: %s" % sp.get("ties"), "whole numbers: %s" % c.get("whole"),
                         "n<m" if sp["n"] < sp["m"] else "n>=m"] +
                        (["more than 250 samples"] if sp["n"] > 250 else []))
