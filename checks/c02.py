"""Pairwise distances equal their definition."""
import math

import numpy as np

from vlib import gen, sutmod as S
from vlib.core import Sub, require, sut

RULE = ("two generated point sets (drawn coordinates, or seeded clouds), a metric, memory layouts and "
        "number types; non-trivial: at least 2x2 pairs with a non-zero distance")
ASSUMPTIONS = ["coordinates finite (the routine is compiled with fast-math), differences whose squares do not underflow"]


RELATED = [None] * 8 + ["same object", "copy", "ends shared", "one row", "permuted", "lattice", "shifted"]


def related(r, y, how, rng):
    """a second point set that has something to do with the first one"""
    if how == "same object":
        return r, r
    if how == "lattice":
        h = 0.5 * r.std() or 1.0
        return np.round(r / h) * h, np.round(y / h) * h
    y = r.copy()
    if how == "ends shared":            # of one size, with the corners in common
        y = rng.permutation(r)
        y[0], y[-1] = r[0], r[-1]
    elif how == "one row":
        y[rng.integers(len(y))] = r[rng.integers(len(r))] + r.std()
    elif how == "permuted":
        y = rng.permutation(r)
    elif how == "shifted":
        y = np.roll(r, 1, axis=0)
    return r, y


def strat(layouts, dtypes, big):
    def make():
        s = gen.st()
        coord = s.one_of(s.integers(-4, 4).map(float), gen.floats(-1e3, 1e3), gen.floats(-1e-3, 1e-3))

        @s.composite
        def case(draw):
            lay = draw(s.sampled_from(layouts))
            dt = draw(s.sampled_from(dtypes))
            m = draw(s.integers(1, 6))
            metric = draw(s.sampled_from(["euclidean", "sqeuclidean", "l1", "default"]))
            if draw(s.integers(0, 2)) and big:
                n, n2 = draw(s.integers(1, big)), draw(s.integers(1, big))
                return dict(layout=lay, dtype=dt, metric=metric, n=n, n2=n2, m=draw(s.integers(1, 12)),
                            seed=draw(gen.seeds()), scale=draw(s.sampled_from([1.0, 1e-4, 1e4])),
                            offset=draw(s.sampled_from([0.0, 0.0, 1.0, 1e3, -1e5, 1e7])), rel=draw(s.sampled_from(RELATED)),
                            fill=draw(s.sampled_from([0.0, 7.5, -1.0])))
            n, n2 = draw(s.integers(1, 5)), draw(s.integers(1, 5))
            r = draw(s.lists(s.lists(coord, min_size=m, max_size=m), min_size=n, max_size=n))
            y = draw(s.lists(s.lists(coord, min_size=m, max_size=m), min_size=n2, max_size=n2))
            return dict(layout=lay, dtype=dt, metric=metric, r=r, y=y,
                        fill=draw(s.sampled_from([0.0, 7.5, -1.0])))
        return case()
    return make


def strat_many():
    """many rows and few columns, as with thousands of particles, or the other way around"""
    s = gen.st()

    @s.composite
    def case(draw):
        n = draw(s.one_of(s.integers(300, 700), s.integers(500, 3000), s.sampled_from([512, 513, 1000, 1023, 1024, 1025, 2048, 2500])))
        n2 = draw(s.one_of(s.integers(1, 12), s.integers(1, 60), s.integers(200, 600)))
        m = draw(s.sampled_from([1, 2, 3, 4, 6, 12]))
        if draw(s.integers(0, 9)) == 9:
            n, n2, m = draw(s.integers(1, 20)), draw(s.integers(1, 20)), draw(s.integers(30, 700))
        if draw(s.booleans()):
            n, n2 = n2, n
        return dict(layout="C", dtype="float64", metric=draw(s.sampled_from(["euclidean", "sqeuclidean", "l1", "default"])),
                    n=n, n2=n2, m=m, seed=draw(gen.seeds()), scale=draw(s.sampled_from([1.0, 1e-4, 1e4])),
                    offset=draw(s.sampled_from([0.0, 0.0, 1.0, 1e3, -1e5])), fill=draw(s.sampled_from([0.0, 7.5, -1.0])))
    return case()


def lay(a, kind):
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "strided":
        big = np.full((a.shape[0], 2 * a.shape[1]), 123, dtype=a.dtype)
        v = big[:, ::2]
        v[...] = a
        return v
    if kind == "columns":
        big = np.full((a.shape[0], a.shape[1] + 2), 55, dtype=a.dtype)
        v = big[:, 1:-1]
        v[...] = a
        return v
    return np.ascontiguousarray(a)


def reference(r, y, metric):
    r = r.astype(float)
    y = y.astype(float)
    out = np.empty((len(r), len(y)))
    for i in range(len(r)):
        d = np.abs(r[i] - y)
        if metric == "l1":
            out[i] = d.sum(1)
        elif metric == "sqeuclidean":
            out[i] = (d * d).sum(1)
        else:
            out[i] = np.sqrt((d * d).sum(1))
    return out


def check(case):
    if "r" in case:
        r, y = np.array(case["r"], float), np.array(case["y"], float)
    else:
        rng = np.random.default_rng(case["seed"])
        r = rng.normal(size=(case["n"], case["m"])) * case["scale"]
        y = rng.normal(size=(case["n2"], case["m"])) * case["scale"]
        off = case.get("offset", 0.0) * (1.0 + np.arange(case["m"]))
        r, y = r + off, y + off
        if case.get("rel"):
            r, y = related(r, y, case["rel"], rng)
    dt = case["dtype"]
    if dt == "int64":
        r, y = np.round(r).astype(np.int64), np.round(y).astype(np.int64)
    elif dt == "float32":
        r, y = r.astype(np.float32), y.astype(np.float32)
    same = y is r
    r, y = lay(r, case["layout"]), lay(y, case["layout"])
    if same and dt == "float64":
        y = r
    out = np.full((r.shape[0], y.shape[0]), case["fill"])
    if case["layout"] == "F":
        out = np.asfortranarray(out)
    r0, y0 = r.copy(), y.copy()
    metric = case["metric"]
    if metric == "default":
        sut(S.my_cdist, r, y, out)
        metric = "euclidean"
    else:
        sut(S.my_cdist, r, y, out, metric)
    require(np.array_equal(r, r0) and np.array_equal(y, y0), "an input array was modified")
    want = reference(r, y, metric)
    # a difference of two numbers is exact to rounding, so distances are accurate relative to themselves, wherever the points are
    # (up to underflow of the squares)
    tiny = {"l1": 1e-290, "sqeuclidean": 1e-280}.get(metric, 1e-140) if dt != "float32" else \
        {"l1": 1e-36, "sqeuclidean": 1e-35}.get(metric, 1e-17)
    tol = (1e-9 if dt != "float32" else 2e-5) * want + tiny
    bad = ~(np.abs(out - want) <= tol)
    if bad.any():
        i, j = map(int, np.argwhere(bad)[0])
        require(False, "%s distance of rows %d and %d is %r, should be %r", metric, i, j,
                float(out[i, j]), float(want[i, j]))
    return dict(nontrivial=r.shape[0] >= 2 and y.shape[0] >= 2 and want.max() > 0,
                classes=[case["metric"], case["layout"], dt,
                         "n<n2" if len(r) < len(y) else "n>=n2",
                         "huge" if max(len(r), len(y)) > 300 else "large" if max(len(r), len(y)) > 64 else "small"] + (["far from the origin"] if case.get("offset") else []) +
                        (["second set: " + case["rel"]] if case.get("rel") else []))


SUBS = [
    Sub("contiguous", strat(["C"], ["float64"], 300), check, 500, 20000, 2),
    Sub("many rows", strat_many, check, 250, 4000, 2),
    Sub("layouts", strat(["F", "strided", "columns"], ["float64"], 40), check, 300, 10000, 2),
    Sub("number types", strat(["C"], ["float32", "int64"], 40), check, 250, 10000, 2),
]
