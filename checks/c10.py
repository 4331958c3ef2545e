"""Storage of the flows: grid, shapes, boundary values, for every accepted way to state the problem."""
import numpy as np

from vlib import flow, gen, sutmod as S
from vlib.core import Sub, require, sut

RULE = ("a generated control problem (backend, drift, noise, dimension 1-4, horizon of 1-40 steps, start time, numbers of "
        "particles and inducing points, path constraint, bridge mode, stochastic mode), stated with the end points in a "
        "generated container and an end time on or off the 0.001 grid; non-trivial: at least two steps")
ASSUMPTIONS = ["diffusion > 0", "horizons up to 40 steps (one sub-check up to 300)"]

CONT = ["array", "list", "tuple", "column", "int array", "int list", "tensor", "float32", "mixed list", "mixed tuple"]


def strat(backends, steps, det=(True, True, False), dims=flow.WIDE, **kw):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            p = draw(flow.problem(backends, dims=dims, steps=steps, bb=(False, False, False, True),
                                  det=det, gs=("scalar", "column"), **dict(dict(reweight=(False, False, True)), **kw)))
            p["cont"] = draw(s.sampled_from(CONT))
            p["frac"] = draw(s.sampled_from([0.0, 0.0, 0.3, -0.3, 0.44, -0.44]))
            p["integer_times"] = draw(s.integers(0, 9)) == 0
            if p["bb"]:
                p["det"] = True
                p["gkind"] = "scalar"
            return p
        return draw_case()
    return make


def contain(v, kind):
    if kind == "list":
        return [float(a) for a in v]
    if kind == "tuple":
        return tuple(float(a) for a in v)
    if kind == "column":
        return np.array(v)[:, None]
    if kind == "int array":
        return np.array(v).astype(int)
    if kind == "int list":
        return [int(a) for a in v]
    if kind.startswith("mixed"):         # [1, 0.5]
        v = [int(v[0])] + [float(a) for a in v[1:]]
        return v if kind == "mixed list" else tuple(v)
    if kind == "float32":
        return np.array(v, dtype=np.float32)
    if kind == "tensor":
        return S.torch.tensor(np.array(v), dtype=S.torch.float64)
    return np.array(v)


def plain(v):
    return flow.npa(v).reshape(-1)


def check(p):
    p = dict(p)
    kind = p["cont"]
    if kind == "tensor" and p["backend"] == "numpy":
        kind = "array"
    t1, t2 = flow.times(p)
    n = p["steps"]
    if p["integer_times"]:
        t1, t2 = (1 - n * flow.DT, 1) if p["seed"] % 2 else (2, 2 + n * flow.DT)
        p = dict(p, t1=t1)
    elif p["frac"] and n > 1:
        t2 = t2 + p["frac"] * flow.DT
    a, b = flow.endpoints(p)
    if kind.startswith("int"):
        b = np.round(b)
        a = np.round(a)
    elif kind.startswith("mixed"):
        a[0], b[0] = np.round(a[0]), np.round(b[0])
    y1, y2 = contain(a, kind), contain(b, kind)
    k1, k2 = plain(y1).copy(), plain(y2).copy()
    g = flow.gvalue(p)
    g0 = np.array(g, copy=True)
    extra = {}
    if p["backend"] == "torch":
        extra["tensor_ends"] = False
    f = flow.bridge_drift(dict(p), k2, p["backend"]) if p["bb"] else None
    r = flow.build(p, record=False, y1=y1, y2=y2, t=(t1, t2), g=g, f=f, **extra)
    d, N = p["sys"]["dim"], p["N"]
    t = r.t
    require(t.ndim == 1 and len(t) == n + 1 == r.k,
            "%d grid points (k = %d) for %d steps of 0.001 from %r to %r", len(t), r.k, n, t1, t2)
    require(abs(t[0] - t1) <= 1e-12 * max(1, abs(t1)), "the grid starts at %r instead of %r", t[0], t1)
    require(np.abs(np.diff(t) - flow.DT).max() <= 1e-9, "the grid is not spaced by 0.001")
    require(abs(t[-1] - t2) <= flow.DT / 2 + 1e-9, "the grid ends at %r, the horizon at %r", t[-1], t2)
    flows = [("forward", r.Z), ("backward", r.B)]
    if p["bb"]:
        flows.append(("uncontrolled", r.Ztr))
    for name, x in flows:
        require(x.shape == (d, N, n + 1), "the %s flow has shape %r instead of %r", name, x.shape, (d, N, n + 1))
        require(np.isfinite(x).all(), "the %s flow is not finite", name)
    for name, x in (("Z", r.obj.Z), ("B", r.obj.B)):
        require(str(x.dtype).endswith("float64"), "%s has type %s", name, x.dtype)
    require(np.array_equal(r.Z[:, :, 0], np.tile(k1[:, None], N)), "the forward flow does not start at the initial state")
    if p["bb"]:
        require(np.array_equal(r.Ztr[:, :, 0], np.tile(k1[:, None], N)),
                "the uncontrolled flow does not start at the initial state")
    require(np.array_equal(r.B[:, :, -1], np.tile(k2[:, None], N)), "the backward flow does not end at the target")
    require(np.array_equal(r.B[:, :, 0], np.tile(k1[:, None], N)), "the backward flow does not begin at the initial state")
    if n >= 2:
        for i in range(1, n):
            require((r.Z[:, :, i] != r.B[:, :, i]).any(), "the backward flow is the forward flow at step %d of %d", i, n)
    for name, x, idx in [(nm, x, range(1, n + 1) if nm != "backward" else range(1, n)) for nm, x in flows]:
        for i in idx:
            require((np.ptp(x[:, :, i], axis=1) > 0).all(), "the %s flow collapses to a point at step %d of %d", name, i, n)
        # consecutive steps of a diffusion with dt = 0.001 are close, and never equal
        steps = np.abs(np.diff(x, axis=2)).max(axis=(0, 1))
        lo, hi = (0, n) if name != "backward" else (1, n)
        if n <= 60 or not p["U"]:       # a long-lasting constraint takes the forward flow out of the target's sight
            require((steps[lo:hi] > 0).all(), "the %s flow stands still", name)
    require(np.array_equal(plain(y1), k1) and np.array_equal(plain(y2), k2), "the end points were modified")
    require(np.array_equal(np.asarray(g), g0), "the diffusion coefficient was modified")
    return dict(nontrivial=n >= 2, classes=flow.classes(p) + ["end points as " + kind,
                "off-grid end" if p["frac"] and not p["integer_times"] else "end on grid",
                "integer time" if p["integer_times"] else "float time", "k=%s" % (n + 1 if n < 4 else "4+")])


EXAMPLE = dict(det=(True,), N=(40, 50), M=(10, 20), dims=(1, 1, 2, 3), kinds=("zero", "const", "linear", "forced"), scale=0.5,
               reweight=(False, False, False, True))
SUBS = [Sub("numpy", strat(["numpy"], (1, 40)), check, 480, 5000, 4, qshards=2),
        Sub("pytorch", strat(["torch"], (1, 40)), check, 360, 4000, 4, qshards=2),
        Sub("longer horizons", strat(["numpy", "torch"], (60, 300), det=(True,), N=(40, 80), M=(15, 40),
                                   kinds=("zero", "const", "linear", "forced"), scale=1.0), check, 36, 250, 2),
        Sub("example sized numpy", strat(["numpy"], (600, 4000), **EXAMPLE), check, 14, 120, 3),
        Sub("example sized pytorch", strat(["torch"], (600, 4000), **EXAMPLE), check, 10, 120, 3)]
