"""The flows and the control do not depend on the frame the problem is stated in."""
import numpy as np

from vlib import flow, gen, sutmod as S
from vlib.core import Sub, require

RULE = ("a generated control problem solved twice with the same random seed, the second time in a translated, rescaled "
        "(per dimension), uniformly moving or time-shifted frame; both flows and the control must transform accordingly; "
        "non-trivial: at least 4 steps and dimension or steps beyond the smallest")
ASSUMPTIONS = ["rounding: 2e-5 (forward) and 1e-2 (backward) of the spread of the flows (the estimator's linear systems amplify "
               "rounding); more where a displacement of the target by 1e-10 moves the backward flow by more than 1e-4"]

OPS = ["translate", "translate", "scale", "uniform scale", "boost", "time shift", "all"]


def strat(backend):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            p = draw(flow.problem([backend], dims=flow.WIDE, steps=(3, 25), reweight=(False, False, True), gs=("scalar", "column"),
                                  det=(True, True, True, False), bb=(False, False, True), N=(15, 50), M=(5, 30),
                                  t1s=(0.0, 0.5, -1.3, 0.12345), grow=True))
            if p["bb"]:
                p["det"] = True
            p["op"] = draw(s.sampled_from(OPS))
            if p["U"]:
                # distances change under unequal scaling, and on a line several plans are optimal
                if p["op"] in ("scale", "all"):
                    p["op"] = "uniform scale"
                p["U"]["amp"] = min(p["U"]["amp"], 30.0)
                if p["sys"]["dim"] == 1:
                    p["U"], p["bb"] = None, False
            p["pos"] = draw(s.integers(0, 10 ** 6))
            return p
        return draw_case()
    return make


def conv(lib, a):
    return S.torch.tensor(np.array(a), dtype=S.torch.float64) if lib == "torch" else np.array(a)


def check(p):
    d, n, lib = p["sys"]["dim"], p["steps"], p["backend"]
    rng = np.random.default_rng([43, p["seed"], p["pos"]])
    op = p["op"]
    a, c, v, s = np.ones(d), np.zeros(d), np.zeros(d), 0.0
    if op in ("translate", "all"):
        # rounding of POT's squared distances can select another of several almost optimal plans
        far = (2e5 if not (p["U"] and lib == "torch") else 100) * p["g"] * np.sqrt(p["steps"] * flow.DT)
        c = rng.normal(size=d) * rng.choice([0.5, 5.0, 100.0, far])
    if op in ("scale", "all"):
        a = np.exp(rng.uniform(-1.5, 1.5, size=d))
    if op == "uniform scale":
        a = np.full(d, np.exp(rng.uniform(-2, 2)) * rng.choice([1.0, 1.0, 1e-3, 1e3]))
    if op in ("boost", "all"):
        v = rng.normal(size=d) * 10.0
    if op in ("time shift", "all"):
        s = float(rng.choice([1.0, -0.7, 3.3, 50.0, 500.0]))
    more = compare(p, a, c, v, s, rng, op)
    return dict(nontrivial=n >= 4, classes=flow.classes(p) + [op] + (more or []))


def compare(p, a, c, v, s, rng, op, g=None):
    """solves p as it is and in the frame x' = a x + c + v (t' - t1'), t' = t + s"""
    lib, d = p["backend"], p["sys"]["dim"]
    t1, t2 = flow.times(p)
    y1, y2 = flow.endpoints(p)
    base = flow.build(p, record=False)
    A, C, Vv = (conv(lib, q[:, None]) for q in (a, c, v))

    def old(x, t):
        return (x - C - Vv * (t - s - t1)) / A, t - s

    def f2(x, t):
        return A * base.f(*old(x, t)) + Vv

    def ft2(x, t):
        return A * base.f_true(*old(x, t)) + Vv

    def U2(x, t):
        return base.U(*old(x, t))
    col = not np.allclose(a, a[0]) or p["gkind"] == "column"
    if g is None:
        g = (flow.gvec(p) * a)[:, None] if col else float(flow.gvec(p)[0] * a[0])
    q = dict(p, t1=t1 + s)
    moved = flow.build(q, record=False, f=f2, U=U2 if base.U else None, f_true=ft2 if p["bb"] else None, g=g,
                       y1=a * y1 + c, y2=a * y2 + c + v * (t2 - t1), t=(t1 + s, t2 + s))
    require(moved.k == base.k, "%d grid points instead of %d", moved.k, base.k)
    tau = base.t - t1
    trans = lambda x: a[:, None, None] * x + c[:, None, None] + v[:, None, None] * tau[None, None, :]
    flows = [("forward", base.Z, moved.Z), ("backward", base.B, moved.B)]
    if p["bb"]:
        flows.insert(0, ("uncontrolled", base.Ztr, moved.Ztr))
    for name, x, y in flows:
        sc = np.maximum(x.std(1).max(1), 1e-12) * a
        z = trans(x)
        if name == "backward":          # the first and last slices are the given end points
            z[:, :, 0] = (a * y1 + c)[:, None]
        e = (np.abs(z - y) / sc[:, None, None]).max(axis=(0, 1))
        tol = (1e-2 if name == "backward" else 2e-5) + 1e-9 * np.abs(y).max() / sc.min()
        bad = np.where(~(e <= tol))[0]
        if len(bad) and np.isfinite(e).all() and e.max() < 0.3:
            # extrapolated scores can make the flows chaotic: compare with the effect of a tiny displacement
            near = flow.build(p, record=False, **({"y2": y2 + 1e-10 * sc / a} if name == "backward" else {"y1": y1 + 1e-10 * sc / a}))
            now = {"forward": "Z", "backward": "B", "uncontrolled": "Ztr"}[name]
            tol = tol + 100 * (np.abs(getattr(near, now) - getattr(base, now)) / (sc / a)[:, None, None]).max()
            bad = np.where(~(e <= tol))[0]
        if len(bad) and name == "forward" and p["U"]:
            # two transports of almost the same cost: a few particles exchange some mass, the mean stays
            i = bad[0]
            off = np.abs(z[:, :, i] - y[:, :, i]) / sc[:, None]
            mean = np.abs(z[:, :, i].mean(1) - y[:, :, i].mean(1)) / sc
            if (off.max(0) > tol.max()).sum() <= max(4, y.shape[1] // 10) and off.max() <= 0.3 and mean.max() <= tol.max():
                return ["tied transports"]
        require(not len(bad), "%s: the %s flow is off by %.3g spreads (first at index %d of %d)", op, name,
                e.max(), bad[0] if len(bad) else 0, base.k - 1)
    idx = list(range(1, base.k - 1))
    ti = idx[p["pos"] % len(idx)]
    b = base.B[:, :, ti]
    x = b[:, rng.integers(0, b.shape[1], 5)].T
    x2 = a * x + c + v * tau[ti]
    u = flow.calc_u(base, x, ti, seed=5)
    u2 = flow.calc_u(moved, x2, ti, seed=5)
    e = (np.abs(u2 * a[:, None] - u) / (np.abs(u).max() + (1 / base.Z[:, :, ti].std(1)).max())).max()
    require(e <= 1e-3, "%s: the control at index %d of %d is off by %.3g of its size", op, ti, base.k - 1, e)


SUBS = [Sub("numpy", strat("numpy"), check, 600, 6000, 4, qshards=3),
        Sub("pytorch", strat("torch"), check, 600, 6000, 4, qshards=3)]
