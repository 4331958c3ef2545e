"""End to end, nonlinear: flows and control match a grid solution of the controlled diffusion problem."""
import numpy as np

from vlib import flow, gen, grid, sutmod as S
from vlib.core import Sub, confirmed, require

RULE = ("a generated nonlinear system (double well, periodic force, cubic or saturating drift, time-dependent forcing; 1-3 "
        "dimensions that are independent in a generated rotated frame), target and, for some, a generated non-quadratic path "
        "constraint; means, standard deviations and distribution of both flows and the control are compared with the solution of "
        "the forward and backward equations on a grid; non-trivial: every case")
ASSUMPTIONS = ["300 particles, 50 inducing points, 60-150 steps; targets where the uncontrolled flow has mass",
               "accuracy demanded: two to four times the largest error seen in calibration (see DESIGN.md)",
               "a deviation counts if it is there with 300 and with 900 particles"]

KINDS = ["well", "sine", "cubic", "tanh", "forced"]
POTS = ["quartic", "ramp", "wave", "wall"]


def strat(backend, con):
    def make():
        s = gen.st()
        return s.fixed_dictionaries(dict(
            backend=s.just(backend), dim=s.integers(1, 3 if backend == "numpy" else 2), steps=s.integers(60, 150),
            seed=gen.seeds(), g=s.sampled_from([0.5, 0.8, 1.2]), kinds=s.lists(s.sampled_from(KINDS), min_size=3, max_size=3),
            pots=s.lists(s.sampled_from(POTS), min_size=3, max_size=3) if con else s.just(None),
            amp=s.sampled_from([3.0] if backend == "numpy" else [3.0, 10.0]), scale=s.sampled_from([1.0, 3.0]), t1=s.sampled_from([0.0, 0.5, -1.3]),
            far=s.sampled_from([-1.2, -0.6, 0.0, 0.6, 1.2])))
    return make


def drift1(kind, sc, rng):
    """scalar drift b(z, t), written for numpy and torch alike"""
    c, ph, om = rng.uniform(-0.5, 0.5), rng.uniform(0, 6), rng.uniform(15, 40)
    if kind == "well":
        return lambda z, t, m: 2 * sc * (z - c - (z - c) ** 3)
    if kind == "sine":
        return lambda z, t, m: 2 * sc * m.sin(4 * z + ph)
    if kind == "cubic":
        return lambda z, t, m: -sc * (z - c) ** 3 + sc * 0.5
    if kind == "tanh":
        return lambda z, t, m: -3 * sc * m.tanh(3 * (z - c))
    return lambda z, t, m: sc * (1 - z ** 2) * 0.5 + 3 * sc * m.sin(om * t + ph * m.ones_like(z))


def pot1(kind, amp, c, w, rng):
    """scalar potential u(z, t) of width w around c"""
    ph = rng.uniform(0, 6)
    if kind == "quartic":
        return lambda z, t, m: -amp * ((z - c) / w) ** 4 * 0.3
    if kind == "ramp":
        return lambda z, t, m: amp * (z - c) / w
    if kind == "wave":
        return lambda z, t, m: amp * m.sin(1.5 * (z - c) / w + ph + 20 * t)
    return lambda z, t, m: -2 * amp / (1 + m.exp(-4 * (z - c) / w))


def problem(c):
    rng = np.random.default_rng([61, c["seed"]])
    d, n, g = c["dim"], c["steps"], c["g"]
    Q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    bs = [drift1(c["kinds"][i], c["scale"], rng) for i in range(d)]
    z1 = rng.uniform(-0.8, 0.8, size=d)
    times = c["t1"] + flow.DT * np.arange(n + 1)
    free = [grid.solve(bs[i], None, g, z1[i], times) for i in range(d)]
    us = None
    if c["pots"]:
        us = [pot1(c["pots"][i], c["amp"], free[i].mean[n // 2], free[i].sd[n // 2] + 0.1, rng) for i in range(d)]
    fwd = [grid.solve(bs[i], us[i] if us else None, g, z1[i], times) for i in range(d)]
    v = rng.normal(size=d)
    v /= np.abs(v).max()
    z2 = np.array([fwd[i].quantile(n, 0.5 + 0.5 * 0.7 * np.tanh(c["far"] * v[i])) for i in range(d)])
    for i in range(d):
        fwd[i].bridge(z2[i])
    lib = c["backend"]
    m = S.torch if lib == "torch" else np
    R = S.torch.tensor(Q, dtype=S.torch.float64) if lib == "torch" else Q
    stack = (lambda r: S.torch.stack(r)) if lib == "torch" else np.stack

    def f(x, t):
        z = R.T @ x
        return R @ stack([bs[i](z[i], t, m) for i in range(d)])

    def U(x, t):
        z = R.T @ x
        return sum(us[i](z[i], t, m) for i in range(d))
    p = dict(backend=lib, sys=dict(dim=d, kind="linear", seed=0, scale=1.0), steps=n, N=c.get("N", 300), M=c.get("M", 50), t1=c["t1"],
             seed=c["seed"], g=g, gkind="scalar", det=True, bb=False, y1scale=1.0, far=0.0,
             U=dict(kind="quadratic", seed=0, amp=1.0) if us else None)
    r = flow.build(p, record=False, f=f, U=U if us else None, y1=Q @ z1, y2=Q @ z2, g=g)
    r.drift = lambda x, i: Q @ np.stack([bs[e]((Q.T @ x)[e], times[i], np) for e in range(d)])
    return r, Q, fwd


def measure(c):
    r, Q, fwd = problem(c)
    d, n = c["dim"], c["steps"]
    out, ctl = [], []
    for name, F in (("forward", r.Z), ("backward", r.B)):
        for q in (0.15, 0.3, 0.5, 0.7, 0.85) + ((1.0,) if name == "forward" else ()):
            i = int(round(q * n))
            z = Q.T @ F[:, :, i]
            for e in range(d):
                mean, sd = fwd[e].stats(name, i)
                out.append((name, i, abs(z[e].mean() - mean) / sd, abs(z[e].std() / sd - 1), fwd[e].wasserstein(name, i, z[e]) / sd))
    rng = np.random.default_rng([62, c["seed"]])
    for q in (0.3, 0.5, 0.7):
        i = int(round(q * n))
        z = np.array([fwd[e].draw("backward", i, rng, 12) for e in range(d)])
        want = np.array([fwd[e].control(i, z[e]) for e in range(d)])
        got = Q.T @ np.mean([flow.calc_u(r, (Q @ z).T, i, seed=k) for k in range(6)], 0)
        sd = np.array([fwd[e].stats("backward", i)[1] for e in range(d)])[:, None]
        ctl.append((i, np.sqrt((((got - want) * sd) ** 2).mean())))
    return out, ctl


# the numpy flows use the Euclidean distance as transport cost and spread too far apart when reweighted (DESIGN.md)
LIMITS = (0.3, 0.15, 0.4, 0.3)
LIMITS_NUMPY_CONSTRAINED = (0.7, 0.5, 0.8, 0.7)


def problems(c):
    """the deviations beyond the limits, as messages"""
    out, ctl = measure(c)
    lm, ls, lw, lu = LIMITS_NUMPY_CONSTRAINED if c["pots"] and c["backend"] == "numpy" else LIMITS
    bad = []
    for name, i, em, es, ew in out:
        at = "%s flow at step %d of %d: " % (name, i, c["steps"])
        if not em <= lm:
            bad.append(at + "mean off by %.3g exact standard deviations" % em)
        if not es <= ls:
            bad.append(at + "standard deviation off by %.3g" % es)
        if not ew <= lw:
            bad.append(at + "distribution off by %.3g exact standard deviations" % ew)
    for i, e in ctl:
        if not e <= lu:
            bad.append("control at step %d of %d: off by %.3g (in units of one over the bridge's width)" % (i, c["steps"], e))
    return bad


def check(c):
    bad = problems(c)
    again = False
    if bad and c.get("N", 300) < 900:
        # heavy tails need more particles than others: what counts is the limit of many particles
        bad = problems(dict(c, N=900, M=100))
        again = True
    require(not bad, "%s", "; ".join(bad[:3]) + " (with 300 and with 900 particles)")
    return dict(nontrivial=True, classes=[c["backend"], "dim%d" % c["dim"], "t1=%g" % c["t1"]] + c["kinds"][:c["dim"]]
                + (c["pots"][:c["dim"]] if c["pots"] else ["no constraint"]) + (["confirmed with 900 particles"] if again else []))


def steer(c, K=120):
    """simulate the controlled system with noise of the harness; deviations of its law from the exact bridge, in units of the
    spread of the forward flow (of the whole way for the end)"""
    r, Q, fwd = problem(c)
    rng = np.random.default_rng([63, c["seed"]])
    d, n, g = c["dim"], c["steps"], c["g"]
    x = np.repeat(r.y1.reshape(d, 1), K, 1)
    look = {int(round(q * n)) for q in (0.3, 0.6, 0.8)} | {n - 1}
    out = []
    for i in range(n - 1):
        u = flow.calc_u(r, x.T, i, seed=i) if i > 0 else np.zeros((d, K))
        x = x + flow.DT * (r.drift(x, i) + g ** 2 * u) + g * np.sqrt(flow.DT) * rng.normal(size=(d, K))
        if i + 1 in look:
            z = Q.T @ x
            for e in range(d):
                mean, sd = fwd[e].stats("backward", i + 1)
                free = fwd[e].stats("forward", i + 1)[1]
                out.append((i + 1, abs(z[e].mean() - mean) / free, abs(z[e].std() - sd) / free,
                            fwd[e].wasserstein("backward", i + 1, z[e]) / free))
    return out


# largest errors in calibration (56 problems): 0.23, 0.27, 0.27 on the way, 0.06, 0.11, 0.11 at the end
STEER, STEER_END = (0.5, 0.5, 0.55), (0.2, 0.25, 0.25)


def check_steer(c):
    for i, em, es, ew in steer(c):
        lim = STEER_END if i == c["steps"] - 1 else STEER
        require(em <= lim[0], "step %d of %d: mean of the controlled system is %.3g free standard deviations from the bridge", i, c["steps"], em)
        require(es <= lim[1], "step %d of %d: spread of the controlled system is off by %.3g free standard deviations", i, c["steps"], es)
        require(ew <= lim[2], "step %d of %d: the controlled system is %.3g free standard deviations from the bridge's law", i, c["steps"], ew)
    return dict(nontrivial=True, classes=[c["backend"], "dim%d" % c["dim"], "steered"] + c["kinds"][:c["dim"]])


SUBS = [Sub("numpy", strat("numpy", False), check, 16, 500, 5, qshards=2),
        Sub("pytorch", strat("torch", False), check, 16, 500, 5, qshards=2),
        Sub("constrained numpy", strat("numpy", True), check, 16, 400, 5, qshards=2),
        Sub("constrained pytorch", strat("torch", True), check, 16, 400, 5, qshards=2),
        Sub("steering numpy", lambda: gen.st().one_of(strat("numpy", False)(), strat("numpy", True)()), confirmed(check_steer, N=900, M=100), 10, 200, 3),
        Sub("steering pytorch", lambda: gen.st().one_of(strat("torch", False)(), strat("torch", True)()), confirmed(check_steer, N=900, M=100), 10, 200, 3)]
