"""End to end: for linear systems the flows, the control and the controlled system match the exact solution."""
import numpy as np

from vlib import flow, gen, lg, sutmod as S
from vlib.core import Sub, confirmed, require

RULE = ("a generated linear system (1-3 dimensions, coupled, with constant or periodic forcing, any start time, scalar or "
        "per-dimension noise, both backends, deterministic or stochastic particles), a generated target and, for some, a "
        "generated quadratic path constraint; means and standard deviations of both flows and the control are compared with the "
        "exact Gaussian solution, and the system simulated under the control must follow the exact bridge to the target; "
        "non-trivial: every case")
ASSUMPTIONS = ["300-400 particles, 50 inducing points, 60-250 steps, targets within 1.2 standard deviations",
               "two dimensions at most with pytorch: its box of inducing points spans both flows, and 50 points fill it thinly in three",
               "accuracy demanded: about four times the largest error seen in calibration (see DESIGN.md); a deviation counts if "
               "it is still there with 900 particles and 100 inducing points"]


def strat(backend, mode):
    def make():
        s = gen.st()
        return s.fixed_dictionaries(dict(
            backend=s.just(backend), mode=s.just(mode), dim=s.integers(1, 3 if backend == "numpy" else 2), steps=s.integers(60, 250 if mode != "steer" else 120),
            seed=gen.seeds(), g=s.sampled_from([0.3, 0.6, 1.0, 0.02]), gkind=s.sampled_from(["scalar", "column"]),
            t1=s.sampled_from([0.0, 0.5, -1.3, 7.25]), forced=s.booleans(), far=s.sampled_from([0.0, 0.6, 1.2]),
            con=s.sampled_from([5.0, 20.0]) if mode == "constrained" else s.just(0.0), N=s.sampled_from([300, 400])))
    return make


def system(c):
    rng = np.random.default_rng([31, c["seed"]])
    d, n = c["dim"], c["steps"]
    A = rng.normal(size=(d, d)) * 1.5 / np.sqrt(d) - np.eye(d)
    b0, b1, ph = rng.normal(size=d), rng.normal(size=d) * 3 * c["forced"] * min(1.0, c["g"] / 0.3), rng.uniform(0, 6, size=d)
    om = 25.0
    g = np.full(d, c["g"])
    if c["gkind"] == "column":
        g = g * np.exp(rng.uniform(-0.6, 0.6, size=d))
    y1 = rng.normal(size=d) * 0.5
    times = c["t1"] + flow.DT * np.arange(n + 1)
    b = lambda i: b0 + b1 * np.sin(om * times[i] + ph)
    R = rng.normal(size=(d, d))
    con = c["con"] * min(1.0, 0.5 / c["g"]) ** 2        # strength relative to the noise
    Q = (0.3 * np.eye(d) + 0.7 * R @ R.T / np.trace(R @ R.T)) * con if c["con"] else None
    cen = y1 + rng.normal(size=d) * 0.2
    filt, pred = lg.forward(A, b, g, Q, lambda i: cen, y1, n, flow.DT)
    v = rng.normal(size=d)
    v /= np.linalg.norm(v)
    y2 = filt[-1][0] + c["far"] * np.linalg.cholesky(filt[-1][1]) @ v
    sm = lg.smooth(filt, pred, A, y2, flow.DT)
    lib = c["backend"]
    if lib == "torch":
        t = lambda a: S.torch.tensor(a, dtype=S.torch.float64)
        At, b0t, b1t, pht, ct, Qt = t(A), t(b0)[:, None], t(b1)[:, None], t(ph)[:, None], t(cen)[:, None], t(Q if c["con"] else A)
        sin = S.torch.sin
    else:
        At, b0t, b1t, pht, ct, Qt, sin = A, b0[:, None], b1[:, None], ph[:, None], cen[:, None], Q, np.sin
    f = lambda x, t: At @ x + b0t + b1t * sin(om * t + pht)
    U = (lambda x, t: -((x - ct) * (Qt @ (x - ct))).sum(0)) if c["con"] else None
    fn = lambda x, i: A @ x + b(i)[:, None]
    return A, g, y1, y2, f, U, filt, sm, fn


def solve(c):
    A, g, y1, y2, f, U, filt, sm, fn = system(c)
    p = dict(backend=c["backend"], sys=dict(dim=c["dim"], kind="linear", seed=0, scale=1.0), steps=c["steps"], N=c["N"], M=c.get("M", 50),
             t1=c["t1"], seed=c["seed"], g=c["g"], gkind="scalar", det=c["mode"] != "stochastic", bb=False, y1scale=1.0, far=0.0,
             U=dict(kind="quadratic", seed=0, amp=1.0) if U else None)
    r = flow.build(p, record=False, f=f, U=U, y1=y1, y2=y2, g=g[:, None] if c["gkind"] == "column" else c["g"])
    return r, g, filt, sm, fn


LIMITS = {"plain": (0.25, 0.15, 0.3), "constrained": (0.5, 0.35, None), "stochastic": (0.75, 0.45, None)}


def classes(c):
    return [c["backend"], "dim%d" % c["dim"], c["mode"], "forced" if c["forced"] else "autonomous", "t1=%g" % c["t1"]]


def score(mP, x):
    return -np.linalg.solve(mP[1], x - mP[0][:, None])


def measure(c):
    r, g, filt, sm, fn = solve(c)
    out = []
    for name, F, R in (("forward", r.Z, filt), ("backward", r.B, sm)):
        for q in (0.15, 0.3, 0.5, 0.7, 0.85) + ((1.0,) if name == "forward" else ()):
            i = int(round(q * c["steps"]))
            m, P = R[i]
            sd = np.sqrt(np.diag(P))
            out.append((name, i, np.abs((F[:, :, i].mean(1) - m) / sd).max(), np.abs(F[:, :, i].std(1) / sd - 1).max()))
            if c["dim"] > 1:
                Ci = np.cov(F[:, :, i])
                out[-1] += (np.abs((Ci - P) / np.outer(sd, sd)).max(),)
            else:
                out[-1] += (0.0,)
    rng = np.random.default_rng([37, c["seed"]])
    ctl = []
    if c["mode"] == "plain":
        for q in (0.3, 0.5, 0.7):
            i = int(round(q * c["steps"]))
            m, P = sm[i]
            x = m[:, None] + np.linalg.cholesky(P) @ rng.normal(size=(c["dim"], 12))
            want = score(sm[i], x) - score(filt[i], x)
            got = np.mean([flow.calc_u(r, x.T, i, seed=k) for k in range(6)], 0)
            L = np.sqrt(np.diag(P))[:, None]
            ctl.append((i, np.sqrt((((got - want) * L) ** 2).mean()) / np.sqrt(((score(sm[i], x) * L) ** 2).mean())))
    return out, ctl


def check(c):
    out, ctl = measure(c)
    lm, ls, lu = LIMITS[c["mode"]]
    for name, i, em, es, ec in out:
        require(em <= lm, "%s flow at step %d of %d: mean off by %.3g exact standard deviations", name, i, c["steps"], em)
        require(es <= ls, "%s flow at step %d of %d: standard deviation off by %.3g", name, i, c["steps"], es)
        require(ec <= 2.2 * ls, "%s flow at step %d of %d: covariance off by %.3g", name, i, c["steps"], ec)
    for i, e in ctl:
        require(e <= lu, "control at step %d of %d: relative error %.3g", i, c["steps"], e)
    return dict(nontrivial=True, classes=classes(c))


def steer(c, K=150):
    """simulate the controlled system with the exact noise law"""
    r, g, filt, sm, fn = solve(c)
    rng = np.random.default_rng([41, c["seed"]])
    d, n = c["dim"], c["steps"]
    gc = g[:, None]
    x = np.repeat(r.y1[:, None], K, 1)
    out = []
    look = {int(round(q * n)) for q in (0.3, 0.6, 0.8)} | {n - 1}
    for i in range(n - 1):
        u = flow.calc_u(r, x.T, i, seed=i) if i > 0 else np.zeros((d, K))
        x = x + flow.DT * (fn(x, i) + gc ** 2 * u) + gc * np.sqrt(flow.DT) * rng.normal(size=(d, K))
        if i + 1 in look:
            m, P = sm[i + 1]
            sd = np.sqrt(np.diag(P))
            out.append((i + 1, np.abs((x.mean(1) - m) / sd).max() * np.sqrt(K), np.abs(x.std(1) / sd - 1).max(),
                        np.abs(x.mean(1) - m).max(), np.abs(x.std(1) - sd).max(), np.sqrt(np.diag(filt[i + 1][1])).min()))
    return out


def check_steer(c):
    for i, zm, es, am, asd, free in steer(c):
        last = i == c["steps"] - 1
        lim = 0.25 if last else 0.65
        require(am <= lim * free, "step %d of %d: the controlled system is %.3g free standard deviations from the bridge", i,
                c["steps"], am / free)
        require(asd <= lim * free, "step %d of %d: the spread of the controlled system is off by %.3g free standard deviations", i,
                c["steps"], asd / free)
    return dict(nontrivial=True, classes=classes(c))


# the exact solution is the limit of many particles
MORE = dict(N=900, M=100)
SUBS = [Sub("flows numpy", strat("numpy", "plain"), confirmed(check, **MORE), 20, 500, 5, qshards=2),
        Sub("flows pytorch", strat("torch", "plain"), confirmed(check, **MORE), 20, 500, 5, qshards=2),
        Sub("constrained numpy", strat("numpy", "constrained"), confirmed(check, **MORE), 12, 300, 4, qshards=2),
        Sub("constrained pytorch", strat("torch", "constrained"), confirmed(check, **MORE), 12, 300, 4, qshards=2),
        Sub("stochastic", lambda: gen.st().one_of(strat("numpy", "stochastic")(), strat("torch", "stochastic")()), confirmed(check, **MORE), 12, 300, 3),
        Sub("steering numpy", strat("numpy", "steer"), confirmed(check_steer, **MORE), 8, 200, 3),
        Sub("steering pytorch", strat("torch", "steer"), confirmed(check_steer, **MORE), 8, 200, 3)]
