"""Bridge mode: the uncontrolled flow follows the true drift, the sampled flow the bridge drift."""
import numpy as np

from vlib import flow, gen, law, lg, ref, sutmod as S
from vlib.core import Sub, confirmed, require, sut

RULE = ("a generated problem in the reweighted Brownian bridge mode (bridge drift, generated true drift and constraint, both "
        "backends); the uncontrolled flow must follow the Fokker-Planck particle dynamics of the true drift without "
        "reweighting, the sampled flow those of the bridge drift before each reweighting, the backward flow the reversed "
        "ones; non-trivial: at least 5 steps, or at least 200 particles for the first step")
ASSUMPTIONS = ["statistical thresholds at 6.5 standard deviations or more", "deterministic dynamics (the stochastic mode has no "
               "uncontrolled flow)"]


def strat(backend, steps, N, M, scale, dims=(1, 2, 3, 4)):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            st, sc = draw(s.sampled_from([(steps, scale)]))
            p = draw(flow.problem([backend] if backend else ("numpy", "torch"), steps=st, reweight=(True,), bb=(True,),
                                  gs=("scalar", "column"), N=N, M=M, scale=sc, dims=dims))
            p["U"]["amp"] = min(p["U"]["amp"], 300.0)
            return p
        return draw_case()
    return make


def check_flow(p):
    rng = np.random.default_rng([47, p["seed"]])
    true = gen.drift(p["true"])
    st = sf = sb = None
    for q in law.repeats(p, p["steps"] - 2, 14):
        r = flow.build(q)
        only = law.some(r.k, rng)
        bridge = flow.bridge_drift(q, r.y2, "numpy")
        st = law.forward_steps(r, rng, r.Ztr, true, what="uncontrolled flow", st=st, only=only)
        sf = law.forward_steps(r, rng, r.Z, bridge, law.pre_weighting(r), what="sampled flow", st=sf, only=only)
        sb = law.backward_steps(r, rng, bridge, st=sb, only=only)
    sl = law.SLACK[p["sys"]["dim"]]
    st.check(sl)
    sf.check(sl)
    sb.check(1.5 * sl)
    return dict(nontrivial=p["steps"] >= 5, classes=flow.classes(p) + ["true drift " + p["true"]["kind"]])


def check_first(p):
    XI, XZ = [], []
    for q in law.repeats(p, 1, 8):
        r = flow.build(q)
        sd = flow.gvec(q)[:, None] * np.sqrt(flow.DT)
        y1 = r.y1[:, None]
        true = gen.drift(q["true"])
        XI.append((r.Ztr[:, :, 1] - y1 - flow.DT * true(y1, r.t[0])) / sd)
        z = law.pre_weighting(r).get(1)
        require(z is not None, "the first step is not reweighted")
        f = flow.bridge_drift(q, r.y2, "numpy")
        XZ.append((z - y1 - flow.DT * f(y1, r.t[0])) / sd)
    xi, xz = np.concatenate(XI, 1), np.concatenate(XZ, 1)
    law.gaussian(xi, "first step of the uncontrolled flow")
    law.gaussian(xz, "first step of the sampled flow")
    c = np.abs((xi * xz).mean(1)).max()
    require(c <= law.Z6 / np.sqrt(xi.shape[1]), "the two flows share their noise (correlation %.3g)", c)
    return dict(nontrivial=xi.shape[1] >= 200, classes=flow.classes(p))


def strat_field():
    s = gen.st()

    @s.composite
    def draw_case(draw):
        p = draw(flow.problem(steps=(2, 3), gs=("scalar", "column"), N=(8, 12), M=(5, 40), reweight=(True,), bb=(True,)))
        p["U"]["amp"] = 1.0
        p["n"] = draw(s.one_of(s.integers(12, 60), s.integers(12, 60), s.integers(100, 400)))
        p["sorted"] = draw(s.booleans())
        p["time"] = draw(s.sampled_from([0.0, 0.37, -2.5]))
        return p
    return draw_case()


def check_field(p):
    r = flow.build(p, record=False)
    rng = np.random.default_rng([53, p["seed"]])
    d, n = p["sys"]["dim"], p["n"]
    x = rng.normal(size=(d, n)) * np.exp(rng.uniform(-1, 1, size=(d, 1))) + rng.normal(size=(d, 1))
    if p["sorted"]:
        x = x[:, np.argsort(x[0])].copy()
    F = gen.drift(p["true"])(x, p["time"])
    g2 = law.g2(p)
    m, sd = ref.mean_score(x, ref.box_of(x), x, p["M"], 160, rng, flow.ddof(r.lib))
    arg = S.torch.tensor(x, dtype=S.torch.float64) if r.lib == "torch" else x.copy()
    flow.seed_all(p["seed"])

    def draw():
        out = flow.npa(sut(r.obj.f_seperate_true, arg, p["time"]))
        require(out.shape == (d, n), "the drift of the particles has shape %r instead of %r", out.shape, (d, n))
        return out - F
    got, z = law.averaged(draw, -0.5 * g2 * m, 0.5 * g2 * sd, 160, "", extra=1e-9 * (np.abs(F).max() + np.abs(g2 * m).max()))
    i = np.unravel_index(np.argmax(z), z.shape)
    require(z.max() <= 9.0, "drift of the uncontrolled particles minus the true drift, averaged over 80 calls: %r is %.5g, should "
            "be %.5g (%.1f standard errors)", tuple(int(v) for v in i), got[i], (-0.5 * g2 * m)[i], z.max())
    return dict(nontrivial=n >= 15, classes=[p["backend"], "dim%d" % d, p["true"]["kind"], "g " + p["gkind"]])


# ---- end to end: a linear gradient system, reached through Brownian bridges and the Girsanov weights

def strat_end(backend):
    def make():
        s = gen.st()
        return s.fixed_dictionaries(dict(
            backend=s.just(backend), dim=s.integers(1, 3 if backend == "numpy" else 2), steps=s.integers(60, 150), seed=gen.seeds(),
            g=s.sampled_from([0.5, 0.8, 1.2]), scale=s.sampled_from([1.0, 2.0 if backend == "numpy" else 4.0]), t1=s.sampled_from([0.0, 0.5, -1.3]),
            far=s.sampled_from([0.0, 0.6, 1.2]), N=s.just(300), M=s.just(50)))
    return make


def measure_end(c):
    rng = np.random.default_rng([71, c["seed"]])
    d, n, g, lib = c["dim"], c["steps"], c["g"], c["backend"]
    R = rng.normal(size=(d, d))
    K = c["scale"] * (0.5 * np.eye(d) + R @ R.T / np.trace(R @ R.T))
    m = rng.normal(size=d) * 0.5
    y1 = m + rng.normal(size=d) * 0.3
    free, pred = lg.forward(-K, lambda i: K @ m, np.full(d, g), None, None, y1, n, flow.DT)
    v = rng.normal(size=d)
    v /= np.linalg.norm(v)
    y2 = free[-1][0] + c["far"] * np.linalg.cholesky(free[-1][1]) @ v
    sm = lg.smooth(free, pred, -K, y2, flow.DT)
    T = (lambda a: S.torch.tensor(a, dtype=S.torch.float64)) if lib == "torch" else (lambda a: a)
    Kt, mt, y2t = T(K), T(m[:, None]), T(y2[:, None])
    t2 = c["t1"] + n * flow.DT
    ft = lambda x, t: -Kt @ (x - mt)
    # the drift is the gradient of -(x - m)' K (x - m) / 2: the path weights are exp(-int (|f|^2 / g^2 + div f) / 2 dt)
    U = lambda x, t: -0.5 * ((ft(x, t) ** 2).sum(0) / g ** 2 - np.trace(K))
    fb = lambda x, t: (y2t - x) / (t2 - t + flow.DT)
    p = dict(backend=lib, sys=dict(dim=d, kind="linear", seed=0, scale=1.0), steps=n, N=c["N"], M=c["M"], t1=c["t1"], seed=c["seed"],
             g=g, gkind="scalar", det=True, bb=True, y1scale=1.0, far=0.0, U=dict(kind="quadratic", seed=0, amp=1.0))
    r = flow.build(p, record=False, f=fb, U=U, f_true=ft, y1=y1, y2=y2, g=g)
    out, ctl = [], []
    for name, F, ref in (("uncontrolled", r.Ztr, free), ("backward", r.B, sm)):
        for q in (0.15, 0.3, 0.5, 0.7, 0.85):
            i = int(round(q * n))
            mu, P = ref[i]
            sd = np.sqrt(np.diag(P))
            C = np.atleast_2d(np.cov(F[:, :, i]))
            out.append((name, i, np.abs((F[:, :, i].mean(1) - mu) / sd).max(), np.abs(F[:, :, i].std(1) / sd - 1).max(),
                        np.abs((C - P) / np.outer(sd, sd)).max()))
    score = lambda mP, x: -np.linalg.solve(mP[1], x - mP[0][:, None])
    for q in (0.3, 0.5, 0.7):
        i = int(round(q * n))
        mu, P = sm[i]
        x = mu[:, None] + np.linalg.cholesky(P) @ np.clip(rng.normal(size=(d, 12)), -2, 2)
        want = score(sm[i], x) - score(free[i], x)
        got = np.mean([flow.calc_u(r, x.T, i, seed=k) for k in range(6)], 0)
        L = np.sqrt(np.diag(P))[:, None]
        ctl.append((i, np.sqrt((((got - want) * L) ** 2).mean())))
    return out, ctl


LIMITS = dict(numpy=(0.25, 0.25, 0.4, 0.5), torch=(0.2, 0.2, 0.35, 0.35))


def check_end(c):
    out, ctl = measure_end(c)
    lm, ls, lc, lu = LIMITS[c["backend"]]
    for name, i, em, es, ec in out:
        require(em <= lm, "%s flow at step %d of %d: mean off by %.3g exact standard deviations", name, i, c["steps"], em)
        require(es <= ls, "%s flow at step %d of %d: standard deviation off by %.3g", name, i, c["steps"], es)
        require(ec <= lc, "%s flow at step %d of %d: covariance off by %.3g", name, i, c["steps"], ec)
    for i, e in ctl:
        require(e <= lu, "control at step %d of %d: off by %.3g (in units of one over the bridge's width)", i, c["steps"], e)
    return dict(nontrivial=True, classes=["end to end", c["backend"], "dim%d" % c["dim"], "t1=%g" % c["t1"]])


SUBS = [Sub("steps numpy", strat("numpy", (4, 30), (30, 50), (25, 60), 2.0), check_flow, 30, 900, 5, qshards=2),
        Sub("steps pytorch", strat("torch", (4, 30), (30, 50), (25, 60), 2.0), check_flow, 30, 900, 5, qshards=2),
        Sub("long runs", strat(None, (65, 170), (30, 40), (150, 250), 2.0, (1,)), check_flow, 12, 300, 3),
        Sub("many particles", strat(None, (4, 8), (300, 700), (25, 60), 2.0), check_flow, 12, 300, 3),
        Sub("first step", strat(None, (2, 3), (100, 200), (5, 8), 20.0), check_first, 40, 900, 3),
        Sub("velocity field", strat_field, check_field, 60, 1500, 2),
        Sub("end to end numpy", strat_end("numpy"), confirmed(check_end, N=900, M=100), 10, 250, 4, qshards=2),
        Sub("end to end pytorch", strat_end("torch"), confirmed(check_end, N=900, M=100), 10, 250, 4, qshards=2)]
