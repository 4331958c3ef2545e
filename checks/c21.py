"""Stochastic mode: both flows are sample paths with the right drift and noise."""
import numpy as np

from vlib import flow, gen, law, ref
from vlib.core import Sub, require

RULE = ("a generated control problem solved with stochastic particles (both backends, every drift, scalar or per-dimension "
        "noise, with and without path constraint); the increments of the forward flow minus the drift must be independent "
        "Gaussians with the diffusion's variance, those of the backward flow must in addition follow the score of the forward "
        "flow with coefficient one; non-trivial: at least 3 steps")
ASSUMPTIONS = ["statistical thresholds at 6.5 standard deviations or more"]


def strat(backend):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            p = draw(flow.problem([backend], steps=(4, 14), reweight=(False, False, True), det=(False,), gs=("scalar", "column"),
                                  N=(40, 150), M=(15, 40), scale=draw(s.sampled_from([2.0, 30.0]))))
            if p["sys"]["scale"] > 5 and p["sys"]["kind"] in ("cycle", "well", "mixed"):
                p["sys"]["kind"] = "linear"
            if p["U"]:
                p["N"] = min(p["N"], 60)
            return p
        return draw_case()
    return make


def check(p):
    d, N = p["sys"]["dim"], p["N"]
    f = gen.drift(p["sys"])
    rng = np.random.default_rng([59, p["seed"]])
    F, lag, runs = [], [], []
    Y, X, C = [], [], []
    st = law.Steps([-1.0], "backward flow")
    st.names = ["g^2 times the score of the forward flow"]
    for q in law.repeats(p, (p["steps"]) * N, 3000):
        r = flow.build(q)
        sq = flow.gvec(q)[:, None] * np.sqrt(flow.DT)
        pre = law.pre_weighting(r)
        last = None
        runs.append(len(F))
        for i in range(r.k - 1):
            z = r.Z[:, :, i]
            xi = ((pre[i + 1] if i + 1 in pre else r.Z[:, :, i + 1]) - z - flow.DT * f(z, r.t[i])) / sq
            F.append(xi)
            if last is not None:
                lag.append((xi * last))
            last = xi
        g = flow.gvec(q)[:, None]
        for i in range(r.k - 2, 1, -1):
            b, z = r.B[:, :, i], r.Z[:, :, i]
            box = flow.box(r.lib, z, b)
            m, sd = ref.mean_score(z, box, b, p["M"], law.draws(d), rng, flow.ddof(r.lib))
            V = (b - r.B[:, :, i - 1]) / flow.DT - f(b, r.t[i])
            noise = g / np.sqrt(flow.DT)

            def again():
                return [g ** 2 * ref.mean_score(z, box, b, p["M"], 1, rng, flow.ddof(r.lib))[0] + noise * rng.normal(size=b.shape)]
            st.add(V, [g ** 2 * m], [np.sqrt((g ** 2 * sd) ** 2 + noise ** 2)], again, "step %d of %d" % (i, r.k - 1))
            Y.append(-(V + g ** 2 * m) / noise)
            X.append(sq * m)
            C.append(sq * sd)
    law.gaussian(np.concatenate(F, 1), "increments of the forward flow")
    law.independent(np.concatenate(F), "forward flow, between particles")
    n = r.k - 1
    law.independent(np.concatenate([np.concatenate(F[a:a + n]) for a in runs], 1).T,
                    "forward flow, between steps and dimensions")
    if lag:
        lag = np.concatenate(lag, 1)
        e = np.abs(lag.mean(1)).max() * np.sqrt(lag.shape[1])
        require(e <= law.Z6, "successive increments of the forward flow are correlated (%.1f standard errors)", e)
    if len(st.V) >= 3:
        st.check(law.SLACK[d])
        # noise: steps whose score is well determined by the inducing points
        keep = [j for j in range(len(Y)) if law.rms(C[j]) < 0.1]
        if sum(Y[j].shape[1] for j in keep) >= 300:
            e = np.concatenate([Y[j] for j in keep], 1)
            extra = 0.03 + 0.2 * np.mean([law.rms(X[j]) for j in keep]) ** 2
            v = (e ** 2).mean(1)
            lim = law.Z6 * np.sqrt(2.0 / e.shape[1])
            require((v >= 1 - lim - extra).all() and (v <= 1 + 1.3 * lim + extra).all(),
                    "backward flow: variance of the increments is %r times the diffusion's", v.round(3).tolist())
            if d > 1:
                c = np.corrcoef(e)
                c = np.abs(c - np.diag(np.diag(c))).max()
                require(c <= law.Z6 / np.sqrt(e.shape[1]) + extra, "backward flow: the noise of two dimensions has correlation %.3g", c)
            near = np.mean([(Y[j][:, 1:] * Y[j][:, :-1]).mean() for j in keep])
            lim = law.Z6 / np.sqrt(e.shape[1])
            law.independent(np.concatenate([Y[j] for j in keep]), "backward flow, between particles", least=0.5)
            require(abs(near) <= 1.2 * lim + extra, "backward flow: neighbouring particles have correlated noise (%.3g)", near)
            pairs = [(a, b) for a, b in zip(keep[:-1], keep[1:]) if b == a + 1 and Y[a].shape == Y[b].shape]
            if pairs:
                e = np.concatenate([Y[a] * Y[b] for a, b in pairs], 1)
                lag = np.abs(e.mean(1)).max()
                require(lag <= 1.2 * law.Z6 / np.sqrt(e.shape[1]) + extra, "backward flow: successive steps have correlated noise (%.3g)", lag)
    return dict(nontrivial=p["steps"] >= 3, classes=flow.classes(p))


def strat_tails():
    s = gen.st()
    return flow.problem(steps=(2, 4), det=(False,), gs=("scalar", "column"), N=(1000, 3000), M=(4, 6), scale=20.0,
                        kinds=("zero", "const", "linear", "forced", "alternating"))


def check_tails(p):
    """increments of many particles"""
    d, N = p["sys"]["dim"], p["N"]
    f = gen.drift(p["sys"])
    F, B = [], []
    for q in law.repeats(p, N * d, 12000):
        r = flow.build(q, record=False)
        sq = flow.gvec(q)[:, None] * np.sqrt(flow.DT)
        for i in range(r.k - 1):
            z = r.Z[:, :, i]
            F.append(((r.Z[:, :, i + 1] - z - flow.DT * f(z, r.t[i])) / sq).ravel())
        b = r.B[:, :, -2]
        B.append(((b - b.mean(1, keepdims=True)) / sq * np.sqrt(N / (N - 1.0))).ravel())
    for i in range(r.k - 1):
        law.gaussian(np.concatenate(F[i::r.k - 1])[None], "increments of the forward flow at step %d of %d" % (i + 1, r.k - 1))
    law.gaussian(np.concatenate(B)[None], "first increments of the backward flow")
    return dict(nontrivial=True, classes=flow.classes(p) + ["tails"])


def strat_long():
    s = gen.st()
    return flow.problem(steps=(60, 330), dims=(1, 2), det=(False,), gs=("scalar", "column"), N=(30, 50), M=(8, 15), scale=2.0,
                        kinds=("zero", "const", "linear", "forced"))


def check_long(p):
    """no noise comes back later in a run"""
    N, d = p["N"], p["sys"]["dim"]
    f = gen.drift(p["sys"])
    F, B = [], []
    for q in law.repeats(p, N, 120):
        r = flow.build(q, record=False)
        sq = (flow.gvec(q)[:, None] * np.sqrt(flow.DT))
        z = r.Z[:, :, :-1]
        F.append(np.concatenate([(r.Z[:, :, i + 1] - z[:, :, i] - flow.DT * f(z[:, :, i], r.t[i])) / sq for i in range(r.k - 1)]).T)
        B.append(np.concatenate([(r.B[:, :, i - 1] - r.B[:, :, i] + flow.DT * f(r.B[:, :, i], r.t[i])) / sq
                                 for i in range(r.k - 1, 25, -1)]).T)       # the scores are large near the start
    F, B = np.concatenate(F), np.concatenate(B)
    law.independent(F, "forward flow, between steps and dimensions of a long run")
    law.gaussian(F.reshape(1, -1), "increments of the forward flow in a long run")
    B = B - B.mean(0)
    law.independent(B, "backward flow, between steps and dimensions of a long run", least=0.9)
    both = np.concatenate([F / np.sqrt((F ** 2).sum(0)), B / np.sqrt((B ** 2).sum(0))], 1)
    c = np.abs((both.T @ both)[:F.shape[1], F.shape[1]:])
    require(c.max() <= 0.9, "the backward flow has the noise of the forward flow (correlation %.3g of two steps)", c.max())
    return dict(nontrivial=True, classes=flow.classes(p) + ["steps > 150" if p["steps"] > 150 else "steps <= 150"])


SUBS = [Sub("tails", strat_tails, check_tails, 48, 600, 2),
        Sub("long runs", strat_long, check_long, 48, 600, 3, qshards=2),
        Sub("numpy", strat("numpy"), check, 120, 1500, 4, qshards=2),
        Sub("pytorch", strat("torch"), check, 120, 1500, 4, qshards=2)]
