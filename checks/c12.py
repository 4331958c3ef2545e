"""Law of one step of the forward probability flow."""
import numpy as np

from vlib import flow, gen, law, ref, sutmod as S
from vlib.core import Sub, require, sut

RULE = ("a generated control problem (backend, drift, scalar or per-dimension noise, dimension, start time, path "
        "constraint); the first step must be Gaussian with the diffusion's mean and variance, every later step must move "
        "the particles with drift minus half the squared diffusion times the score of the particles (score recomputed "
        "from the documented estimator, averaged over random inducing points); non-trivial: at least 5 later steps, "
        "or at least 500 particles for the first step")
ASSUMPTIONS = ["statistical thresholds at 6.5 standard deviations or more",
               "a step that deviates is confirmed against 500 further choices of inducing points"]


def strat_flow(backend, variants):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            steps, scale, N, M = draw(s.sampled_from(variants))
            long = steps[1] > 60
            return draw(flow.problem([backend], steps=steps, reweight=(False, False, not long), gs=("scalar", "column"),
                                     N=N, M=M, scale=scale, dims=(1,) if long else (1, 2, 3, 4)))
        return draw_case()
    return make


def check_flow(p):
    rng = np.random.default_rng([23, p["seed"]])
    f = gen.drift(p["sys"])
    st = None
    for q in law.repeats(p, p["steps"] - 1):
        r = flow.build(q, record=bool(p["U"]))
        st = law.forward_steps(r, rng, r.Z, f, law.pre_weighting(r), st=st, only=law.some(r.k, rng))
    st.check(law.SLACK[p["sys"]["dim"]])
    return dict(nontrivial=len(st.V) >= 5, classes=flow.classes(p) + (["steps>60"] if p["steps"] > 60 else []) + (["N>60"] if p["N"] > 60 else []))


def strat_first():
    s = gen.st()

    @s.composite
    def draw_case(draw):
        p = draw(flow.problem(dims=flow.WIDE, steps=(1, 2), reweight=(False, False, True), gs=("scalar", "column"), det=(True, False),
                              N=draw(s.sampled_from([(200, 300), (400, 1500)])), M=(5, 8), scale=20.0, pots=("quadratic", "bump")))
        if p["U"]:
            p["N"] = min(p["N"], 400)
            p["U"]["amp"] = min(p["U"]["amp"], 30.0)
        return p
    return draw_case()


def check_first(p):
    if p["N"] <= 300:       # the same particles over many seeds
        xs = [first_noise(q) for q in law.repeats(p, 1, 14 // p["sys"]["dim"] + 1)]
        law.independent(np.concatenate(xs), "first step of the forward flow")
        law.gaussian(np.concatenate(xs, 1), "first step of the forward flow, several runs")
    law.gaussian(first_noise(p), "first step of the forward flow")
    if not p["U"] and p["N"] >= 400:        # enough values to see the tails
        xi = [first_noise(q) for q in law.repeats(p, p["N"] * p["sys"]["dim"], 12000)]
        law.gaussian(np.concatenate(xi, 1), "first step of the forward flow, many particles")
    return dict(nontrivial=p["N"] >= 500, classes=flow.classes(p))


def first_noise(p):
    r = flow.build(p, record=bool(p["U"]))
    f = gen.drift(p["sys"])
    z = law.pre_weighting(r).get(1, r.Z[:, :, 1])
    mean = r.y1[:, None] + flow.DT * f(r.y1[:, None], r.t[0])
    return (z - mean) / (flow.gvec(p)[:, None] * np.sqrt(flow.DT))


def strat_field(backend):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            p = draw(flow.problem([backend], dims=flow.WIDE, steps=(1, 3), gs=("scalar", "column"), N=(8, 12), M=(5, 40)))
            p["n"] = draw(s.one_of(s.integers(12, 60), s.integers(12, 60), s.integers(100, 400)))
            p["order"] = draw(s.sampled_from([None, "sorted", "reversed"]))
            p["cloud"] = draw(s.sampled_from(["normal", "skewed", "bimodal", "uniform"]))
            p["cloudscale"] = draw(s.sampled_from([1.0, 0.05, 5.0, 1e-3]))
            p["time"] = draw(s.sampled_from([0.0, 0.37, -2.5]))
            return p
        return draw_case()
    return make


def check_field(p):
    r = flow.build(p, record=False)
    rng = np.random.default_rng([29, p["seed"]])
    d, n = p["sys"]["dim"], p["n"]
    x = rng.normal(size=(d, n))
    if p["cloud"] == "skewed":
        x = np.exp(0.5 * x)
    elif p["cloud"] == "bimodal":
        x = 0.4 * x + np.where(rng.random((1, n)) < 0.5, 1, -1)
    elif p["cloud"] == "uniform":
        x = rng.uniform(-1, 1, size=(d, n))
    x = (x * np.exp(rng.uniform(-0.7, 0.7, size=(d, 1))) + rng.normal(size=(d, 1))) * p["cloudscale"]
    if p["order"]:          # nothing says that the particles come in random order
        x = x[:, np.argsort(x[0])[::1 if p["order"] == "sorted" else -1]].copy()
    f = gen.drift(p["sys"])
    F = f(x, p["time"])
    g2 = law.g2(p)
    nref = 160
    m, sd = ref.mean_score(x, ref.box_of(x), x, p["M"], nref, rng, flow.ddof(r.lib))
    arg = S.torch.tensor(x, dtype=S.torch.float64) if r.lib == "torch" else x.copy()
    flow.seed_all(p["seed"])
    shapes = set()

    def draw():
        out = flow.npa(sut(r.obj.f_seperate, arg, p["time"]))
        shapes.add(out.shape)
        require(out.shape == (d, n), "the drift of the particles has shape %r instead of %r", out.shape, (d, n))
        return out - F
    got, z = law.averaged(draw, -0.5 * g2 * m, 0.5 * g2 * sd, nref, "", extra=1e-9 * (np.abs(F).max() + np.abs(g2 * m).max()))
    require(np.array_equal(flow.npa(arg), x), "the states were modified")
    i = np.unravel_index(np.argmax(z), z.shape)
    require(z.max() <= 9.0, "drift of the particles minus f, averaged over 80 calls: %r is %.5g, should be %.5g (%.1f "
            "standard errors)", tuple(int(v) for v in i), got[i], (-0.5 * g2 * m)[i], z.max())
    return dict(nontrivial=n >= 15, classes=[p["backend"], "dim%d" % d, p["cloud"], p["sys"]["kind"], "g " + p["gkind"]])


U = ((20, 60), (20, 80))
V = [((8, 40), 2.0) + U, ((3, 8), 40.0) + U, ((8, 40), 2.0) + U, ((8, 20), 2.0, (150, 300), (20, 60)), ((4, 8), 2.0, (500, 1200), (20, 60)),
     ((6, 16), 2.0, (20, 60), (120, 250))]
LONG = [((65, 170), 2.0, (20, 40), (200, 300))]
EXAMPLE = [((500, 2200), 0.5, (20, 40), (50, 100))]         # as in the documentation: a second or two
SUBS = [Sub("first step", strat_first, check_first, 40, 1500, 2),
        Sub("steps numpy", strat_flow("numpy", V), check_flow, 60, 2400, 5, qshards=2),
        Sub("steps pytorch", strat_flow("torch", V), check_flow, 60, 2400, 5, qshards=2),
        Sub("long runs numpy", strat_flow("numpy", LONG), check_flow, 16, 400, 3),
        Sub("long runs pytorch", strat_flow("torch", LONG), check_flow, 16, 400, 3),
        Sub("example sized numpy", strat_flow("numpy", EXAMPLE), check_flow, 10, 200, 2),
        Sub("example sized pytorch", strat_flow("torch", EXAMPLE), check_flow, 10, 200, 2),
        Sub("velocity field numpy", strat_field("numpy"), check_field, 60, 1500, 2),
        Sub("velocity field pytorch", strat_field("torch"), check_field, 60, 1500, 2)]
