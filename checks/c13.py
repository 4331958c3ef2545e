"""Law of one step of the backward probability flow."""
import numpy as np

from vlib import flow, gen, law
from vlib.core import Sub, require

RULE = ("a generated control problem (backend, drift, scalar or per-dimension noise, dimension, start time, distance of "
        "the target, path constraint); the first step back from the target must be Gaussian around the reversed drift "
        "corrected by the score of the forward flow, every later step must move the particles by the reversed drift "
        "plus the squared diffusion times (score of the forward flow minus half the score of the backward flow), with "
        "both scores taken at the backward particles and at the same time; non-trivial: at least 5 later steps, or at "
        "least 500 particles for the first step")
ASSUMPTIONS = ["statistical thresholds at 6.5 standard deviations or more",
               "a step that deviates is confirmed against 500 further choices of inducing points",
               "targets within 1.3 noise standard deviations of where the uncontrolled system goes"]


TAME = ("zero", "const", "linear", "forced", "alternating")      # a cubic drift, reversed for a second, explodes


def strat_flow(backend, variants):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            steps, scale, N, M = draw(s.sampled_from(variants))
            long = steps[1] > 60
            return draw(flow.problem([backend], steps=steps, reweight=(False, False, not long), gs=("scalar", "column"),
                                     N=N, M=M, scale=scale, dims=(1,) if long else (1, 2, 3, 4),
                                     kinds=TAME if steps[1] > 400 else None))
        return draw_case()
    return make


def check_flow(p):
    rng = np.random.default_rng([31, p["seed"]])
    st = None
    for q in law.repeats(p, p["steps"] - 2, 20):
        r = flow.build(q, record=False)
        st = law.backward_steps(r, rng, gen.drift(p["sys"]), st=st, only=law.some(r.k, rng))
    st.check(law.SLACK[p["sys"]["dim"]])
    return dict(nontrivial=len(st.V) >= 5, classes=flow.classes(p) + (["steps>60"] if p["steps"] > 60 else []) + (["N>60"] if p["N"] > 60 else []))


def strat_first():
    s = gen.st()

    @s.composite
    def draw_case(draw):
        p = draw(flow.problem(dims=flow.WIDE, steps=(2, 8), gs=("scalar", "column"), N=draw(s.sampled_from([(300, 350), (400, 1000)])), M=(8, 25), scale=20.0,
                              det=(True, True, False)))
        if draw(s.integers(0, 2)) == 0:         # beyond all particles of the forward flow
            p["far"] = draw(s.sampled_from([2.5, 3.5]))
        return p
    return draw_case()


def check_first(p):
    r = flow.build(p, record=False)
    rng = np.random.default_rng([37, p["seed"]])
    f = gen.drift(p["sys"])
    N, d = p["N"], p["sys"]["dim"]
    g = flow.gvec(p)[:, None]
    y2 = r.y2.reshape(-1, 1)
    x = r.B[:, :, -2]
    sd = g * np.sqrt(flow.DT)
    base = y2 - flow.DT * f(y2, r.t[-1])
    xi = (x - x.mean(1, keepdims=True)) / sd * np.sqrt(N / (N - 1.0))
    law.gaussian(xi, "first step of the backward flow")
    if N <= 350:            # the same particles over many seeds
        more = [flow.build(q, record=False).B[:, :, -2] for q in law.repeats(p, 1, 14 // d + 1)]
        law.independent(np.concatenate([(b - b.mean(1, keepdims=True)) / sd for b in more]), "first step of the backward flow",
                        least=0.05)
    else:                   # enough values to see the tails
        xi = []
        for q in law.repeats(p, N * d, 12000):
            b = flow.build(q, record=False).B[:, :, -2]
            xi.append(((b - b.mean(1, keepdims=True)) / (flow.gvec(q)[:, None] * np.sqrt(flow.DT)) * np.sqrt(N / (N - 1.0))).ravel())
        law.gaussian(np.concatenate(xi)[None], "first step of the backward flow, many particles")
    # over many seeds: how much of the forward score is in the step
    runs = [flow.build(q, record=False) for q in law.repeats(p, 1, 20 if p["far"] > 2 else 8)]
    parts = [[], []]
    for q in runs:
        gq, yq = flow.gvec(q.p)[:, None], q.y2.reshape(-1, 1)
        mq = q.B[:, :, -2].mean(1, keepdims=True) - yq + flow.DT * f(yq, q.t[-1])
        for n, (s, spread) in enumerate(law.first_backward_means(q, rng)):
            w = flow.DT * gq ** 2 * s
            v = gq ** 2 * flow.DT / N + (1.2 * flow.DT * gq ** 2 * spread) ** 2
            parts[n].append(((w * mq / v).sum(), (w * w / v).sum()))
    beta = [(sum(a for a, _ in x) / sum(b for _, b in x), sum(b for _, b in x) ** -0.5) for x in map(list, parts)]
    require(any(abs(b - 1) <= 7 * se + 0.15 for b, se in beta), "the first step back from the target contains the score of the "
            "forward flow %.3g times (+- %.2g; over %d runs)", beta[0][0], beta[0][1], len(runs))
    # mean: reversed drift and the score of the forward flow at the target
    m = x.mean(1, keepdims=True) - base
    lim = law.Z6 * sd / np.sqrt(N)
    ok = []
    for s, spread in law.first_backward_means(r, rng):
        want = flow.DT * g ** 2 * s
        tol = lim + flow.DT * g ** 2 * (6 * spread + 0.05 * np.abs(s))
        ok.append((np.abs(m - want) <= tol).all())
    require(any(ok), "the first step back from the target moves the mean by %r in excess of the reversed drift, should be %r "
            "(+- %r)", m.ravel().round(6).tolist(), want.ravel().round(6).tolist(), lim.ravel().round(6).tolist())
    return dict(nontrivial=N >= 500, classes=flow.classes(p))


U = ((30, 60), (25, 80))
V = [((8, 40), 2.0) + U, ((4, 10), 40.0) + U, ((8, 40), 2.0) + U, ((8, 20), 2.0, (150, 300), (25, 60)), ((4, 8), 2.0, (500, 1200), (25, 60)),
     ((6, 16), 2.0, (30, 60), (120, 250))]
LONG = [((65, 170), 2.0, (30, 40), (200, 300))]
EXAMPLE = [((500, 2200), 0.5, (30, 40), (50, 100))]         # as in the documentation: a second or two
SUBS = [Sub("first step", strat_first, check_first, 50, 1500, 2),
        Sub("steps numpy", strat_flow("numpy", V), check_flow, 70, 2400, 5, qshards=2),
        Sub("steps pytorch", strat_flow("torch", V), check_flow, 70, 2400, 5, qshards=2),
        Sub("long runs numpy", strat_flow("numpy", LONG), check_flow, 16, 400, 3),
        Sub("long runs pytorch", strat_flow("torch", LONG), check_flow, 16, 400, 3),
        Sub("example sized numpy", strat_flow("numpy", EXAMPLE), check_flow, 10, 200, 2),
        Sub("example sized pytorch", strat_flow("torch", EXAMPLE), check_flow, 10, 200, 2)]
