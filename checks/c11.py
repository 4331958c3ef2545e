"""Which states and times the user's functions are evaluated at."""
import numpy as np

from vlib import flow, gen
from vlib.core import Sub, fail, require

RULE = ("a generated control problem (backend, drift, noise, dimension, start time, 2-40 steps, path constraint, bridge "
        "mode, stochastic mode) whose drift, true drift and constraint record every (state, time) they are given; each "
        "call must match a stored flow at the grid time it is passed, and every step must have been driven; non-trivial: "
        "at least 3 steps")
ASSUMPTIONS = ["the functions are pure", "extra evaluations at states and times of the flows are allowed"]


def strat(backend, long=False):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            p = draw(flow.problem([backend], dims=flow.WIDE, steps=(2, 40), reweight=(False, True), bb=(False, False, True),
                                  det=(True, True, False), gs=("scalar", "column"), N=(8, 40), M=(5, 25), grow=True))
            if long:
                p = draw(flow.problem([backend], dims=(1, 2), steps=(300, 1500), reweight=(False, False, True), bb=(False, False, True),
                                      gs=("scalar", "column"), N=(30, 40), M=(8, 15), scale=0.5, kinds=("zero", "const", "linear", "forced")))
            if p["bb"]:
                p["det"] = True
            return p
        return draw_case()
    return make


def index(t, when, what):
    i = int(np.argmin(np.abs(t - when)))
    require(abs(t[i] - when) <= 1e-8, "%s is evaluated at time %r, which is not on the grid", what, when)
    return i


def same(a, b):
    return np.abs(a - b).max() <= 1e-9 * (1 + np.abs(b).max())


def check(p):
    r = flow.build(p)
    d, N, k, t = p["sys"]["dim"], p["N"], r.k, r.t
    fwd, bwd, true = set(), set(), set()
    for x, when, out in r.calls["f"]:
        require(x.shape == (d, N), "the drift is given states of shape %r", x.shape)
        i = index(t, when, "the drift")
        if i <= k - 2 and same(x, r.Z[:, :, i]):
            fwd.add(i)
        elif i >= 1 and same(x, r.B[:, :, i]):
            bwd.add(i)
        else:
            near = [("forward", j) for j in range(k) if same(x, r.Z[:, :, j])] + \
                   [("backward", j) for j in range(1, k) if same(x, r.B[:, :, j])]
            fail("the drift is evaluated at time index %d of %d, with states %s", i, k,
                 "of the %s flow at index %d" % near[0] if near else "that belong to no flow")
    require(fwd >= set(range(k - 1)), "forward steps not driven by the drift: %r", sorted(set(range(k - 1)) - fwd)[:5])
    need = set(range(2, k))
    require(bwd >= need, "backward steps not driven by the drift: %r", sorted(need - bwd)[:5])
    if p["bb"]:
        for x, when, out in r.calls["f_true"]:
            require(x.shape == (d, N), "the true drift is given states of shape %r", x.shape)
            i = index(t, when, "the true drift")
            require(i <= k - 2 and same(x, r.Ztr[:, :, i]),
                    "the true drift is evaluated at index %d with states that are not the uncontrolled flow's", i)
            true.add(i)
        require(true >= set(range(k - 1)), "steps of the uncontrolled flow not driven by the true drift: %r",
                sorted(set(range(k - 1)) - true)[:5])
    else:
        require(not r.calls["f_true"], "the true drift is used outside the bridge mode")
    if p["U"]:
        seen = set()
        for x, when, out in r.calls["U"]:
            require(x.shape == (d, N), "the constraint is given states of shape %r", x.shape)
            seen.add(index(t, when, "the constraint"))
        require(seen >= set(range(1, k)), "steps without a reweighting: %r", sorted(set(range(1, k)) - seen)[:5])
    for name in ("f", "f_true"):
        for n, (before, given) in enumerate(r.handed.get(name, ())):
            require(np.array_equal(before, flow.npa(given)), "the states given to %s in call %d are changed afterwards", name, n)
    return dict(nontrivial=p["steps"] >= 3, classes=flow.classes(p))


SUBS = [Sub("numpy", strat("numpy"), check, 480, 5000, 4, qshards=2),
        Sub("pytorch", strat("torch"), check, 480, 5000, 4, qshards=2),
        Sub("long numpy", strat("numpy", True), check, 8, 100, 2),
        Sub("long pytorch", strat("torch", True), check, 8, 100, 2)]
