"""The diffusion coefficient in its accepted forms."""
import numpy as np

from checks import c16
from vlib import flow, gen, law, sutmod as S
from vlib.core import Known, Sub, Violation, require

RULE = ("a generated control problem solved twice with the same random seed, the diffusion coefficient given as a float and in "
        "another form of the same value (integer, numpy scalar, 0-d array, one-element array, column, tensor), or a "
        "per-dimension diffusion against the same problem in units of the diffusion; flows and control must agree; forms that the documentation names but "
        "the code rejects are listed findings; non-trivial: at least 4 steps")
ASSUMPTIONS = ["a column has one entry per dimension"]

FORMS = ["int", "npfloat", "np0d", "np1", "column", "float32", "npint", "tensor0", "tensor column"]


def strat(backend):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            p = draw(flow.problem([backend], dims=flow.WIDE, steps=(3, 20), reweight=(False, False, True), bb=(False, False, False, True),
                                  det=(True, True, False), N=(10, 40), M=(5, 25), grow=True))
            if p["bb"]:
                p["det"] = True
            if p["U"]:
                p["U"]["amp"] = min(p["U"]["amp"], 30.0)
            forms = FORMS if backend == "torch" else FORMS[:7]
            p["form"] = draw(s.sampled_from(forms))
            if p["form"] in ("int", "npint"):
                p["g"] = float(draw(s.sampled_from([1, 2] if p["sys"]["kind"] not in ("cycle", "well", "mixed") else [1])))
            return p
        return draw_case()
    return make


def form(p):
    g, d, k = p["g"], p["sys"]["dim"], p["form"]
    return {"int": lambda: int(g), "npint": lambda: np.int64(g), "npfloat": lambda: np.float64(g), "np0d": lambda: np.array(g),
            "np1": lambda: np.array([g]), "column": lambda: np.full((d, 1), g), "float32": lambda: np.float32(g),
            "tensor0": lambda: S.torch.tensor(g, dtype=S.torch.float64),
            "tensor column": lambda: S.torch.full((d, 1), g, dtype=S.torch.float64)}[k]()


def check(p):
    a = flow.build(p, record=False)
    if p["form"] == "float32":
        a = flow.build(p, record=False, g=float(np.float32(p["g"])))
    b = flow.build(p, record=False, g=form(p))
    # before any amplification of rounding
    e = np.abs(a.Z[:, :, 1] - b.Z[:, :, 1]).max() / np.abs(a.Z[:, :, 1] - a.y1[:, None]).max()
    require(p["U"] or e <= 1e-10, "the diffusion %r given as %s changes the first step by %.3g of its size", p["g"], p["form"], e)
    for n in ["Z", "B"] + (["Ztr"] if p["bb"] else []):
        x, y = getattr(a, n), getattr(b, n)
        require(x.shape == y.shape, "%s: shape of %s", p["form"], n)
        e = np.abs(x - y).max() / (x.std() + 1e-12)
        require(e <= (1e-2 if p["U"] or n == "B" else 1e-4), "the diffusion %r given as %s changes %s by %.3g spreads", p["g"], p["form"], n, e)
    ti = 1 + p["seed"] % (a.k - 2)
    x = a.B[:, :, ti].T[:4]
    u, v = flow.calc_u(a, x, ti, 3), flow.calc_u(b, x, ti, 3)
    require(np.abs(u - v).max() <= 1e-2 * (np.abs(u).max() + 1e-12), "the diffusion given as %s changes the control", p["form"])
    return dict(nontrivial=p["steps"] >= 4, classes=flow.classes(p) + [p["form"]])


# every dimension has its own diffusion: measured in units of the diffusion, the problem has the same noise in all dimensions

def strat_units(backend):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            p = draw(flow.problem([backend], dims=(2, 3, 3, 6), steps=(3, 25), gs=("column",), N=(20, 60), M=(8, 30), det=(True, True, False),
                                  t1s=(0.0, 0.5, -1.3)))
            p["pos"] = draw(s.integers(0, 10 ** 6))
            return p
        return draw_case()
    return make


def check_units(p):
    d = p["sys"]["dim"]
    rng = np.random.default_rng([48, p["seed"]])
    how = ["one number", "column of ones"][int(rng.integers(2))]
    c16.compare(p, 1 / flow.gvec(p), np.zeros(d), np.zeros(d), 0.0, rng, "in units of the diffusion (%s)" % how,
                g=1.0 if how == "one number" else np.ones((d, 1)))
    return dict(nontrivial=p["steps"] >= 4, classes=flow.classes(p) + [how])


# forms the documentation names

def strat_doc():
    s = gen.st()
    return s.builds(lambda p, how: dict(p, how=how),
                    flow.problem(dims=(2, 3), steps=(3, 8), N=(30, 60), M=(8, 20), kinds=("zero", "linear")),
                    s.sampled_from(["matrix", "vector", "function"]))


def check_doc(p):
    d, lib = p["sys"]["dim"], p["backend"]
    diag = flow.gvec(dict(p, gkind="column"))
    if p["how"] == "matrix":
        g = np.diag(diag)
    elif p["how"] == "vector":
        g = diag.copy()
    else:
        if lib == "torch":
            c = S.torch.tensor(diag[:, None])
            g = lambda x, t: c + 0.0 * x
        else:
            g = lambda x, t: diag[:, None] + 0.0 * x
    try:
        r = flow.build(p, record=False, g=g)
    except Violation as v:
        raise Known("diffusion as %s, %s" % (p["how"], lib), str(v)[:200])
    f = gen.drift(p["sys"])
    y1 = r.y1[:, None]
    xi = (r.Z[:, :, 1] - y1 - flow.DT * f(y1, r.t[0])) / (diag[:, None] * np.sqrt(flow.DT))
    law.gaussian(xi, "first step with the diffusion as a " + p["how"])
    return dict(nontrivial=True, classes=[p["how"], lib])


def listed():
    """one problem per documented form and backend, so that every listed finding is met on every run"""
    p = dict(sys=dict(dim=2, kind="linear", seed=1, scale=2.0), steps=4, N=40, M=10, t1=0.0, seed=5, g=0.5, gkind="scalar",
             det=True, bb=False, U=None, y1scale=0.5, far=0.3)
    return [dict(p, backend=lib, how=how) for lib in ("numpy", "torch") for how in ("matrix", "vector", "function")]


SUBS = [Sub("same value numpy", strat("numpy"), check, 240, 3000, 3, qshards=2),
        Sub("same value pytorch", strat("torch"), check, 240, 3000, 3, qshards=2),
        Sub("units numpy", strat_units("numpy"), check_units, 120, 1500, 3, qshards=2),
        Sub("units pytorch", strat_units("torch"), check_units, 120, 1500, 3, qshards=2),
        Sub("documented forms", strat_doc, check_doc, 80, 200, 2),
        Sub("documented forms, listed", None, check_doc, 6, 6, 1, cases=listed)]
