"""Coverage test: a point counts as covered exactly when both flows surround it, in every dimension."""
import numpy as np

from vlib import flow, gen, sutmod as S
from vlib.core import Sub, require, sut

RULE = ("a generated control problem, a generated time index (ends included) and generated points: inside, outside in one "
        "dimension of one flow, exactly on the boundary of either flow, or the flows' particles; one point or several, in "
        "every accepted container; non-trivial: the answer is decided by both flows (neither box contains the other)")
ASSUMPTIONS = ["several points are covered when all of them are"]

KINDS = ["inside", "outside one", "corner", "just outside", "backward particle", "forward particle", "random", "mixed"]


def strat(backend):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            p = draw(flow.problem([backend], dims=flow.WIDE, steps=(2, 20), reweight=(False, False, True), det=(True, True, False),
                                  gs=("scalar", "column"), N=(8, 30), M=(4, 12), pots=("quadratic", "bump"), bb=(False, False, True), grow=True))
            if p["bb"]:
                p["det"] = True
            p["reqs"] = draw(s.lists(s.fixed_dictionaries(dict(
                kind=s.sampled_from(KINDS), ti=s.integers(0, 220), K=s.sampled_from([1, 1, 1, 2, 5]), seed=gen.seeds(),
                cont=s.sampled_from(["row", "flat", "list", "tensor", "nested list"]))), min_size=3, max_size=8))
            return p
        return draw_case()
    return make


def point(kind, lo, hi, b, z, rng):
    d = len(lo)
    w = hi - lo
    x = lo + w * rng.uniform(0.02, 0.98, size=d)
    if kind == "corner":
        x = np.where(rng.random(d) < 0.5, lo, hi)
    elif kind == "outside one":
        j = rng.integers(d)
        x[j] = (hi[j] + abs(w[j]) * rng.uniform(0.05, 1)) if rng.random() < 0.5 else lo[j] - abs(w[j]) * rng.uniform(0.05, 1)
    elif kind == "just outside":
        j = rng.integers(d)
        x[j] = np.nextafter(hi[j], np.inf) if rng.random() < 0.5 else np.nextafter(lo[j], -np.inf)
    elif kind == "backward particle":
        x = b[:, rng.integers(b.shape[1])].copy()
    elif kind == "forward particle":
        x = z[:, rng.integers(z.shape[1])].copy()
    elif kind == "random":
        a, c = np.minimum(b.min(1), z.min(1)), np.maximum(b.max(1), z.max(1))
        x = a + (c - a) * rng.uniform(-0.2, 1.2, size=d)
    return x


def check(p):
    r = flow.build(p, record=False)
    d = p["sys"]["dim"]
    decided = False
    cl = set()
    for q in p["reqs"]:
        rng = np.random.default_rng(q["seed"])
        ti = q["ti"] % r.k
        b, z = r.B[:, :, ti], r.Z[:, :, ti]
        lo, hi = np.maximum(b.min(1), z.min(1)), np.minimum(b.max(1), z.max(1))
        X = np.array([point(KINDS[rng.integers(7)] if q["kind"] == "mixed" else q["kind"], lo, hi, b, z, rng)
                      for _ in range(q["K"])])
        want = bool(((X >= lo) & (X <= hi)).all())
        arg = X.copy()
        if q["cont"] == "flat" and q["K"] == 1:
            arg = X[0].copy()
        elif q["cont"] == "list" and q["K"] == 1:
            arg = [float(v) for v in X[0]]
        elif q["cont"] in ("list", "nested list"):
            arg = [[float(v) for v in row] for row in X]
        elif q["cont"] == "tensor" and r.lib == "torch":
            arg = S.torch.tensor(X, dtype=S.torch.float64)
        before = flow.npa(arg).copy()
        got = bool(sut(r.obj.check_if_covered, arg, ti))
        require(np.array_equal(flow.npa(arg), before), "the points were modified")
        require(got == want, "index %d of %d: %d point(s) %r reported as %s; the common box of the flows is %r to %r", ti, r.k - 1,
                q["K"], X.tolist(), "covered" if got else "not covered", lo.tolist(), hi.tolist())
        inside_b = ((X >= b.min(1)) & (X <= b.max(1))).all()
        inside_z = ((X >= z.min(1)) & (X <= z.max(1))).all()
        decided |= inside_b != inside_z
        cl |= {q["kind"], q["cont"], "covered" if want else "not covered", "K=%d" % q["K"]}
        if inside_b != inside_z:
            cl.add("only in the backward flow" if inside_b else "only in the forward flow")
    return dict(nontrivial=bool(decided), classes=[p["backend"], "dim%d" % d, "bridge" if p["bb"] else "direct"] + sorted(cl))


SUBS = [Sub("numpy", strat("numpy"), check, 600, 5000, 3, qshards=2),
        Sub("pytorch", strat("torch"), check, 600, 5000, 3, qshards=2)]
