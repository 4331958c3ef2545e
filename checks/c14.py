"""Path constraints: each forward step is reweighted by exp(U dt) with an optimal transport."""
import numpy as np
from scipy.spatial.distance import cdist

from vlib import flow, gen, law, ref
from vlib.core import Sub, require

RULE = ("a generated control problem with a generated path constraint (quadratic, tracking, linear, bump; weak to very "
        "strong; numpy or torch; deterministic, stochastic or bridge forward dynamics); the states handed to the "
        "constraint and the stored flow must be related by the optimal transport from the weights exp(U dt) to uniform "
        "weights at every step; non-trivial: weights differ by at least 1 per cent and at least 3 steps")
ASSUMPTIONS = ["the transport cost may be the distance or its square (the two backends differ)",
               "where the optimal plan is not unique, any plan of minimal cost is accepted (decided by a linear program)",
               "constraints that do not give one particle all the weight"]


def strat(backend, bb=(False,), det=(True, True, False)):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            p = draw(flow.problem([backend], dims=flow.WIDE, steps=(2, 25), reweight=(True,), bb=bb, det=det,
                                  gs=("scalar", "column"), N=(6, 40), M=(5, 25)))
            # strong relative to the spread of the particles, which noise maintains
            p["rel"] = None if p["det"] else draw(s.sampled_from([None, 0.6, 1.2]))
            if p["rel"]:
                p["N"], p["steps"], p["U"]["kind"] = p["N"] + 20, min(p["steps"], 6), "linear"
            return p
        return draw_case()
    return make


def strat_large(backend):
    """many particles, or many steps"""
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            many = draw(s.booleans())
            p = draw(flow.problem([backend], dims=(1, 2, 3), steps=(2, 4) if many else (60, 140), reweight=(True,),
                                  det=(True, False), gs=("scalar", "column"), N=(200, 500) if many else (10, 16), M=(4, 8),
                                  kinds=("zero", "const", "linear", "forced")))
            p["rel"] = None
            return p
        return draw_case()
    return make


def explained(x, w, z, metric):
    """how far (in standard deviations) is z from the image of x under the nearest optimal plan?"""
    from scipy import sparse
    from scipy.optimize import linprog
    import ot
    d, n = x.shape
    c = cdist(x.T, x.T, metric)
    c = c / max(c.max(), 1e-300)
    best = ot.emd2(w, np.full(n, 1.0 / n), c)
    m, s = x.mean(1, keepdims=True), x.std(1, keepdims=True) + 1e-300
    X, Zs = (x - m) / s, (z - m) / s
    eye = sparse.identity(n)
    one = np.ones((1, n))
    # variables: plan (n*n, row-major, in units of 1/n), slack
    A = sparse.vstack([sparse.kron(eye, one), sparse.kron(one, eye)])
    A = sparse.hstack([A, sparse.csr_matrix((2 * n, 1))])
    b = np.concatenate([n * w, np.ones(n)])
    img = sparse.vstack([sparse.kron(X[e][None, :], eye) for e in range(d)])
    q = Zs.reshape(-1)
    col = -np.ones((d * n, 1))
    Aub = sparse.vstack([sparse.hstack([img, col]), sparse.hstack([-img, col]),
                         sparse.hstack([sparse.csr_matrix(c.reshape(1, -1)), sparse.csr_matrix((1, 1))])])
    bub = np.concatenate([q, -q, [n * best * (1 + 1e-6) + 1e-7 * n]])
    obj = np.zeros(n * n + 1)
    obj[-1] = 1
    res = linprog(obj, A_ub=Aub.tocsr(), b_ub=bub, A_eq=A.tocsr(), b_eq=b, bounds=(0, None), method="highs")
    return res.fun if res.status == 0 else np.inf


def check(p):
    if p.get("rel"):        # standard deviation of U dt over the particles after the first step
        un = gen.potential(dict(p["U"], amp=1.0, dim=p["sys"]["dim"]), "numpy")
        one = np.random.default_rng(p["seed"]).normal(size=(p["sys"]["dim"], 400)) * flow.gvec(p)[:, None] * np.sqrt(flow.DT)
        p = dict(p, U=dict(p["U"], amp=float(p["rel"] / (un(one, 0.0).std() * flow.DT))))
    U = gen.potential(dict(p["U"], dim=p["sys"]["dim"]), p["backend"])
    r = flow.build(p, U=U)
    pre = law.pre_weighting(r)
    d, N, k = p["sys"]["dim"], p["N"], r.k
    un = gen.potential(dict(p["U"], dim=d), "numpy")
    spread = 0.0
    require(set(pre) >= set(range(1, k)), "steps that are not reweighted: %r", sorted(set(range(1, k)) - set(pre))[:5])
    for i in range(1, k):
        x, z = pre[i], r.Z[:, :, i]
        u = un(x, r.t[i]) * flow.DT
        w = np.exp(u - u.max())
        w /= w.sum()
        spread = max(spread, w.max() / max(w.min(), 1e-300) - 1)
        sc = x.std(1, keepdims=True) + 1e-12 * np.abs(x).max()
        m = np.abs(z.mean(1) - x @ w) / sc[:, 0]
        require(m.max() <= 1e-6, "step %d of %d: the mean of the reweighted particles is off the weighted mean by %.3g standard "
                "deviations (before: %.3g)", i, k - 1, m.max(), (np.abs(x.mean(1) - x @ w) / sc[:, 0]).max())
        ok = False
        for metric in ("sqeuclidean", "euclidean"):
            want, _ = ref.etpf(x, w, metric)
            if (np.abs(z - want) <= 1e-6 * sc).all():
                ok = True
                break
        if not ok and N <= 80:
            far = min(explained(x, w, z, metric) for metric in ("euclidean", "sqeuclidean"))
            require(far <= 1e-4, "step %d of %d: the stored particles are %.3g standard deviations away from an optimal "
                    "transport of the weighted ones", i, k - 1, far)
        elif not ok and d > 1:  # too many variables for the linear program; but in several dimensions plans are unique up to near ties
            far = min((np.abs(z - ref.etpf(x, w, metric)[0]) > 1e-5 * sc).any(0).sum() for metric in ("euclidean", "sqeuclidean"))
            require(far <= 5, "step %d of %d: %d of %d stored particles are away from the optimal transport of the weighted ones",
                    i, k - 1, far, N)
    return dict(nontrivial=spread > 0.01 and k > 3,
                classes=flow.classes(p) + [p["U"]["kind"], "amplitude %s" % (p["U"]["amp"] if p["U"]["amp"] in (1, 30, 300) else "higher"), "U dt varies by %s" % p.get("rel"),
                                           "concentrated" if spread > 10 else "spread weights"])


def strat_inv(backend):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            p = draw(flow.problem([backend], dims=(2, 3, 4, 6), steps=(3, 15), reweight=(True,), gs=("scalar", "column"),
                                  N=(10, 40), M=(8, 25)))
            p["U"]["amp"] = min(p["U"]["amp"], 300.0)
            p["shift"] = draw(s.sampled_from([1.0, -700.0, 5000.0, -20000.0, -2e6, 8e5]))
            p["flat"] = draw(s.booleans())
            return p
        return draw_case()
    return make


def check_inv(p):
    """a constraint that does not depend on the state changes nothing; constants do not matter"""
    U = gen.potential(dict(p["U"], dim=p["sys"]["dim"]), p["backend"])
    c = p["shift"]
    if p["flat"]:
        a = flow.build(dict(p, U=None), record=False)
        b = flow.build(p, record=False, U=lambda x, t: 0.0 * x[0] + c * (1 + t))
    else:
        a = flow.build(p, record=False)
        b = flow.build(p, record=False, U=lambda x, t: U(x, t) + c)
    sc = a.Z.std(axis=(1, 2)).max()
    for name, x, y in (("forward", a.Z, b.Z), ("backward", a.B, b.B)):
        off = np.abs(x - y) / sc
        e, lim = off.max(), 1e-4
        if lim < e < 0.3:
            # rounding selects another of two almost optimal transports, or the particles magnify it
            i = int(np.argmax(off.max((0, 1)) > lim))
            if name == "forward" and not p["flat"] and (off[:, :, i].max(0) > lim).sum() <= max(4, p["N"] // 10) and \
                    np.abs(x[:, :, i].mean(1) - y[:, :, i].mean(1)).max() <= 1e-5 * sc:
                return dict(nontrivial=False, classes=["tied transports"])
            y1, y2 = flow.endpoints(p)
            near = flow.build(p if not p["flat"] else dict(p, U=None), record=False, y1=y1 + 1e-7 * sc, y2=y2 + 1e-7 * sc)
            lim += 30 * np.abs((near.Z if name == "forward" else near.B) - x).max() / sc
        require(e <= lim, "%s changes the %s flow by %.3g standard deviations",
                "a constraint that is the same everywhere" if p["flat"] else "a constant added to the constraint", name, e)
    return dict(nontrivial=p["steps"] >= 4, classes=[p["backend"], "flat" if p["flat"] else "shifted", "dim%d" % p["sys"]["dim"],
                                                     "constant %g" % c])


SUBS = [Sub("transport numpy", strat("numpy"), check, 180, 3000, 4, qshards=2),
        Sub("transport pytorch", strat("torch"), check, 180, 3000, 4, qshards=2),
        Sub("transport bridge", lambda: gen.st().one_of(strat("numpy", (True,), (True,))(), strat("torch", (True,), (True,))()),
            check, 100, 1500, 2),
        Sub("large numpy", strat_large("numpy"), check, 48, 600, 2),
        Sub("large pytorch", strat_large("torch"), check, 48, 600, 2),
        Sub("constants numpy", strat_inv("numpy"), check_inv, 120, 1500, 2),
        Sub("constants pytorch", strat_inv("torch"), check_inv, 120, 1500, 2)]
