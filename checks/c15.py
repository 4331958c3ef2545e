"""The control: difference of the scores of the backward and the forward flow."""
import numpy as np

from vlib import flow, gen, law, ref
from vlib.core import Sub, require

RULE = ("a generated control problem (backend, drift, noise, dimension, path constraint, bridge mode, stochastic mode, 3-30 "
        "steps), a generated time index and generated points (particles of either flow, points between and around them); "
        "close to the ends the control must equal the difference of the Gaussian scores with the flows' means and standard "
        "deviations, elsewhere its average over 80 calls must equal the difference of the estimated scores; non-trivial: "
        "at least 2 points")
ASSUMPTIONS = ["time indices 1 to k-2 (at the ends of the interval a flow is a point mass)",
               "statistical thresholds at 9 standard errors", "bridge mode: the uncontrolled flow replaces the forward flow"]


def strat(backend, steps, where):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            size = draw(s.sampled_from(["usual", "usual", "usual", "usual", "long", "longer", "many", "many"]))
            more = dict(usual=dict(dims=flow.WIDE, steps=steps, N=(20, 60), M=(8, 40)),
                        long=dict(dims=(1, 2), steps=(60, 260), N=(20, 30), M=(8, 15), kinds=("zero", "const", "linear", "forced")),
                        longer=dict(dims=(1, 2), steps=(260, 450), N=(20, 30), M=(8, 15), kinds=("zero", "const", "linear", "forced"), scale=1.0),
                        many=dict(dims=(1, 2), steps=(steps[0], 16), N=(100, 400), M=(40, 120)))[size]
            p = draw(flow.problem([backend], reweight=(False, False, True) if size == "usual" else (False,),
                                  bb=(False, False, True) if size == "usual" else (False,),
                                  det=(True, True, True, False), gs=("scalar", "column"), **more))
            p["window"] = draw(s.sampled_from(["first", "last"] + [None] * (1 if "long" in size else 2)))
            if p["bb"]:
                p["det"] = True
            p["flag"] = not p["U"] and draw(s.integers(0, 4)) == 4        # bridge mode concerns reweighting only
            p["pos"] = draw(s.integers(0, 10 ** 6))
            p["K"] = draw(s.sampled_from([1, 2, 3, 4, 7, 20] if size != "many" else [3, 40, 150, 300, 700]))
            p["points"] = draw(s.sampled_from(["backward", "forward", "around", "between"]))
            p["form"] = draw(s.sampled_from([None, None, None, "transposed", "single", "array"] + ["integers"] * (2 if where == "ends" else 0)))
            p["index"] = draw(s.sampled_from(["int", "int", "int64", "int32"]))
            return p
        return draw_case()
    return make


def indices(k, where):
    if where == "ends":
        return [i for i in range(1, k - 1) if i <= 5 or i >= k - 5]
    return list(range(6, k - 5))


def points(p, b, z, rng):
    d, K = b.shape[0], p["K"]
    m, s = b.mean(1), b.std(1)
    if p["points"] == "backward":
        return b[:, rng.integers(0, b.shape[1], K)].T.copy()
    if p["points"] == "forward":
        return z[:, rng.integers(0, z.shape[1], K)].T.copy()
    if p["points"] == "around":
        return m + s * rng.normal(size=(K, d))
    lam = rng.random((K, 1))
    return lam * b[:, rng.integers(0, b.shape[1], K)].T + (1 - lam) * z[:, rng.integers(0, z.shape[1], K)].T


def prepare(p, where):
    more = dict(brown_bridge=True, f_true=gen.drift(dict(p["sys"], kind="const", scale=50.0), p["backend"])) if p["flag"] else {}
    r = flow.build(p, record=False, **more)
    idx = indices(r.k, where)
    if p.get("window"):        # close to where the kind of estimate changes
        idx = idx[:4] if p["window"] == "first" else idx[-4:]
    ti = idx[p["pos"] % len(idx)]
    rng = np.random.default_rng([41, p["seed"], p["pos"]])
    b = r.B[:, :, ti]
    z = (r.Ztr if p["bb"] else r.Z)[:, :, ti]
    x = flow.rounded(points(p, b, z, rng), p["form"])
    if p["index"] != "int":
        ti = getattr(np, p["index"])(ti)
    return r, ti, b, z, x, rng


def check_ends(p):
    r, ti, b, z, x, rng = prepare(p, "ends")
    u = flow.calc_u(r, x, ti, seed=p["pos"], form=p["form"])
    best = None
    for dd in (flow.ddof(r.lib), 1 - flow.ddof(r.lib)):
        vb, vz = b.var(1, ddof=dd), z.var(1, ddof=dd)
        want = (-(x - b.mean(1)) / vb + (x - z.mean(1)) / vz).T
        tol = 1e-8 * ((np.abs(x) + np.abs(b.mean(1))) / vb + (np.abs(x) + np.abs(z.mean(1))) / vz).T
        e = np.abs(u - want) / tol
        if best is None or not e.max() >= best[0]:
            best = (e.max(), e, want)
    e, want = best[1], best[2]
    i = np.unravel_index(np.argmax(np.where(np.isfinite(e), e, np.inf)), e.shape)
    require(best[0] <= 1.0, "index %d of %d: control %r is %r, the Gaussian densities of the flows give %r", ti, r.k - 1,
            tuple(int(v) for v in i), u[i], want[i])
    return dict(nontrivial=p["K"] >= 2, classes=flow.classes(p) + ["index %s" % (ti if ti <= 5 else ti - r.k), p["points"], "points as %s" % p["form"], "index as " + p["index"]])


def check_inside(p):
    r, ti, b, z, x, rng = prepare(p, "inside")
    M, dd = p["M"], flow.ddof(r.lib)
    box = flow.box(r.lib, z, b)
    nref = 160
    out = []
    lb, lz = 2 * b.std(1, ddof=dd), 2 * z.std(1, ddof=dd)
    lo, hi = box
    for _ in range(nref):
        s = lo + (hi - lo) * rng.random((M, len(lo)))
        out.append((ref.score(b.T, s, lb, at=x) - ref.score(z.T, s, lz, at=x)).T)
    out = np.array(out)
    want, sd = out.mean(0), out.std(0)
    n = [0]

    def draw():
        n[0] += 1
        return flow.calc_u(r, x, ti, seed=p["pos"] + 31 * n[0], form=p["form"])
    got, zed = law.averaged(draw, want, sd, nref, "", extra=1e-8 * np.abs(want).max() + 1e-4 * (1 / b.std(1) + 1 / z.std(1)).max())
    i = np.unravel_index(np.argmax(zed), zed.shape)
    require(zed.max() <= 9.0, "index %d of %d: control %r averaged over 80 calls is %.5g, the scores of the flows give %.5g "
            "(%.1f standard errors)", ti, r.k - 1, tuple(int(v) for v in i), got[i], want[i], zed.max())
    # the control at a point does not depend on the other points of the call
    u = flow.calc_u(r, x, ti, seed=p["pos"])
    j = rng.permutation(len(x))[: max(1, len(x) // 2)]
    v = flow.calc_u(r, x[j], ti, seed=p["pos"])
    e = np.abs(v - u[:, j]).max()
    require(e <= 1e-7 * np.abs(out).max(), "index %d of %d: the control at a point depends on the other points (by %.3g of %.3g)",
            ti, r.k - 1, e, np.abs(u).max())
    return dict(nontrivial=p["K"] >= 2, classes=flow.classes(p) + [p["points"], "points as %s" % p["form"], "index as " + p["index"]])


SUBS = [Sub("ends numpy", strat("numpy", (3, 30), "ends"), check_ends, 300, 4000, 3),
        Sub("ends pytorch", strat("torch", (3, 30), "ends"), check_ends, 300, 4000, 3),
        Sub("inside numpy", strat("numpy", (12, 30), "inside"), check_inside, 160, 2500, 5, qshards=2),
        Sub("inside pytorch", strat("torch", (12, 30), "inside"), check_inside, 160, 2500, 5, qshards=2)]
