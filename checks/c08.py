"""PyTorch Gaussian kernel: values, gradients, no memory of earlier calls."""
import numpy as np

from vlib import gen, sutmod as S
from vlib.core import Sub, require, sut

RULE = ("a kernel object with generated hyper-parameters and a generated history of value and gradient requests on "
        "generated point sets; each answer is compared with the formula and the gradient with central differences; "
        "non-trivial: at least 2 requests on different points; "
        "automatic differentiation by points and hyper-parameters, hyper-parameters changed between requests")
ASSUMPTIONS = ["the gradient routine returns (x - y) / l^2 * k(x, y): the derivative with respect to the second point, "
               "i.e. minus that with respect to the first, as every caller in the repository expects"]


def strat():
    s = gen.st()
    req = s.fixed_dictionaries(dict(
        op=s.sampled_from(["kernel", "gradient", "kernel+gradient", "kernel self", "gradient self", "differentiate"]), learn=s.sampled_from([None] * 7 + [0.5, 1.7]), again=s.booleans(),
        dim=s.sampled_from([None, None, None, 1, 2, 3, 5]), n=s.integers(1, 12), m=s.integers(1, 12), seed=gen.seeds(), x=s.sampled_from(["array", "tensor"]),
        y=s.sampled_from(["array", "tensor"]), spread=s.sampled_from([1.0, 0.1, 4.0]), off=s.sampled_from([0.0, 0.0, 10.0, 1e6]),
        big=s.sampled_from([1] * 9 + [25]), bigm=s.sampled_from([1] * 9 + [25])))
    return s.fixed_dictionaries(dict(
        dim=s.sampled_from([1, 2, 3, 4, 5, 6] * 3 + [7, 8, 10, 12]), multil=s.booleans(), lk=s.sampled_from(["number", "array", "tensor", "list"]),
        lseed=s.integers(0, 9999), var=s.sampled_from([1.0, 0.5, 2.5, None]), reqs=s.lists(req, min_size=1, max_size=5)))


def check(case):
    T = S.torch
    d = case["dim"]
    rng = np.random.default_rng([1, case["lseed"]])
    # some coordinates in very small or very large units
    unit = 10.0 ** rng.choice([0, 0, 0, 0, -5, 4], size=d) if case["multil"] else np.full(1, 10.0 ** rng.choice([0, 0, 0, -5, 4]))
    l = np.exp(rng.uniform(-1, 1, size=d)) * unit if case["multil"] else float(np.exp(rng.uniform(-1, 1)) * unit[0])
    if case["multil"]:
        L = {"array": np.array(l), "tensor": T.tensor(l, dtype=T.float64)}.get(case["lk"], [float(v) for v in l])
    else:
        L = {"tensor": T.tensor(l, dtype=T.float64), "array": np.array(l)}.get(case["lk"], float(l))
    kw = {} if case["var"] is None else {"signal_variance": case["var"]}
    var = 1.0 if case["var"] is None else case["var"]
    k = sut(S.RBF, length_scale=L, multil=case["multil"], **kw) if case["multil"] or case["lseed"] % 2 else \
        sut(S.RBF, length_scale=L, **kw)

    prior = False

    def val(x, y):
        return var * np.exp(-0.5 * (((x[:, None] - y[None]) / np.asarray(l, float)) ** 2).sum(2))

    last, prev, given = None, None, []
    for r in case["reqs"]:
        if not case["multil"]:              # one lengthscale serves points of any dimension
            d = r["dim"] or case["dim"]
        if r["again"] and prev:             # the objects of the last request with new contents
            d = last[0].shape[1]
            r = dict(r, **{key: prev[key] for key in ("n", "m", "big", "bigm", "x", "y")})
        prev = r
        g = np.random.default_rng(r["seed"])
        off = r["off"] * g.normal(size=d) * unit
        x = g.normal(size=(r["n"] * r["big"], d)) * r["spread"] * unit + off
        y = g.normal(size=(r["m"] * r["bigm"], d)) * r["spread"] * unit + off
        slack = 1.0 if r["off"] < 100 else 1e4          # rounding of the coordinates themselves
        X = T.tensor(x, dtype=T.float64) if r["x"] == "tensor" else x.copy()
        Y = T.tensor(y, dtype=T.float64) if r["y"] == "tensor" else y.copy()
        if r["again"] and last:
            for u, v in zip(last, (X, Y)):
                u[...] = v
            X, Y = last
        last = X, Y
        op = r["op"]
        if r["learn"] and prior:             # what an optimiser does with the hyper-parameters
            with T.no_grad():
                k.length_scale.mul_(r["learn"])
                k.signal_variance.mul_(1 / r["learn"])
            l = l * r["learn"] if not case["multil"] else np.asarray(l, float) * r["learn"]
            var = var / r["learn"]
        prior = True
        if op == "differentiate":
            differentiate(k, x, y, l, var, val(x, y), r["seed"], slack)
            continue
        if op.endswith("self"):
            y, args = x, (X,)
        else:
            args = (X, Y)
        want = val(x, y)
        if op.startswith("kernel"):
            K = sut(k.Kernel, *args)
            require(tuple(K.shape) == want.shape, "kernel shape %r", tuple(K.shape))
            e = np.abs(K.detach().numpy() - want).max()
            require(e <= 1e-10 * slack * var, "kernel values off by %g", e)
            # the exponent is accurate to rounding, so small values are accurate relative to themselves
            K = K.detach().numpy()
            given.append((K, K.copy()))
            sq = -2 * np.log(np.maximum(want / var, 1e-300))
            bad = ~(np.abs(K - want) <= 1e-9 * slack * (1 + sq) * want + 1e-290)
            require(not bad.any(), "kernel value %g instead of %g (%d of them wrong)", K[bad].max() if bad.any() else 0, want[bad].max() if bad.any() else 0, bad.sum())
        if "gradient" in op:
            G = sut(k.gradient_X, *args)
            exact = (x[:, None] - y[None]) / np.asarray(l, float) ** 2 * want[:, :, None]
            require(tuple(G.shape) == exact.shape, "gradient shape %r", tuple(G.shape))
            lv = np.broadcast_to(np.asarray(l, float), (d,))
            h = 1e-5 * lv
            num = np.stack([(val(x, y + h * np.eye(d)[i]) - val(x, y - h * np.eye(d)[i])) / (2 * h[i]) for i in range(d)], 2)
            G = G.detach().numpy()
            given.append((G, G.copy()))
            e = (np.abs(G - exact) * lv).max()
            require(e <= 1e-9 * slack * max(1.0, r["spread"]), "kernel gradient off by %g", e)
            e = (np.abs(G - num) * lv).max() if r["off"] < 100 else 0.0
            require(e <= 1e-6 * var * max(1.0, r["spread"] ** 2), "kernel gradient is not the derivative (off by %g)", e)
        require(np.array_equal(X if r["x"] == "array" else X.numpy(), x), "points modified")
        if not op.endswith("self"):
            require(np.array_equal(Y if r["y"] == "array" else Y.numpy(), y), "second points modified")
    for now, then in given:
        require(np.array_equal(now, then), "an earlier answer of the kernel object changed")
    return dict(nontrivial=len(case["reqs"]) >= 2,
                classes=["multil" if case["multil"] else "single l", "l " + case["lk"], "dim%d" % d] +
                        [r["op"] for r in case["reqs"]] + ["offset %g" % r["off"] for r in case["reqs"]])


def differentiate(k, x, y, l, var, K, seed, slack):
    """automatic differentiation of a weighted sum of kernel values by points and hyper-parameters"""
    T = S.torch
    d = x.shape[1]
    w = np.random.default_rng([2, seed]).uniform(0.5, 1.5, size=K.shape)
    X, Y = (T.tensor(a, dtype=T.float64, requires_grad=True) for a in (x, y))
    out = (sut(k.Kernel, X, Y) * T.tensor(w)).sum()
    got = sut(T.autograd.grad, out, [X, Y, k.length_scale, k.signal_variance], retain_graph=True)
    got = [a.detach().numpy() for a in got]
    lv = np.broadcast_to(np.asarray(l, float), (d,))
    z = (x[:, None] - y[None]) / lv
    by = (w * K)[:, :, None] * z / lv
    bl = (w * K)[:, :, None] * z ** 2 / lv
    want = [-by.sum(1), by.sum(0), bl.sum((0, 1)) if np.ndim(l) else bl.sum(), (w * K).sum() / var]
    size = [(np.abs(by) * lv).max() / lv * K.shape[1], (np.abs(by) * lv).max() / lv * K.shape[0],
            (np.abs(bl) * lv).max() / (lv if np.ndim(l) else lv[0]) * K.size * (1 if np.ndim(l) else d), K.size]
    for name, a, b, s in zip(("first points", "second points", "lengthscale", "signal variance"), got, want, size):
        require(a.size == b.size, "derivative by the %s of shape %r", name, a.shape)
        e = (np.abs(a.reshape(np.shape(b)) - b) / (s + 1e-290)).max()
        require(e <= 1e-8 * slack, "the derivative by the %s is off by %g", name, e)


SUBS = [Sub("history", strat, check, 2400, 20000, 4, qshards=2)]
