"""The PyTorch score estimator equals the numpy one for every accepted input."""
import numpy as np

from vlib import est, gen, ref, sutmod as S
from vlib.core import Sub, require, sut

RULE = ("as for the numpy estimator, and every combination of documented input containers (array or tensor, lengthscale "
        "as number, sequence, array or tensor, device given or not); compared with the closed form and with the numpy "
        "implementation; non-trivial: at least 5 samples, 2 inducing points, a non-constant score")
ASSUMPTIONS = ["double precision inputs", "CPU device (no GPU in the sandbox)"]


def strat():
    s = gen.st()
    return s.builds(lambda c, x, z, lk, dev, fo, q: dict(c, xk=x, zk=z, lk=lk, device=dev, func=fo, qk=q),
                    est.case(["torch"]), s.sampled_from(["array", "tensor"]), s.sampled_from(["array", "tensor"]),
                    s.sampled_from(["float", "npfloat", "tensor0", "tensor1", "list", "tuple", "array", "tensor", "int"]),
                    s.sampled_from([None, "cpu", "torch.cpu"]), s.booleans(), s.sampled_from(["array", "tensor"]))


def wrap(a, kind):
    return S.torch.tensor(np.ascontiguousarray(a), dtype=S.torch.float64) if kind == "tensor" else np.array(a)


def check(case):
    T = S.torch
    case = dict(case, lvec=case["lk"] in ("list", "tuple", "array", "tensor"))
    X, Z, l, C = est.build(case)
    lk = case["lk"]
    if lk == "int":
        l = max(1, int(round(l)))
    L = {"float": lambda: float(l), "npfloat": lambda: np.float64(l), "int": lambda: int(l),
         "tensor0": lambda: T.tensor(float(l), dtype=T.float64), "tensor1": lambda: T.tensor([float(l)], dtype=T.float64),
         "list": lambda: [float(v) for v in l], "tuple": lambda: tuple(float(v) for v in l),
         "array": lambda: np.array(l), "tensor": lambda: T.tensor(np.array(l), dtype=T.float64)}[lk]()
    kw = {} if C is None else {"C": C}
    if case["device"]:
        kw["device"] = T.device("cpu") if case["device"] == "torch.cpu" else "cpu"
    tx, tz = wrap(X, case["xk"]), wrap(Z, case["zk"])
    scale = est.scales(case, X, Z, l, C)
    want = est.reference(case, X, Z, l, C)
    out = sut(S.tscore, tx, tz, func_out=False, l=L, **kw)
    require(T.is_tensor(out) and out.dtype == T.float64 and tuple(out.shape) == X.shape,
            "the score is not a double tensor of the samples' shape: %r", getattr(out, "shape", type(out)))
    est.compare(out, want, "pytorch score at the samples", scale=scale)
    ours = sut(S.alld, X, Z, func_out=False, l=l, **({} if C is None else {"C": C}))
    est.compare(out, ours, "pytorch against numpy", scale=scale)
    if case["func"]:
        rng = np.random.default_rng(case["cloud"]["seed"])
        K = int(rng.choice([rng.integers(1, 9)] * 7 + [rng.integers(100, 1000)]))
        Q = X.mean(0) + np.where(X.std(0) > 0, X.std(0), 1.0) * rng.normal(size=(K, X.shape[1])) * rng.choice([1.0, 3.0, 12.0])
        f = sut(S.tscore, tx, tz, func_out=True, l=L, **kw)
        r = sut(f, wrap(Q, case["qk"]))
        require(T.is_tensor(r) and r.dtype == T.float64 and tuple(r.shape) == Q.shape,
                "the score function does not return a double tensor of the points' shape: %r", getattr(r, "shape", type(r)))
        est.compare(r, est.reference(case, X, Z, l, C, at=Q), "pytorch score function",
                    scale=est.scales(case, X, Z, l, C, Q))
        est.compare(r, est.reference(case, X, Z, l, C, at=Q), "pytorch score function, far points included",
                    scale=est.pointwise(case, X, Z, l, C, Q))
        r2 = sut(f, wrap(X, case["xk"]))
        est.compare(r2, want, "pytorch score function at the samples", scale=scale)
    for a, b, n in ((tx, X, "samples"), (tz, Z, "inducing points")):
        require(np.array_equal(est._np(a), b), "the %s were modified", n)
    info = est.describe(case, want)
    info["classes"] = ["X " + case["xk"], "Z " + case["zk"], "l " + lk, "device %s" % case["device"],
                       "function" if case["func"] else "samples", "dim%d" % X.shape[1]]
    return info


SUBS = [Sub("pytorch", strat, check, 2000, 24000, 6, qshards=3)]
