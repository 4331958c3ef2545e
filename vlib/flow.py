"""Generated flow-control problems, run on either backend with every call recorded."""
import numpy as np

from . import gen, ref
from . import sutmod as S
from .core import require, sut

DT = 0.001
WIDE = (1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 10)


def npa(a):
    if hasattr(a, "detach"):
        a = a.detach().cpu().numpy()
    return np.array(a, dtype=float)


def problem(backends=("numpy", "torch"), dims=(1, 2, 3, 4), steps=(3, 40), N=(8, 60), M=(5, 40), kinds=None,
            reweight=(None,), bb=(False,), det=(True,), gs=("scalar",), scale=2.0, target="reach",
            pots=("quadratic", "tracking", "linear", "bump"), t1s=(0.0, 0.5, -1.3, 7.25, 0.12345, 500.01), grow=False):
    """grow: now and then many steps, or many particles and inducing points"""
    s = gen.st()
    kinds = kinds or ("zero", "const", "linear", "cycle", "well", "forced", "alternating", "mixed")

    @s.composite
    def make(draw):
        d = dict(backend=draw(s.sampled_from(list(backends))), sys=draw(gen.system(dims, scale, kinds)),
                 steps=draw(s.integers(*steps)), N=draw(s.integers(*N)), M=draw(s.integers(*M)),
                 t1=draw(s.sampled_from(list(t1s))), seed=draw(gen.seeds()),
                 g=draw(s.sampled_from([0.5, 1.0, 0.2, 2.0, 0.02, 0.5, 1.0, 8.0])), gkind=draw(s.sampled_from(list(gs))),
                 det=draw(s.sampled_from(list(det))), bb=draw(s.sampled_from(list(bb))),
                 y1scale=draw(s.sampled_from([0.0, 0.5, 1.5])), far=draw(s.sampled_from([0.3, 0.8, 1.3])), home=draw(s.integers(0, 11)) == 11)
        size = draw(s.integers(0, 13)) if grow else 0
        if size == 12:
            d.update(steps=draw(s.integers(70, 220)))
            if d["sys"]["kind"] in ("cycle", "well", "mixed", "alternating"):
                d["sys"]["kind"] = "linear"
            d["sys"]["scale"] = min(d["sys"]["scale"], 1.0)
        elif size == 13:
            d.update(N=draw(s.integers(150, 450)), M=draw(s.integers(30, 150)), steps=min(d["steps"], draw(s.integers(steps[0], 12))))
        # fewer particles than this cannot represent the flows; a cubic drift, reversed, then explodes
        d["N"] = max(d["N"], 10 * d["sys"]["dim"])
        if d["sys"]["kind"] in ("cycle", "well", "mixed"):
            d["g"] = min(d["g"], 1.0)
        rw = draw(s.sampled_from(list(reweight)))
        d["U"] = draw(gen.potentials(pots)) if (rw or d["bb"]) else None
        if d["U"]:          # stronger constraints leave a single particle with all the weight
            d["U"]["amp"] = float(min(d["U"]["amp"], round(2000 / (d["g"] * (0.5 + 1.5 * d["y1scale"])))))
        if d["bb"]:
            d["true"] = draw(gen.system((d["sys"]["dim"],), scale, ("const", "linear", "cycle", "forced", "alternating", "mixed")))
        return d
    return make()


class Run:
    """one constructed problem; arrays as numpy, calls recorded"""


def times(p):
    return p["t1"], p["t1"] + p["steps"] * DT


def endpoints(p):
    rng = np.random.default_rng([17, p["seed"]])
    d = p["sys"]["dim"]
    y1 = rng.normal(size=d) * p["y1scale"]
    if p["sys"]["kind"] in ("cycle", "well", "mixed"):       # reversed, cubic drifts explode from far away
        y1 = y1 / max(1.0, np.linalg.norm(y1) / 1.2)
    f = gen.drift(p["sys"])
    T = p["steps"] * DT
    # where the noiseless system goes, plus a displacement of the order of the noise
    x = y1[:, None].copy()
    for i in range(p["steps"]):
        x = x + DT * f(x, p["t1"] + i * DT)
    v = rng.normal(size=d)
    v /= np.linalg.norm(v) + 1e-12
    y2 = x[:, 0] + p["far"] * gvec(p) * np.sqrt(T) * v
    if p.get("home") and np.linalg.norm((x[:, 0] - y1) / gvec(p)) <= 1.3 * np.sqrt(T):      # back to where it came from
        y2 = y1.copy()
    return y1, y2


def gvec(p):
    d = p["sys"]["dim"]
    if p["gkind"] == "column":
        rng = np.random.default_rng([19, p["seed"]])
        return p["g"] * np.exp(rng.uniform(-0.7, 0.7, size=d))
    return np.full(d, p["g"])


def gvalue(p):
    if p["gkind"] == "column":
        return gvec(p)[:, None]
    return p["g"]


def bridge_drift(p, y2, lib):
    """drift of a Brownian bridge towards y2, as used for the reweighted bridge mode"""
    t2 = times(p)[1]
    if lib == "torch":
        y = S.torch.tensor(y2, dtype=S.torch.float64)[:, None]
    else:
        y = y2[:, None]
    return lambda x, t: (y - x) / (t2 - t + DT)


def seed_all(seed):
    np.random.seed(seed % (2 ** 32))
    if "torch" in S._cache:
        S.torch.manual_seed(seed)


def build(p, record=True, f=None, U=None, f_true=None, y1=None, y2=None, g=None, seed=None, t=None, **extra):
    """Constructs the controller; any ingredient can be overridden."""
    lib = p["backend"]
    cls = S.DPFC if lib == "numpy" else S.torched_DPFC
    if lib == "torch":
        S.torch
    a, b = endpoints(p)
    y1 = a if y1 is None else y1
    y2 = b if y2 is None else y2
    t1, t2 = times(p) if t is None else t
    r = Run()
    r.p, r.lib = p, lib
    r.calls = {"f": [], "U": [], "f_true": []}
    r.handed = {}        # the states as they were, and the object the function was given
    if f is None:
        f = bridge_drift(p, npa(y2), lib) if p["bb"] else gen.drift(p["sys"], lib)
    if U is None and p["U"]:
        U = gen.potential(dict(p["U"], dim=p["sys"]["dim"]), lib)
    if f_true is None and p["bb"]:
        f_true = gen.drift(p["true"], lib)
    r.f, r.U, r.f_true = f, U, f_true

    def rec(name, fn):
        if fn is None or not record:
            return fn

        def wrapped(x, t):
            before = npa(x)
            out = fn(x, t)
            r.calls[name].append((before, float(t), npa(out)))
            r.handed.setdefault(name, []).append((before, x))
            return out
        return wrapped

    r.y1, r.y2 = npa(y1), npa(y2)
    if lib == "torch" and extra.pop("tensor_ends", True):
        y1 = S.torch.tensor(npa(y1), dtype=S.torch.float64)
        y2 = S.torch.tensor(npa(y2), dtype=S.torch.float64)
    extra.pop("tensor_ends", None)
    kw = dict(extra)
    if p["U"]:
        kw.update(reweight=True, U=rec("U", U))
    if p["bb"]:
        kw.update(brown_bridge=True, f_true=rec("f_true", f_true))
    if not p["det"]:
        kw.update(deterministic=False)
    seed_all(p["seed"] if seed is None else seed)
    r.obj = sut(cls, t1, t2, y1, y2, rec("f", f), gvalue(p) if g is None else g, p["N"], p["M"], **kw)
    collect(r)
    return r


def collect(r):
    o = r.obj
    r.Z, r.B, r.t = npa(o.Z), npa(o.B), npa(o.timegrid)
    r.k = int(o.k)
    r.Ztr = npa(o.Ztr) if r.p["bb"] else None
    for name, x in (("forward", r.Z), ("backward", r.B), ("uncontrolled", r.Ztr)):
        require(x is None or x.shape == (r.p["sys"]["dim"], r.p["N"], r.p["steps"] + 1), "the %s flow has shape %r for %d dimensions, "
                "%d particles and %d steps", name, getattr(x, "shape", 0), r.p["sys"]["dim"], r.p["N"], r.p["steps"])
    require(r.t.shape == (r.p["steps"] + 1,) and r.k == r.p["steps"] + 1, "%d grid points (k = %d) for %d steps", r.t.size, r.k, r.p["steps"])
    return r


def rounded(x, form):
    """points that can be handed over in that form without another rounding"""
    return np.round(x) + 0.0 if form == "integers" else x.astype(np.float32).astype(float) if form == "single" else x


def points_as(lib, x, form):
    x = np.array(x)
    if form == "integers":
        x = x.astype(int)
    elif form in ("single", "single array"):
        x = x.astype(np.float32)
    elif form == "transposed":
        x = np.ascontiguousarray(x.T).T
    if lib == "torch" and form not in ("array", "single"):
        x = S.torch.tensor(x) if form in ("integers", "transposed") else S.torch.tensor(x, dtype=S.torch.float64)
    return x


def calc_u(r, x, ti, seed=0, form=None):
    """control at the rows of x (K x dim): returned as dim x K"""
    seed_all(seed)
    arg = points_as(r.lib, x, form)
    u = npa(sut(r.obj.calculate_u, arg, ti))
    require(u.shape == np.asarray(x).T.shape, "controls of shape %r for %d points in %d dimensions", u.shape, *np.asarray(x).shape)
    return u


def ddof(lib):
    return 1 if lib == "torch" else 0


def box(lib, z, b):
    return ref.box_common(z, b) if lib == "numpy" else ref.box_of(z, b)


def classes(p):
    return [p["backend"], "dim%d" % p["sys"]["dim"], p["sys"]["kind"],
            "reweighted" if p["U"] else "plain", "bridge" if p["bb"] else "direct",
            "deterministic" if p["det"] else "stochastic", "g " + p["gkind"],
            "steps<12" if p["steps"] < 12 else "steps>=12" if p["steps"] < 70 else "steps>=70", "t1=%g" % p["t1"]] + ["N>=150"] * (p["N"] >= 150) + ["home"] * bool(p.get("home"))
