"""Histories: reproducible, isolated from each other, and free of side effects."""
import gc
import io
import logging
import os
import random
import sys
import threading
import warnings

import numpy as np

from vlib import flow, gen, sutmod as S
from vlib.core import Sub, require, sut

RULE = ("a generated history of up to 12 operations (solve a problem, evaluate controls, coverage or the particle drift, "
        "solve an earlier problem again, change the log level) over several problems of both backends; after each "
        "operation every solved problem, the arguments and the settings of the process (gradient recording, default type, random "
        "generator of Python, logging, plots, environment, ...) must be unchanged, and every repeated operation must give its earlier result; "
        "or one problem stated in two equivalent ways; non-trivial: at least two problems solved or one repetition")
ASSUMPTIONS = ["both random generators (numpy's and PyTorch's global ones) are seeded before each operation",
               "equal means within 1e-4 of the spread (memory layout may change rounding)"]


def prob(backends=("numpy", "torch")):
    return flow.problem(backends, dims=(1, 1, 2, 2, 3, 3, 6), steps=(3, 20), reweight=(False, False, True), bb=(False, False, False, True),
                        det=(True, True, False), gs=("scalar", "column"), N=(8, 30), M=(4, 15), pots=("quadratic", "bump"), grow=True)


def strat():
    s = gen.st()

    @s.composite
    def draw_case(draw):
        n = draw(s.integers(1, 3))
        ps = [draw(prob()) for _ in range(n)]
        for p in ps:
            if p["bb"]:
                p["det"] = True
            if p["U"]:
                p["U"]["amp"] = min(p["U"]["amp"], 30.0)
        ops = draw(s.lists(s.fixed_dictionaries(dict(
            op=s.sampled_from(["solve", "solve", "control", "control", "covered", "drift", "logging", "release", "overwrite"]),
            which=s.integers(0, n - 1), pos=s.integers(0, 40), seed=s.integers(0, 3))), min_size=2, max_size=12))
        return dict(problems=ps, ops=ops)
    return draw_case()


def snap(r):
    out = dict(Z=flow.npa(r.obj.Z), B=flow.npa(r.obj.B), t=flow.npa(r.obj.timegrid))
    if r.p["bb"]:
        out["Ztr"] = flow.npa(r.obj.Ztr)
    return out


def random_state(lib):
    """the state of the generator a user would draw from next"""
    return S.torch.get_rng_state().numpy().tobytes() if lib == "torch" else (np.random.get_state()[1].tobytes(), np.random.get_state()[2])


def settings():
    """process-wide settings that belong to the user"""
    S.DPFC, S.torched_DPFC, S.my_cdist
    T = S.torch
    root = logging.getLogger()
    out = {"gradient recording": T.is_grad_enabled(), "inference mode": T.is_inference_mode_enabled(),
           "default dtype": T.get_default_dtype(), "torch threads": T.get_num_threads(),
           "deterministic algorithms": T.are_deterministic_algorithms_enabled(),
           "default device": str(T.get_default_device()) if hasattr(T, "get_default_device") else "",
           "anomaly detection": T.is_anomaly_enabled(), "tensor printing": T.tensor([1 / 3.0, 1e5]).__repr__(),
           "numpy error handling": np.geterr(), "numpy printing": str(np.get_printoptions()),
           "Python's random generator": hash(random.getstate()), "log level": root.level, "log handlers": list(root.handlers),
           "disabled logging": logging.root.manager.disable, "working directory": os.getcwd(),
           "environment": dict(os.environ), "recursion limit": sys.getrecursionlimit(), "garbage collection": gc.isenabled(),
           "warning filters": str(warnings.filters), "standard output": id(sys.stdout), "threads": threading.active_count(), "module search path": list(sys.path)}
    if "matplotlib" in sys.modules:
        import matplotlib
        out["plot settings"] = str(sorted(matplotlib.rcParams.items(), key=str))
        out["open figures"] = len(sys.modules["matplotlib.pyplot"].get_fignums()) if "matplotlib.pyplot" in sys.modules else 0
    return out


def close(a, b):
    return a.shape == b.shape and np.abs(a - b).max() <= 1e-4 * (np.std(b) + np.abs(b - b.mean()).max()) + 1e-12


class Logs:
    """log level that really formats its records, and catches failures to do so"""

    def __init__(self):
        self.root = logging.getLogger()
        self.old = self.root.level
        self.handler = logging.StreamHandler(io.StringIO())
        self.root.addHandler(self.handler)
        self.err, sys.stderr = sys.stderr, io.StringIO()

    def level(self, k):
        self.root.setLevel([logging.ERROR, logging.INFO, logging.DEBUG, logging.WARNING][k])

    def close(self):
        text = sys.stderr.getvalue()
        sys.stderr = self.err
        self.root.removeHandler(self.handler)
        self.root.setLevel(self.old)
        return text


def check(case):
    logs = Logs()
    try:
        info = history(case, logs)
    finally:
        text = logs.close()
    require("Logging error" not in text, "a log message could not be formatted: %s", text[-300:])
    return info


def history(case, logs):
    ps = case["problems"]
    live = {}            # latest object per problem
    snaps = {}
    seen = {}            # (op, arguments) -> result
    repeats = 0
    states = {}
    mine = settings()
    for o in case["ops"]:
        p = ps[o["which"]]
        i = o["which"]
        if o["op"] == "logging":
            logs.level(o["seed"])
            mine["log level"] = logs.root.level
            continue
        if o["op"] in ("release", "overwrite"):
            if i in live:
                r = live.pop(i)[0]
                if o["op"] == "overwrite":          # what the user does to the results is nobody else's business
                    for name in ("Z", "B", "timegrid"):
                        v = getattr(r.obj, name)
                        v *= 3.0
                        v += 1.0
                del r
                gc.collect()
            continue
        if o["op"] == "solve" or i not in live:
            seed = p["seed"] + o["seed"]
            r = flow.build(p, record=False, seed=seed)
            live[i] = (r, seed)
            snaps[i] = snap(r)
            key = (i, "solve", seed)
            state = random_state(r.lib)
            for k, v in states.items():
                if k[0] == i:
                    require((k[1] == seed) == (v == state), "solving problem %d with seeds %d and %d leaves the random generator in %s",
                            i, k[1], seed, "the same state" if v == state else "different states")
            states[(i, seed)] = state
            if key in seen:
                repeats += 1
                for name in seen[key]:
                    require(close(snaps[i][name], seen[key][name]), "%s differs when problem %d is solved again with the same seed",
                            name, i)
            for k, v in seen.items():
                if k[0] == i and k[1] == "solve" and k[2] != seed:
                    require(not close(snaps[i]["Z"][:, :, 1:], v["Z"][:, :, 1:]), "two seeds give the same flow")
            seen[key] = snaps[i]
        r, seed = live[i]
        k = r.k
        rng = np.random.default_rng(o["pos"])
        key = (i, o["op"], seed, o["pos"], o["seed"])
        res = None
        if o["op"] in ("control", "covered"):
            ti = 1 + o["pos"] % (k - 2)
            x = r.B[:, :, ti].T[rng.integers(0, p["N"], 4)].copy()
            x0 = x.copy()
            if o["op"] == "control":
                if o["seed"] == 3:      # near the ends the library switches to Gaussian approximations
                    ti = [1, 2, k - 3, k - 2][o["pos"] % 4] if k > 4 else ti
                arg = S.torch.tensor(x, dtype=S.torch.float64) if r.lib == "torch" else x
                flow.seed_all(o["seed"])
                res = flow.npa(sut(r.obj.calculate_u, arg, ti))
                x = flow.npa(arg)
            else:
                res = np.array([float(sut(r.obj.check_if_covered, x[:1], ti))])
            require(np.array_equal(x, x0), "the points of a %s request were modified", o["op"])
        elif o["op"] == "drift":
            ti = 1 + o["pos"] % (k - 1)
            x = r.Z[:, :, ti].copy()
            arg = S.torch.tensor(x, dtype=S.torch.float64) if r.lib == "torch" else x.copy()
            flow.seed_all(o["seed"])
            res = flow.npa(sut(r.obj.f_seperate, arg, float(r.t[ti])))
            require(np.array_equal(flow.npa(arg), x), "the particles handed to the drift were modified")
        if res is not None:
            if key in seen:
                repeats += 1
                require(close(res, seen[key]), "%s of problem %d differs when asked again with the same seed", o["op"], i)
            seen[key] = res
        here = settings()
        for n, v in mine.items():
            if here[n] != v:
                S.torch.set_grad_enabled(True)
                S.torch.set_default_dtype(S.torch.float32)
            require(here[n] == v, "%s on problem %d (%s) changed the %s of the process from %.200r to %.200r", o["op"], i, p["backend"],
                    n, v, here[n])
        for j, (q, _) in live.items():
            now = snap(q)
            for name in now:
                require(np.array_equal(now[name], snaps[j][name]), "%s on problem %d changed %s of problem %d", o["op"], i, name, j)
    return dict(nontrivial=len(live) > 1 or repeats > 0,
                classes=["%d problems" % len(live), "repeats" if repeats else "no repeats"] +
                        sorted({o["op"] for o in case["ops"]}) + sorted({p["backend"] for p in ps}))


def strat_recycled():
    s = gen.st()

    @s.composite
    def draw_case(draw):
        a = draw(prob())
        if a["bb"]:
            a["det"] = True
        a["steps"] = max(a["steps"], 12)
        ps = [a]
        for _ in range(draw(s.integers(1, 2))):         # the same problem elsewhere
            ps.append(dict(a, seed=draw(gen.seeds()), g=a["g"] * draw(s.sampled_from([1.0, 0.5])), y1scale=draw(s.sampled_from([1.5, 4.0]))
                           if a["sys"]["kind"] not in ("cycle", "well", "mixed") and not a["U"] else a["y1scale"]))
        return dict(problems=ps, order=draw(s.lists(s.integers(0, len(ps) - 1), min_size=3, max_size=8)), pos=draw(s.integers(0, 40)))
    return draw_case()


def results(r, pos):
    """everything a solved problem answers"""
    k = r.k
    rng = np.random.default_rng(pos)
    out = snap(r)
    for ti in sorted({1 + pos % (k - 2), k // 2, k - 2}):
        x = r.B[:, :, ti].T[rng.integers(0, r.p["N"], 4)].copy()
        out["the control at index %d" % ti] = flow.calc_u(r, x, ti, seed=pos)
        out["the coverage at index %d" % ti] = np.array([float(sut(r.obj.check_if_covered, y, ti)) for y in x])
    ti = k // 2
    x = r.Z[:, :, ti].copy()
    flow.seed_all(pos)
    out["the particle drift"] = flow.npa(sut(r.obj.f_seperate, S.torch.tensor(x, dtype=S.torch.float64) if r.lib == "torch" else x, float(r.t[ti])))
    return out


def check_recycled(case):
    """results are the same for objects that live side by side and for objects that take each other's place in memory"""
    ps, pos = case["problems"], case["pos"]
    live = [flow.build(p, record=False) for p in ps]
    want = [results(r, pos) for r in live]
    where = {id(r.obj) for r in live}
    del live
    gc.collect()
    reused = 0
    for i in case["order"]:
        r = flow.build(ps[i], record=False)
        reused += id(r.obj) in where
        got = results(r, pos)
        for name in want[i]:
            require(close(got[name], want[i][name]), "%s of problem %d differs when it is solved again after others were released", name, i)
        where.add(id(r.obj))
        del r
        gc.collect()
    return dict(nontrivial=reused > 0, classes=[ps[0]["backend"], "%d problems" % len(ps), "addresses reused" if reused else "fresh addresses"])


def strat_same(backend):
    def make():
        s = gen.st()
        return s.builds(lambda p, how: dict(p, how=how), prob([backend]),
                        s.sampled_from(["positional", "keywords", "reject", "periodic", "dens_est", "verbose", "off U", "off f_true",
                                        "explicit defaults", "cached callbacks", "bridge flag", "callable objects", "positional only", "numpy scalars", "flags as numbers", "reused outputs", "layout", "single precision results"] + (["device", "tracked parameters", "double default", "no gradients"] if backend == "torch" else [])))
    return make


def check_same(p):
    p = dict(p)
    if p["bb"]:
        p["det"] = True
    how = p["how"]
    if how == "single precision results":       # a weighting could turn rounding into another transport
        p["U"], p["bb"] = None, False
    if how == "double default":
        p["steps"] = min(p["steps"], 12)
    lib = p["backend"]
    cls = S.DPFC if lib == "numpy" else S.torched_DPFC
    logs = Logs()
    try:
        a = flow.build(p, record=False)
        t1, t2 = flow.times(p)
        y1, y2 = flow.endpoints(p)
        f, U, ft = a.f, a.U, a.f_true
        g = flow.gvalue(p)
        rw, bb, det = bool(p["U"]), p["bb"], p["det"]
        if lib == "torch":
            y1, y2 = (S.torch.tensor(v, dtype=S.torch.float64) for v in (y1, y2))
        base = dict(reweight=rw, U=U, f_true=ft, brown_bridge=bb, deterministic=det)
        args = (t1, t2, y1, y2, f, g, p["N"], p["M"])
        kw = {}
        cached = None
        if how == "positional":
            args = args + (rw, U, "nonparametric", False, "RBF", ft, bb, det)
        elif how == "keywords":
            kw = dict(base, t1=t1, t2=t2, y1=y1, y2=y2, f=f, g=g, N=p["N"], M=p["M"])
            args = ()
        elif how == "reject":
            kw = dict(base, reject=False)
        elif how == "periodic":
            kw = dict(base, kern="periodic")
        elif how == "dens_est":
            kw = dict(base, dens_est="nonparametric")
        elif how == "verbose":
            logs.level(2)
            kw = base
        elif how == "off U":       # a constraint that is given but not switched on
            kw = dict(base)
            if not rw:
                kw["U"] = gen.potential(dict(kind="quadratic", seed=1, amp=2000.0, dim=p["sys"]["dim"]), lib)
        elif how == "off f_true":
            kw = dict(base)
            if not bb:
                kw["f_true"] = gen.drift(dict(p["sys"], kind="linear", scale=50.0), lib)
        elif how == "bridge flag":      # the bridge mode concerns the reweighting: without it, nothing
            kw = dict(base)
            if not rw:
                kw.update(brown_bridge=True, f_true=gen.drift(dict(p["sys"], kind="linear", scale=50.0), lib))
        elif how == "explicit defaults":
            kw = dict(base, kern="RBF", dens_est="nonparametric", reject=True)
        elif how == "device":
            kw = dict(base, device="cpu")
        elif how in ("callable objects", "positional only"):
            class Fn:
                def __init__(self, fn):
                    self.fn = fn

                def __call__(self, state, time):
                    return self.fn(state, time)

            def wrap(fn):
                if fn is None:
                    return None
                return Fn(fn) if how == "callable objects" else (lambda a, b, /: fn(a, b))
            kw = dict(base, U=wrap(U), f_true=wrap(ft))
            args = (t1, t2, y1, y2, wrap(f), g, p["N"], p["M"])
        elif how == "numpy scalars":
            kw = base
            args = (np.float64(t1), np.float64(t2), y1, y2, f, g if p["gkind"] == "column" else np.float64(g), np.int64(p["N"]), np.int32(p["M"]))
        elif how == "flags as numbers":
            kw = dict(base, reweight=int(rw), brown_bridge=np.bool_(bb), deterministic=np.bool_(det), reject=0)
        elif how == "reused outputs":
            # functions that write all their results into one array
            def reuse(fn):
                buf = []

                def inner(x, t):
                    v = fn(x, t)
                    if not buf or buf[0].shape != v.shape:
                        buf[:] = [v]
                    else:
                        buf[0][...] = v
                    return buf[0]
                return inner
            kw = dict(base, U=reuse(U) if U else None, f_true=reuse(ft) if ft else None)
            args = (t1, t2, y1, y2, reuse(f), g, p["N"], p["M"])
        elif how == "layout":
            def turn(fn):
                return lambda x, t: fn(x, t).T.copy().T if lib == "numpy" else fn(x, t).T.contiguous().T
            kw = dict(base, f_true=turn(ft) if ft else None)
            args = (t1, t2, y1, y2, turn(f), g, p["N"], p["M"])
        elif how == "single precision results":         # as of most neural networks (here of values that are exact in it)
            def coarse(fn, wide=False):
                def inner(x, t):
                    v = fn(x, t)
                    v = v.float() if lib == "torch" else v.astype(np.float32)
                    return v if not wide else v.double() if lib == "torch" else v.astype(np.float64)
                return inner
            a = flow.build(p, record=False, f=coarse(f, True), f_true=coarse(ft, True) if ft else None)
            kw = dict(base, f_true=coarse(ft) if ft else None)
            args = (t1, t2, y1, y2, coarse(f), g, p["N"], p["M"])
        elif how == "tracked parameters":
            # functions of parameters that are to be learned, as of a neural network
            one = S.torch.nn.Parameter(S.torch.tensor(1.0, dtype=S.torch.float64))

            def track(fn):
                return lambda x, t: one * fn(x, t)
            kw = dict(base, U=track(U) if U else None, f_true=track(ft) if ft else None)
            args = (t1, t2, y1, y2, track(f), g, p["N"], p["M"])
        elif how in ("double default", "no gradients"):
            kw = base
        elif how == "cached callbacks":
            # functions that hand out the same array again and again
            store = {}

            def keep(fn):
                def inner(x, t):
                    key = (id(fn), float(t), flow.npa(x).tobytes())
                    if key not in store:
                        v = fn(x, t)
                        store[key] = (v, flow.npa(v).copy())
                    return store[key][0]
                return inner
            cached = store
            kw = dict(base, U=keep(U) if U else None, f_true=keep(ft) if ft else None)
            args = (t1, t2, y1, y2, keep(f), g, p["N"], p["M"])
        flow.seed_all(p["seed"])
        if how == "double default":
            before = S.torch.get_default_dtype()
            S.torch.set_default_dtype(S.torch.float64)
            try:
                o = sut(cls, *args, **kw)
            finally:
                S.torch.set_default_dtype(before)
        elif how == "no gradients":
            with S.torch.no_grad():
                o = sut(cls, *args, **kw)
        else:
            o = sut(cls, *args, **kw)
    finally:
        text = logs.close()
    require("Logging error" not in text, "a log message could not be formatted: %s", text[-300:])
    names = ["Z", "B"] + (["Ztr"] if p["bb"] else [])
    if how == "double default":     # the regularisation is then added in double precision: chaotic backward flows show it
        near = flow.build(p, record=False, y1=flow.endpoints(p)[0] + 1e-8 * a.Z.std(), y2=flow.endpoints(p)[1] + 1e-8 * a.Z.std())
        if np.abs(near.B - a.B).max() > 1e-6 * a.B.std():
            return dict(nontrivial=False, classes=["chaotic"])
    for n in names:
        x, y = flow.npa(getattr(o, n)), flow.npa(getattr(a.obj, n))
        sc = y.std() + 1e-12
        require(x.shape == y.shape and np.abs(x - y).max() <= (1e-4 if not p["U"] and how != "double default" else 1e-2) * sc,
                "%s: %s differs from the plain statement of the problem", how, n)
    x = a.B[:, :, a.k // 2].T[:3].copy()
    for ti in sorted({1, a.k // 2, a.k - 2}):
        v = flow.calc_u(a, x, ti, seed=3)
        flow.seed_all(3)
        u = flow.npa(sut(o.calculate_u, S.torch.tensor(x, dtype=S.torch.float64) if lib == "torch" else x.copy(), ti))
        e = np.abs(u - v).max() / (np.abs(v).max() + (1 / a.Z[:, :, ti].std(1)).max())
        require(u.shape == v.shape and e <= (1e-3 if not p["U"] else 5e-2), "%s: the control at index %d of %d differs from the plain "
                "statement of the problem by %.3g of its size", how, ti, a.k - 1, e)
    if cached:
        for v, w in cached.values():
            require(np.array_equal(flow.npa(v), w), "an array returned by the user's function was modified")
    return dict(nontrivial=p["steps"] >= 4, classes=flow.classes(p) + [how])


SUBS = [Sub("histories", strat, check, 150, 4000, 4, qshards=3),
        Sub("recycled", strat_recycled, check_recycled, 60, 1500, 3),
        Sub("statements numpy", strat_same("numpy"), check_same, 320, 3000, 3, qshards=3),
        Sub("statements pytorch", strat_same("torch"), check_same, 320, 3000, 3, qshards=3)]
