"""Histories: working with the package over and over does not pile up memory."""
import ctypes
import gc
import sys

import numpy as np

from vlib import flow, gen, sutmod as S
from vlib.core import Sub, require, sut

RULE = ("a generated problem (any mode, both backends) is solved, its controls evaluated and everything dropped, ten times in "
        "one process; after the first four rounds the resident memory must not grow any further with the rounds; the same for "
        "repeated controls of one controller and repeated score estimates; non-trivial: the data of a round exceed 256 kB")
ASSUMPTIONS = ["resident memory after a collection and a trim of the allocator; a growth below 6 MB and below a quarter of the "
               "arrays of the rounds is taken as noise; live Python objects, numpy arrays and tensors: 0.15 MB and a tenth"]

ROUNDS, WARM = 10, 4


def resident():
    gc.collect()
    try:
        ctypes.CDLL("libc.so.6").malloc_trim(0)
    except OSError:
        pass
    with open("/proc/self/statm") as fh:
        return int(fh.read().split()[1]) * 4096 / 1e6


def live():
    """MB of the arrays and tensors that Python keeps alive, and of Python's own small memory blocks"""
    T = sys.modules["torch"].Tensor if "torch" in sys.modules else ()
    held, out = {}, 32 * sys.getallocatedblocks()
    objs = gc.get_objects()
    for o in objs:
        if T and isinstance(o, T):
            held[id(o)] = o.untyped_storage().nbytes() if o.layout == sys.modules["torch"].strided else 0
    for o in gc.get_referents(*objs):       # arrays are not tracked themselves
        if type(o) is np.ndarray:
            while isinstance(o.base, np.ndarray):
                o = o.base
            held[id(o)] = o.nbytes
    return (out + sum(held.values())) / 1e6


def rounds(work):
    """resident memory and live data after each round"""
    mem, objects = np.zeros(ROUNDS), np.zeros(ROUNDS)
    for k in range(ROUNDS):
        work(k)
        mem[k] = resident()
        if k >= WARM - 1:
            objects[k] = live()
    return mem, objects


def judge(got, scale, what):
    """scale: MB which a round works with and could leave behind"""
    mem, objects = got
    grown = mem[-1] - mem[WARM - 1]
    # a leak grows round by round, not in one jump of the allocator
    steps = np.diff(mem[WARM - 1:])
    jump = grown - np.sort(steps)[-1]
    lim = max(6.0, 0.25 * scale)
    require(min(grown, jump) <= lim, "%s: memory grows by %.1f MB over %d further rounds (%s)", what, grown, ROUNDS - WARM,
            ", ".join("%.0f" % m for m in mem))
    grown = objects[-1] - objects[WARM - 1]
    steps = np.diff(objects[WARM - 1:])
    jump = grown - np.sort(steps)[-2:].sum()
    require(min(grown, jump) <= max(0.15, 0.1 * scale), "%s: the arrays and objects that stay alive grow by %.2f MB over %d further "
            "rounds (%s)", what, grown, ROUNDS - WARM, ", ".join("%.2f" % m for m in objects[WARM - 1:]))


def strat(backend):
    def make():
        return flow.problem([backend], steps=(20, 40), reweight=(False, True), gs=("scalar", "column"),
                            det=(True, True, False), bb=(False, False, True), N=(150, 260), M=(40, 60)).map(fix)
    return make


def fix(p):
    if p["bb"]:
        p["det"] = True
    return p


def check(p):
    n = p["steps"]

    def work(k):
        r = flow.build(dict(p, seed=p["seed"] + k), record=False)
        rng = np.random.default_rng([51, p["seed"], k])
        for ti in rng.integers(1, n, size=4):
            flow.calc_u(r, r.B[:, :60, ti].T, int(ti))
            sut(r.obj.check_if_covered, [float(v) for v in r.B[:, 0, ti]], int(ti))
    d = p["sys"]["dim"]
    size = 8e-6 * p["N"] * d * n * 2
    judge(rounds(work), size, "solving")
    return dict(nontrivial=size > 0.25, classes=flow.classes(p))


def strat_u(backend):
    def make():
        return flow.problem([backend], steps=(20, 30), reweight=(False, True), N=(100, 200), M=(40, 60))
    return make


def check_u(p):
    r = flow.build(p, record=False)
    rng = np.random.default_rng([52, p["seed"]])

    def work(k):
        for ti in rng.integers(1, p["steps"], size=25):
            flow.calc_u(r, r.B[:, :, ti].T, int(ti))
            sut(r.obj.check_if_covered, [float(v) for v in r.B[:, 0, ti]], int(ti))
    size = 8e-6 * 25 * p["N"] * p["sys"]["dim"]
    judge(rounds(work), size, "evaluating the control")
    return dict(nontrivial=True, classes=flow.classes(p))


def strat_s():
    s = gen.st()
    return s.fixed_dictionaries(dict(which=s.sampled_from(["separate", "all", "old", "pytorch", "kernel", "distances", "transport"]),
                                     dim=s.integers(1, 3), N=s.integers(200, 400), M=s.integers(30, 80), seed=gen.seeds(),
                                     func=s.booleans()))


def check_s(c):
    d, N, M = c["dim"], c["N"], c["M"]
    rng0 = np.random.default_rng([53, c["seed"]])

    def work(k):
        for _ in range(10):
            rng = np.random.default_rng(rng0.integers(1 << 30))
            X = rng.normal(size=(N, d))
            Sx = rng.normal(size=(M, d))
            if c["which"] == "separate":
                o = sut(S.sep, X, Sx, func_out=c["func"], C=0.001, which=1, l=[1.0] * d, which_dim=1)
            elif c["which"] == "all":
                o = sut(S.alld, X, Sx, func_out=c["func"], C=0.001, l=[1.0] * d)
            elif c["which"] == "old":
                o = sut(S.old, X, Sx, func_out=c["func"], C=0.001, which=1, l=1.0, which_dim=1)
            elif c["which"] == "pytorch":
                t = lambda a: S.torch.tensor(a, dtype=S.torch.float64)
                X, Sx = t(X), t(Sx)
                o = sut(S.tscore, X, Sx, func_out=c["func"], C=0.001, l=t(np.ones(d)))
            elif c["which"] == "kernel":
                K = sut(S.RBF, S.torch.ones(d, dtype=S.torch.float64), multil=True)
                t = lambda a: S.torch.tensor(a, dtype=S.torch.float64)
                o = sut(K.Kernel, t(X), t(Sx))
            elif c["which"] == "distances":
                o = sut(S.my_cdist, X, Sx, np.zeros((N, M)), "sqeuclidean")
            else:
                w = rng.random(N)
                o = sut(S.reweight, X, w / w.sum())
            if callable(o):
                sut(o, X)
    judge(rounds(work), 8e-6 * 10 * N * M, "estimating (%s)" % c["which"])
    return dict(nontrivial=True, classes=[c["which"], "dim%d" % d])


SUBS = [Sub("solves numpy", strat("numpy"), check, 10, 200, 6, qshards=2),
        Sub("solves pytorch", strat("torch"), check, 18, 300, 8, qshards=6),
        Sub("controls", lambda: gen.st().one_of(strat_u("numpy")(), strat_u("torch")()), check_u, 6, 150, 4, qshards=2),
        Sub("estimators", strat_s, check_s, 14, 300, 4, qshards=2)]
