"""Solved problems can be copied, stored and sent to other processes."""
import copy
import os
import pickle
import tempfile

import numpy as np

from vlib import flow, gen, pick, sutmod as S
from vlib.core import Sub, Violation, require, sut

RULE = ("a generated problem of any mode and backend (with functions that can be pickled) is solved, possibly used, then copied, "
        "deep-copied, pickled (every protocol), stored in a file or sent to another process and back; flows, controls, coverage and drift "
        "of the result must equal the original's, and what is done with one must not change the other; non-trivial: at "
        "least 5 steps and one control evaluated")
ASSUMPTIONS = ["the drift, constraint and end points can themselves be copied and pickled", "both random generators are seeded before "
               "each control"]
HOWS = ["copy", "deepcopy", "pickle 2", "pickle 4", "pickle 5", "file", "process", "process", "process and back", "twice"]


def strat(backend):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            p = draw(flow.problem((backend,), dims=(1, 2, 3, 5), steps=(3, 16), reweight=(False, False, True), bb=(False, False, True),
                                  det=(True, True, False), N=(8, 25), M=(4, 15), gs=("scalar", "column"), pots=("quadratic", "bump"), grow=True))
            if p["bb"]:
                p["det"] = True
            if p["U"]:
                p["U"]["amp"] = min(p["U"]["amp"], 30.0)
            if draw(s.integers(0, 5)) == 0:         # larger
                p.update(N=draw(s.integers(80, 300)), steps=draw(s.integers(25, 45)) if not p["U"] else p["steps"])
            return dict(p=p, how=draw(s.sampled_from(HOWS)), used=draw(s.booleans()),
                        requests=draw(s.lists(s.fixed_dictionaries(dict(pos=s.integers(0, 40), n=s.integers(1, 4), seed=s.integers(0, 5))),
                                              min_size=1, max_size=4)))
        return draw_case()
    return make


_worker = []


def worker():
    if not _worker or _worker[0].p.poll() is not None:
        _worker[:] = [pick.Worker()]
    return _worker[0]


def same(got, want, what):
    require(set(got) == set(want), "%s: has %r instead of %r", what, sorted(got), sorted(want))
    for k in want:
        g, w = got[k], want[k]
        require(g.shape == w.shape, "%s: %s has shape %r instead of %r", what, k, g.shape, w.shape)
        if k in ("Z", "B", "Ztr", "timegrid") or k.startswith("covered"):
            require(np.array_equal(g, w), "%s: %s differs (%d of %d values)", what, k, (g != w).sum(), w.size)
        else:
            e = np.abs(g - w).max()
            require(e <= 1e-6 * np.abs(w).max() + 1e-300, "%s: %s differs by %.3g (of %.3g)", what, k, e, np.abs(w).max())


def check(c):
    p, how = c["p"], c["how"]
    lib = p["backend"]
    d = p["sys"]["dim"]
    y2 = flow.endpoints(p)[1]
    f = pick.Fn("bridge", (p, y2.tolist()), lib) if p["bb"] else pick.Fn("drift", p["sys"], lib)
    U = pick.Fn("potential", dict(p["U"], dim=d), lib) if p["U"] else None
    true = pick.Fn("drift", p["true"], lib) if p["bb"] else None
    r = flow.build(p, record=False, f=f, U=U, f_true=true)
    obj = r.obj
    req = []
    for q in c["requests"]:
        rng = np.random.default_rng([11, q["seed"], q["pos"]])
        ti = 1 + q["pos"] % (r.k - 2)
        b = r.B[:, :, ti]
        x = b[:, rng.integers(0, p["N"], size=q["n"])] + 0.2 * b.std(1)[:, None] * rng.normal(size=(d, q["n"]))
        req.append((x.T.copy(), ti, q["seed"]))
    ask = lambda o: sut(pick.answers, o, lib, req)
    if c["used"]:
        first = ask(obj)
    cls = flow.classes(p) + [how, "used before" if c["used"] else "fresh"]
    other = None
    if how == "copy":
        other = sut(copy.copy, obj)
    elif how == "deepcopy":
        other = sut(copy.deepcopy, obj)
    elif how.startswith("pickle"):
        other = sut(pickle.loads, sut(pickle.dumps, obj, protocol=int(how[-1])))
    elif how == "twice":
        other = sut(copy.deepcopy, sut(pickle.loads, sut(pickle.dumps, sut(copy.deepcopy, obj))))
    elif how == "file":
        with tempfile.TemporaryDirectory() as tmp:
            name = os.path.join(tmp, "solution")
            if lib == "torch":
                sut(S.torch.save, obj, name)
                other = sut(S.torch.load, name, weights_only=False)
            else:
                with open(name, "wb") as fh:
                    sut(pickle.dump, obj, fh)
                with open(name, "rb") as fh:
                    other = sut(pickle.load, fh)
    want = ask(obj)
    if c["used"]:
        same(want, first, "the original after %s" % how)
    if how.startswith("process"):
        back = how.endswith("back")
        reply = worker().ask(sut(pickle.dumps, obj), lib, req, back)
        require(reply[0] == "ok", "in another process: %s", reply[1])
        same(reply[1], want, "in another process")
        if back:
            other = sut(pickle.loads, reply[2])
    if other is not None:
        require(type(other) is type(obj), "%s gives a %s", how, type(other).__name__)
        same(ask(other), want, how)
        # what happens to the copy does not happen to the original
        other.y2 = None
        if how != "copy":
            for k in ("Z", "B", "timegrid"):
                getattr(other, k)[...] = 0.25
            same(ask(obj), want, "the original after its %s was overwritten" % how)
    return dict(nontrivial=p["steps"] >= 5, classes=cls)


SUBS = [Sub("numpy", strat("numpy"), check, 135, 2500, 2, qshards=2),
        Sub("pytorch", strat("torch"), check, 135, 2500, 2, qshards=2)]
