"""Calls from several threads at once give what they give alone."""
import numpy as np

from vlib import est, flow, gen, law, ref, sutmod as S, threads
from vlib.core import Sub, require, sut

RULE = ("2 to 6 threads that take turns every microsecond: estimator, distance, kernel and transport calls with generated "
        "arguments against the same calls made alone; controls, coverage tests and drifts of one solved problem at different times and "
        "points; several generated problems solved at once, whose flows must follow their own dynamics; non-trivial: at "
        "least two threads with different arguments (solves: at least 6 steps)")
ASSUMPTIONS = ["schedules are sampled: the interpreter switches between threads at random points, as often as it allows",
               "random numbers come from the shared global generators, so results that depend on them are compared in law",
               "one kernel object is not used from two threads at once"]


# ---- functions of their arguments

def strat_calls():
    s = gen.st()
    cloud = est.case(("sep", "alld", "old", "sep2", "torch"), 60, 20)
    task = s.fixed_dictionaries(dict(kind=s.sampled_from(["score", "score", "score", "function", "distance", "kernel", "transport"]),
                                     case=cloud, seed=gen.seeds(), metric=s.sampled_from(["euclidean", "sqeuclidean", "l1"])))
    return s.fixed_dictionaries(dict(tasks=s.lists(task, min_size=2, max_size=6), same=s.booleans(), rounds=s.integers(3, 8)))


def job(t):
    """a function that makes the call, as often as one likes"""
    rng = np.random.default_rng([3, t["seed"]])
    c = t["case"]
    X, Z, l, C = est.build(c)
    if t["kind"] == "score":
        return lambda: est.evaluate(c, X, Z, l, C)
    if t["kind"] == "function":
        fs = est.make(c, X, Z, l, C)
        Q = X + 0.1 * X.std(0) * rng.normal(size=X.shape)
        if c["est"] == "torch":
            Q = S.torch.tensor(Q, dtype=S.torch.float64)
        return lambda: est.call(c, fs, Q)
    if t["kind"] == "distance":
        def distance():
            out = np.full((len(X), len(Z)), np.nan)
            sut(S.my_cdist, np.ascontiguousarray(X), np.ascontiguousarray(Z), out, t["metric"])
            return out
        return distance
    if t["kind"] == "kernel":
        scale = float(np.mean(l))
        k = sut(S.RBF, length_scale=scale)
        A, B = S.torch.tensor(X), S.torch.tensor(Z)
        return lambda: np.concatenate([flow.npa(sut(k.Kernel, A, B)).ravel(), flow.npa(sut(k.gradient_X, A, B)).ravel()])
    w = rng.gamma(0.5, size=(len(X), 1)) + 1e-12
    w /= w.sum()
    return lambda: flow.npa(sut(S.reweight, X, w))


def check_calls(c):
    tasks = c["tasks"]
    if c["same"]:           # the same kind of call everywhere, with different arguments of one size
        t0 = tasks[0]
        size = {k: t0["case"]["cloud"][k] for k in ("n", "m", "dim")}
        tasks = [dict(t, kind=t0["kind"], metric=t0["metric"], case=dict(t["case"], est=t0["case"]["est"], lvec=t0["case"]["lvec"],
                                                                         cloud=dict(t["case"]["cloud"], **size))) for t in tasks]
    jobs = [job(t) for t in tasks]
    want = [j() for j in jobs]
    tol = [1e-9 * np.abs(w).max() + 1e-300 for w in want]
    n = [max(1, int(c["rounds"] * 4e3 / (20 + w.size))) if t["kind"] != "transport" else c["rounds"] for t, w in zip(tasks, want)]

    def many(j, k):
        return lambda: [j() for _ in range(k)]
    got = threads.together([many(j, min(40, k)) for j, k in zip(jobs, n)])
    for t, w, e, gs in zip(tasks, want, tol, got):
        for g in gs:
            name = t["kind"] + (" (%s)" % t["case"]["est"] if t["kind"] in ("score", "function") else "")
            require(g.shape == w.shape, "%s among %d threads: shape %r instead of %r", name, len(jobs), g.shape, w.shape)
            bad = int((~(np.abs(g - w) <= e)).sum())
            require(not bad, "%s: %d of %d values differ when %d threads make such calls at the same time", name, bad, w.size, len(jobs))
    return dict(nontrivial=len({str(t["case"]["cloud"]) for t in tasks}) > 1,
                classes=["%d threads" % len(tasks)] + sorted({t["kind"] for t in tasks}))


# ---- one solved problem

def strat_one():
    s = gen.st()

    @s.composite
    def draw_case(draw):
        p = draw(flow.problem(dims=(1, 2, 3), steps=(14, 30), reweight=(False, False, True), bb=(False, False, True), N=(10, 40),
                              M=(5, 25), gs=("scalar", "column"), pots=("quadratic", "bump")))
        if p["U"]:
            p["U"]["amp"] = min(p["U"]["amp"], 30.0)
        p["threads"] = draw(s.lists(s.fixed_dictionaries(dict(
            what=s.sampled_from(["control", "control", "control", "covered", "drift"]), pos=s.integers(0, 100), n=s.integers(1, 12),
            seed=gen.seeds())), min_size=2, max_size=5))
        return p
    return draw_case()


def check_one(p):
    r = flow.build(p, record=False)
    d = p["sys"]["dim"]
    before = r.Z.copy(), r.B.copy()
    jobs, where = [], []
    for t in p["threads"]:
        rng = np.random.default_rng([5, t["seed"]])
        ti = 1 + t["pos"] % (r.k - 2)
        z = r.B[:, :, ti]
        x = z[:, rng.integers(0, p["N"], size=t["n"])] + 0.3 * z.std(1)[:, None] * rng.normal(size=(d, t["n"]))
        arg = S.torch.tensor(x.T.copy(), dtype=S.torch.float64) if r.lib == "torch" else x.T.copy()

        def control(arg=arg, ti=ti):
            return flow.npa(sut(r.obj.calculate_u, arg, ti))

        def covered(x=x, ti=ti):
            a = S.torch.tensor(x.T.copy(), dtype=S.torch.float64) if r.lib == "torch" else x.T
            return np.array([float(bool(sut(r.obj.check_if_covered, a[j], ti))) for j in range(len(a))])

        def drift(x=x, ti=ti):
            a = S.torch.tensor(x, dtype=S.torch.float64) if r.lib == "torch" else x.copy()
            return flow.npa(sut(r.obj.f_seperate, a, float(r.t[ti])))
        what = t["what"] if t["n"] >= 2 or t["what"] != "drift" else "control"
        jobs.append(dict(control=control, covered=covered, drift=drift)[what])
        where.append((what, ti))
    flow.seed_all(p["seed"])
    alone = [np.array([j() for _ in range(24)]) for j in jobs]

    def many(j):
        return lambda: np.array([j() for _ in range(24)])
    got = threads.together([many(j) for j in jobs])
    inner = 0
    for (what, ti), j, a, g in zip(where, jobs, alone, got):
        require(g.shape == a.shape, "%s: shape %r instead of %r", what, g.shape[1:], a.shape[1:])
        m, s = a.mean(0), np.abs(a - a.mean(0)).max(0)
        if s.max() <= 1e-9 * np.abs(m).max():
            require(np.abs(g - m).max() <= 1e-8 * np.abs(m).max() + 1e-300, "%s at step %d of %d changes by %.3g (of %.3g) when other threads "
                    "use the same solution", what, ti, r.k - 1, np.abs(g - m).max(), np.abs(m).max())
            continue
        inner += 1
        # it depends on random numbers: no value may be far outside of what it is alone
        L = 4 * (np.sqrt((s ** 2).mean(-1, keepdims=True)) + s)
        if (np.abs(g - m) > L).any():
            a = np.array([j() for _ in range(600)])
            m, s = a.mean(0), np.abs(a - a.mean(0)).max(0)
            L = 2 * (np.sqrt((s ** 2).mean(-1, keepdims=True)) + s)
            e = np.abs(g - m) / (L + 1e-300)
            require(e.max() <= 1, "%s at step %d of %d is %.3g times as far from its mean as in 600 evaluations alone when other threads use the "
                    "same solution", what, ti, r.k - 1, 2 * e.max())
    require(np.array_equal(flow.npa(r.obj.Z), before[0]) and np.array_equal(flow.npa(r.obj.B), before[1]), "the stored flows changed")
    return dict(nontrivial=len(set(where)) > 1, classes=flow.classes(p) + ["random: %d" % min(inner, 2), "%d threads" % len(jobs)])


# ---- several problems at once

def strat_solve(backend):
    def make():
        s = gen.st()

        @s.composite
        def draw_case(draw):
            n = draw(s.integers(2, 4))
            st = draw(s.integers(6, 14))
            return dict(problems=[draw(flow.problem(backend, dims=(1, 2), steps=(st, st), N=(30, 50), M=(25, 50),
                                                    gs=("scalar", "column"), t1s=(0.0, 0.5, -1.3))) for _ in range(n)])
        return draw_case()
    return make


def check_solve(c):
    ps = c["problems"]
    rng = np.random.default_rng([7, ps[0]["seed"]])
    for p in ps:        # generators seeded by one of them only
        p["y1scale"] = 0.5
    built = threads.together([lambda p=p: flow.build(p) for p in ps])
    for r in built:
        p = r.p
        f = gen.drift(p["sys"])
        y1, y2 = r.y1[:, None], r.y2[:, None]
        sd = flow.gvec(p)[:, None] * np.sqrt(flow.DT)
        require(np.array_equal(r.Z[:, :, 0], np.repeat(y1, p["N"], 1)), "the forward flow does not start in the initial state")
        require(np.array_equal(r.B[:, :, -1], np.repeat(y2, p["N"], 1)), "the backward flow does not start in the target")
        xi = (r.Z[:, :, 1] - y1 - flow.DT * f(y1, r.t[0])) / sd
        require(np.abs(xi).max() <= 8 and np.abs(xi.mean(1)).max() <= 7.5 / np.sqrt(p["N"]), "the first step has values at %.3g standard "
                "deviations, mean %.3g", np.abs(xi).max(), np.abs(xi.mean(1)).max())
        law.forward_steps(r, rng, r.Z, f, what="forward flow")
        law.backward_steps(r, rng, f)
        times = {round(t, 9) for _, t, _ in r.calls["f"]}
        require(times <= {round(float(t), 9) for t in r.t}, "the drift is evaluated at times of another problem")
    return dict(nontrivial=ps[0]["steps"] >= 6, classes=["%d solves" % len(ps), "backends " + "+".join(sorted({p["backend"] for p in ps}))] +
                sorted({"dim%d" % p["sys"]["dim"] for p in ps}))


SUBS = [Sub("calls", strat_calls, check_calls, 150, 4000, 3, qshards=2),
        Sub("one solution", strat_one, check_one, 60, 1500, 3, qshards=2),
        Sub("solves numpy", strat_solve(("numpy",)), check_solve, 16, 400, 2),
        Sub("solves pytorch", strat_solve(("torch",)), check_solve, 16, 400, 2),
        Sub("solves mixed", strat_solve(("numpy", "torch")), check_solve, 10, 300, 2)]
