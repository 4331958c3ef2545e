"""The package can be imported and used in every supported environment, in any order of imports."""
import json
import os
import subprocess
import tempfile

import numpy as np

from vlib import gen, sutmod as S
from vlib.core import Sub, require

RULE = ("a fresh interpreter with a generated set of optional dependencies missing (PyTorch, POT, duecredit, seaborn), a "
        "generated import mode (installed package, or the flat path of the documentation), a generated order of import "
        "statements and generated first uses; everything the remaining dependencies allow must import and work, and give the "
        "same numbers as in every other environment; non-trivial: something is missing or flat, or at least 2 statements")
ASSUMPTIONS = ["numpy, scipy, numba, matplotlib and pyemd are required dependencies", "POT is only needed by the PyTorch "
               "backend with path constraints", "a missing dependency is simulated by an import hook (recent releases of pyemd keep their own POT)"]

P = "DeterministicParticleFlowControl"
HERE = os.path.dirname(os.path.abspath(__file__))
CHILD = os.path.join(os.path.dirname(HERE), "vlib", "child_import.py")

PACKAGE = [("import %s" % P, ()), ("from %s import DPFC" % P, ()), ("from %s import *" % P, ()),
           ("from %s import torched_DPFC" % P, ("torch",)), ("import %s.%s" % (P, P), ()),
           ("from %s.score_estimators import *" % P, ()), ("import %s.score_estimators.score" % P, ()),
           ("from %s.score_estimators.score_function_estimators import my_cdist" % P, ()),
           ("from %s.score_estimators import torched_score_function_multid_seperate_all_dims" % P, ("torch",)),
           ("from %s.reweighting import reweight_optimal_transport_multidim" % P, ()),
           ("from %s.kernels import RBF" % P, ("torch",)), ("from %s.utils import set_device" % P, ("torch",)),
           ("from %s.due import due, BibTeX, Doi" % P, ()), ("from %s.version import __version__" % P, ())]
FLAT = [("import %s" % P, ()), ("from %s import *" % P, ()), ("from %s import DPFC" % P, ()),
        ("from score_function_estimators import my_cdist", ()), ("import optimal_transport_reweighting", ()),
        ("import score_function_estimators_pytorch", ("torch",)), ("from RBF_pytorch import RBF", ("torch",)),
        ("from utils_pytorch import set_device", ("torch",)), ("import due, version", ()), ("import score", ())]
USES = [("estimator", ()), ("all_dims", ()), ("reweight", ()), ("numpy_flow", ()), ("numpy_constrained", ()),
        ("torch_score", ("torch",)), ("kernel", ("torch",)), ("device", ("torch",)), ("torch_flow", ("torch",)),
        ("torch_constrained", ("torch", "ot"))]


def strat(mode):
    def make():
        s = gen.st()
        stmts = PACKAGE if mode == "package" else FLAT
        return s.fixed_dictionaries(dict(
            mode=s.just(mode), hidden=s.lists(s.sampled_from(["torch", "ot", "duecredit", "seaborn"]), unique=True, max_size=4),
            order=s.lists(s.sampled_from([x[0] for x in stmts]), unique=True, min_size=1, max_size=5),
            uses=s.lists(s.sampled_from([x[0] for x in USES]), unique=True, min_size=1, max_size=3),
            due=s.sampled_from(["no", "no", "yes"]), optimise=s.sampled_from(["", "-O", "-OO"]), preload=s.booleans()))
    return make


def run(case):
    need = dict(PACKAGE + FLAT + USES)
    ok = lambda what: not set(need[what]) & set(case["hidden"])
    order = [x for x in case["order"] if ok(x)]
    uses = [x for x in case["uses"] if ok(x)]
    if not order:
        order = ["import " + P]
    arg = dict(repo=S.REPO, mode=case["mode"], hidden=case["hidden"], order=order, uses=uses, seed=7, preload=case["preload"])
    env = dict(os.environ, DUECREDIT_ENABLE=case["due"], NUMBA_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    with tempfile.TemporaryDirectory() as tmp:
        env["HOME"] = env["MPLCONFIGDIR"] = tmp
        cmd = [os.environ.get("VERIF_PY", "/opt/venv/bin/python"), "-B"] + ([case["optimise"]] if case["optimise"] else []) + [CHILD, json.dumps(arg)]
        try:
            r = subprocess.run(cmd, cwd=tmp, env=env, capture_output=True, text=True, timeout=240)
        except subprocess.TimeoutExpired:
            raise RuntimeError("the child process took more than 240 s")
    lines = [x for x in r.stdout.splitlines() if x.startswith("{")]
    require(lines, "the interpreter ended with code %d: %s", r.returncode, r.stderr[-300:])
    return json.loads(lines[-1]), order, uses


_ref = {}


def check(case):
    out, order, uses = run(case)
    where = "%s import without %s" % (case["mode"], ", ".join(case["hidden"]) or "anything missing")
    require("error" not in out, "%s: %r: %s", where, out.get("at"), out.get("error"))
    require(all(f.startswith(os.path.realpath(S.REPO) + os.sep) for f in out["files"]), "imported from elsewhere")
    require(not out["changed"], "%s: importing changes %s", where, ", ".join(out["changed"]))
    top = any(P in x.split()[1:2] or x.split()[1].startswith(P + ".") for x in order)
    if top:
        want = ["DPFC"] + (["torched_DPFC"] if "torch" not in case["hidden"] else [])
        require(out["all"] == want, "%s: the package provides %r instead of %r", where, out["all"], want)
        if case["mode"] == "package":
            v = {}
            with open(os.path.join(S.REPO, P, "version.py")) as fh:
                exec(fh.read(), v)
            require(out["version"] == v["__version__"], "%s: version %r", where, out["version"])
    for u in uses:
        got = out[u]
        if u == "device":
            require(got in ("cpu", "cuda"), "set_device returned %r", got)
            continue
        want = reference(u)
        require(np.isfinite(got).all() and len(got) == len(want), "%s: %s is not finite", where, u)
        e = np.abs(np.subtract(got, want)).max() / (np.abs(want).max() + 1e-12)
        require(e <= 1e-3, "%s: %s differs by %.3g from the same call elsewhere", where, u, e)
    return dict(nontrivial=bool(case["hidden"]) or case["mode"] == "flat" or len(order) > 1,
                classes=[case["mode"], "missing " + "+".join(sorted(case["hidden"]))] + uses + ["duecredit " + case["due"]])


def reference(use):
    if use not in _ref:
        from vlib import child_import
        import sys
        if S.REPO not in sys.path:
            S.PKG
        _ref[use] = child_import.USES[use](dict(mode="package", seed=7))
    return _ref[use]


def grid(mode, need):
    """every subset of missing dependencies, everything imported, everything used"""
    stmts = PACKAGE if mode == "package" else FLAT
    out = []
    for i in range(8):
        hidden = [n for j, n in enumerate(("torch", "ot", "duecredit")) if i >> j & 1]
        if ("torch" in hidden) != need:
            order = [x[0] for x in stmts]
            out.append(dict(mode=mode, hidden=hidden, order=order[i % 5:] + order[:i % 5], uses=[u[0] for u in USES], due="no", optimise=["", "-OO"][i % 2], preload=True))
    return lambda: out


SUBS = [Sub("orders package", strat("package"), check, 16, 500, 8, qshards=2),
        Sub("orders flat", strat("flat"), check, 10, 300, 4, qshards=2),
        Sub("grid package torch", None, check, 4, 4, cases=grid("package", True)),
        Sub("grid package no torch", None, check, 4, 4, cases=grid("package", False)),
        Sub("grid flat torch", None, check, 4, 4, cases=grid("flat", True)),
        Sub("grid flat no torch", None, check, 4, 4, cases=grid("flat", False))]
