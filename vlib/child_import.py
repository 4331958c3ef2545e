"""Child process of the import check: imports the package in a prepared environment and solves a small problem.

argv: JSON {repo, mode, hidden, order, uses, seed}; last line of the output: JSON with what happened.
"""
import importlib.abc
import json
import os
import sys


class Hide(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = set(names)

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        return None


def flat_paths(root):
    """sys.path as docs/conf.py prepares it"""
    for x in sorted(os.walk(root)):
        if "__pycache__" not in x[0] and (os.sep + "data") not in x[0]:
            sys.path.insert(0, x[0])


def main():
    c = json.loads(sys.argv[1])
    if "ot" in c["hidden"]:          # recent releases of pyemd bring POT along: keep theirs
        Hide.early = Hide(set(c["hidden"]) - {"ot"})
        sys.meta_path.insert(0, Hide.early)
        import pyemd                 # noqa: F401
        sys.meta_path.remove(Hide.early)
        for n in [n for n in sys.modules if n.split(".")[0] == "ot"]:
            del sys.modules[n]
    sys.meta_path.insert(0, Hide(c["hidden"]))
    sys.path[:] = [p for p in sys.path if p not in ("", os.path.dirname(os.path.abspath(__file__)))]
    pkg = os.path.join(c["repo"], "DeterministicParticleFlowControl")
    if c["mode"] == "flat":
        flat_paths(pkg)
    else:
        sys.path.insert(0, c["repo"])
    out = {"done": []}
    ns = {}
    if c.get("preload"):             # then whatever changes is this package's doing
        import importlib as il
        for n in ["numpy", "scipy.spatial.distance", "matplotlib.pyplot", "numba", "pyemd", "torch", "ot", "duecredit", "seaborn"]:
            if n not in c["hidden"]:
                try:
                    il.import_module(n)
                except Exception:        # (duecredit does not work without documentation strings)
                    pass
    before = settings(c)
    try:
        for stmt in c["order"]:
            out["at"] = stmt
            exec(stmt, ns)
            out["done"].append(stmt)
        out["files"] = sorted({os.path.realpath(m.__file__) for n, m in list(sys.modules.items())
                               if getattr(m, "__file__", None) and os.path.realpath(m.__file__).startswith(os.path.realpath(pkg))})
        after = settings(c)
        out["changed"] = [k for k in before if before[k] != after[k]]
        top = sys.modules.get("DeterministicParticleFlowControl")
        out["all"] = sorted(n for n in ("DPFC", "torched_DPFC") if n in getattr(top, "__all__", ()) or (c["mode"] == "package" and hasattr(top, n)))
        out["version"] = getattr(top, "__version__", None)
        for use in c["uses"]:
            out["at"] = use
            out[use] = USES[use](c)
    except BaseException as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        out["error"] = "%s: %s (%s)" % (type(e).__name__, str(e)[:300],
                                        "; ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in tb[-3:]))
    print()
    print(json.dumps(out))


def settings(c):
    """process-wide state that belongs to the user: no import has any business with it"""
    import logging
    import random
    import numpy as np
    s = np.random.get_state()
    own = {}
    if c.get("preload"):
        import locale
        import signal
        import threading
        import warnings
        import matplotlib
        import numba
        import scipy.special
        own = {"matplotlib's settings": str(sorted((k, str(dict.__getitem__(matplotlib.rcParams, k))) for k in matplotlib.rcParams)),
               "warning filters": str(warnings.filters), "what shows warnings": warnings.showwarning, "environment variables": str(sorted(os.environ.items())),
               "module search path": list(sys.path), "log handlers": [str(type(h)) for h in logging.root.handlers],
               "logger class": logging.getLoggerClass(), "exception hooks": (sys.excepthook, threading.excepthook),
               "signal handlers": [signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM)], "recursion limit": sys.getrecursionlimit(),
               "locale": locale.setlocale(locale.LC_ALL), "numba's threads": numba.get_num_threads(), "scipy's error handling": scipy.special.geterr(),
               "threads": threading.active_count(), "numpy's functions": [id(getattr(np, n)) for n in sorted(dir(np)) if callable(getattr(np, n))]}
        for n in ("ot", "pyemd", "torch"):
            if n in sys.modules:
                own["the functions of " + n] = [(k, id(v)) for k, v in sorted(vars(sys.modules[n]).items()) if callable(v) and k[0] != "_"]
    out = {"numpy's random generator": (s[1].tobytes(), s[2:]), "Python's random generator": random.getstate(),
           "numpy's error handling": np.geterr(), "numpy's printing": str(np.get_printoptions()), "log level": logging.getLogger().level,
           "disabled logging": logging.root.manager.disable, "working directory": os.getcwd(), "standard output": id(sys.stdout),
           "the buffering and encoding of the output": [str(getattr(o, n, None)) for o in (sys.stdout, sys.stderr)
                                                        for n in ("line_buffering", "write_through", "encoding", "errors")]}
    if "torch" not in c["hidden"]:
        import torch
        out.update({"PyTorch's random generator": torch.get_rng_state().tolist(), "PyTorch's default type": str(torch.get_default_dtype()),
                    "gradient recording": torch.is_grad_enabled(), "PyTorch's threads": torch.get_num_threads(),
                    "tensor printing": repr(torch.tensor([1 / 3.0, 1e5]))})
    out.update(own)
    return out


def bring(c, package, flat, name):
    import importlib
    return getattr(importlib.import_module(package if c["mode"] == "package" else flat), name)


def points(c):
    import numpy as np
    rng = np.random.default_rng(c["seed"])
    return rng.normal(size=(20, 2)), rng.normal(size=(6, 2)), rng.dirichlet(np.ones(20))


def digest(a):
    import numpy as np
    if hasattr(a, "detach"):
        a = a.detach().cpu().numpy()
    return np.asarray(a, dtype=float).ravel()[:400].tolist()


P = "DeterministicParticleFlowControl"


def use_estimator(c):
    X, Z, _ = points(c)
    f = bring(c, P + ".score_estimators", "score_function_estimators", "score_function_multid_seperate")
    return digest(f(X, Z, False, C=0.001, which=1, l=1.1, which_dim=1, kern="RBF"))


def use_all_dims(c):
    X, Z, _ = points(c)
    f = bring(c, P + ".score_estimators", "score_function_estimators", "score_function_multid_seperate_all_dims")
    return digest(f(X, Z, func_out=False, C=0.001, kern="RBF", l=1.1))


def use_reweight(c):
    X, _, w = points(c)
    f = bring(c, P + ".reweighting", "optimal_transport_reweighting", "reweight_optimal_transport_multidim")
    return digest(f(X, w))


def use_torch_score(c):
    import torch
    X, Z, _ = points(c)
    f = bring(c, P + ".score_estimators", "score_function_estimators_pytorch", "torched_score_function_multid_seperate_all_dims")
    return digest(f(torch.tensor(X), torch.tensor(Z), l=1.1))


def use_kernel(c):
    import torch
    X, Z, _ = points(c)
    K = bring(c, P + ".kernels", "RBF_pytorch", "RBF")
    return digest(K(1.1).Kernel(torch.tensor(X), torch.tensor(Z)))


def use_device(c):
    f = bring(c, P + ".utils", "utils_pytorch", "set_device")
    return str(f())


def drift(x, t):
    return -x


def use_numpy_flow(c, U=None):
    import numpy as np
    D = bring(c, P, P, "DPFC")
    np.random.seed(c["seed"])
    kw = dict(reweight=True, U=U) if U else {}
    o = D(0.0, 0.005, np.array([0.3, -0.2]), np.array([0.31, -0.25]), drift, 0.5, 25, 8, **kw)
    return digest(o.Z[:, :4]) + digest(o.calculate_u(np.array([[0.3, -0.2]]), 3))


def use_numpy_constrained(c):
    return use_numpy_flow(c, lambda x, t: -40.0 * (x ** 2).sum(0))


def use_torch_flow(c, U=None):
    import torch
    D = bring(c, P, P, "torched_DPFC")
    torch.manual_seed(c["seed"])
    kw = dict(reweight=True, U=U) if U else {}
    T = lambda v: torch.tensor(v, dtype=torch.float64)
    o = D(0.0, 0.005, T([0.3, -0.2]), T([0.31, -0.25]), drift, 0.5, 25, 8, **kw)
    return digest(o.Z[:, :4]) + digest(o.calculate_u(T([[0.3, -0.2]]), 3))


def use_torch_constrained(c):
    return use_torch_flow(c, lambda x, t: -40.0 * (x ** 2).sum(0))


USES = {k[4:]: v for k, v in list(globals().items()) if k.startswith("use_")}

if __name__ == "__main__":
    main()
