"""Lazy access to the code under test (imported from /repo's working tree).

`sutmod.NAME` imports what NAME needs on first use, so that the parent process,
which only needs the list of checks, stays light.
"""
import importlib
import logging
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
_cache = {}

_WHERE = {
    "PKG": ("DeterministicParticleFlowControl", None),
    "DPFC": ("DeterministicParticleFlowControl", "DPFC"),
    "torched_DPFC": ("DeterministicParticleFlowControl", "torched_DPFC"),
    "my_cdist": ("DeterministicParticleFlowControl.score_estimators", "my_cdist"),
    "sep": ("DeterministicParticleFlowControl.score_estimators", "score_function_multid_seperate"),
    "alld": ("DeterministicParticleFlowControl.score_estimators", "score_function_multid_seperate_all_dims"),
    "old": ("DeterministicParticleFlowControl.score_estimators", "score_function_multid_seperate_old"),
    "sep2": ("DeterministicParticleFlowControl.score_estimators.score", "score_function_multid_seperate2"),
    "tscore": ("DeterministicParticleFlowControl.score_estimators", "torched_score_function_multid_seperate_all_dims"),
    "RBF": ("DeterministicParticleFlowControl.kernels", "RBF"),
    "reweight": ("DeterministicParticleFlowControl.reweighting", "reweight_optimal_transport_multidim"),
    "set_device": ("DeterministicParticleFlowControl.utils", "set_device"),
}


def _prepare():
    if _cache.get("ready"):
        return
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    logging.getLogger().setLevel(logging.ERROR)
    _cache["ready"] = True


def __getattr__(name):
    if name in _cache:
        return _cache[name]
    if name == "torch":
        import torch
        torch.set_num_threads(1)
        _cache[name] = torch
        return torch
    if name not in _WHERE:
        raise AttributeError(name)
    _prepare()
    mod, attr = _WHERE[name]
    from .core import Violation
    try:
        m = importlib.import_module(mod)
        val = m if attr is None else getattr(m, attr)
    except Exception as e:
        raise Violation("the package cannot provide %s: %s: %s" % (name, type(e).__name__, e)) from e
    root = importlib.import_module("DeterministicParticleFlowControl")
    here = os.path.realpath(root.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("imported %s, not the tree under test" % here)
    if name in ("torched_DPFC", "tscore", "RBF"):
        __getattr__("torch")
    _cache[name] = val
    return val
