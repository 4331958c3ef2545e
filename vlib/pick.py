"""Drifts and constraints that can be pickled, and a process that works on pickled controllers."""
import os
import pickle
import struct
import subprocess
import sys

import numpy as np


class Fn:
    """a generated function that is made again from its specification wherever it arrives"""

    def __init__(self, kind, spec, lib):
        self.kind, self.spec, self.lib, self._fn = kind, spec, lib, None

    def __getstate__(self):
        return self.kind, self.spec, self.lib

    def __setstate__(self, state):
        self.__init__(*state)

    def __call__(self, x, t):
        if self._fn is None:
            from . import flow, gen
            if self.kind == "bridge":
                p, y2 = self.spec
                self._fn = flow.bridge_drift(p, np.array(y2), self.lib)
            else:
                self._fn = getattr(gen, self.kind)(self.spec, self.lib)
        return self._fn(x, t)


def answers(obj, lib, requests):
    """what a user sees of a solved problem; requests: (points, index, seed)"""
    from . import flow, sutmod as S
    out = {k: flow.npa(getattr(obj, k)) for k in ("Z", "B", "timegrid", "Ztr") if hasattr(obj, k)}
    for n, (x, ti, seed) in enumerate(requests):
        arg = S.torch.tensor(np.array(x), dtype=S.torch.float64) if lib == "torch" else np.array(x)
        flow.seed_all(seed)
        out["control %d" % n] = flow.npa(obj.calculate_u(arg, ti))
        out["covered %d" % n] = np.array([float(bool(obj.check_if_covered(q, ti))) for q in arg])
    flow.seed_all(7)
    x = np.array(out["B"][:, :, 1])
    arg = S.torch.tensor(x, dtype=S.torch.float64) if lib == "torch" else x
    out["drift"] = flow.npa(obj.f_seperate(arg, float(out["timegrid"][1])))
    return out


class Worker:
    """another Python process"""

    def __init__(self):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([sys.executable, "-c", "import sys; sys.path.insert(0, %r); from vlib import deps; deps.add(); "
                                   "from vlib import pick; pick.serve()" % here],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, *what):
        data = pickle.dumps(what)
        self.p.stdin.write(struct.pack("<Q", len(data)) + data)
        self.p.stdin.flush()
        head = self.p.stdout.read(8)
        if len(head) < 8:
            raise RuntimeError("the other process died (exit code %r)" % self.p.wait())
        return pickle.loads(self.p.stdout.read(struct.unpack("<Q", head)[0]))

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def serve():
    """(bytes of a pickled controller, lib, requests) -> ("ok", answers) or ("error", text)"""
    inp, out = sys.stdin.buffer, sys.stdout.buffer
    sys.stdout = sys.stderr
    from . import sutmod as S
    while True:
        head = inp.read(8)
        if len(head) < 8:
            return
        blob, lib, requests, again = pickle.loads(inp.read(struct.unpack("<Q", head)[0]))
        try:
            S.DPFC if lib == "numpy" else S.torched_DPFC
            obj = pickle.loads(blob)
            reply = ("ok", answers(obj, lib, requests), pickle.dumps(obj) if again else None)
        except Exception as e:
            import traceback
            reply = ("error", "%s: %s (%s)" % (type(e).__name__, e, traceback.format_exc()[-300:]), None)
        data = pickle.dumps(reply)
        out.write(struct.pack("<Q", len(data)) + data)
        out.flush()
