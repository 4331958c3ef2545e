"""Makes Hypothesis importable next to the dependencies of the code under test."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, ".deps")
FALLBACK = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def ensure():
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        try:
            subprocess.run([os.path.join(ROOT, "setup.sh")], cwd=ROOT, timeout=240,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           env=dict(os.environ, VERIF_NO_SELFTEST="1"), check=False)
        except Exception:
            pass
    add()


def add():
    # at the end: numpy, scipy, torch come from the interpreter's own venv
    if os.path.isdir(os.path.join(DEPS, "hypothesis")):
        if DEPS not in sys.path:
            sys.path.append(DEPS)
    elif FALLBACK not in sys.path:
        sys.path.append(FALLBACK)
