"""Entry point of every check:  run.py <property> [--tier quick|thorough]
                               run.py <property> --replay FILE
                               run.py --selftest

Exit 0: held on everything explored; 1 (with a VIOLATION line): broken;
anything else: the check itself failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "DUECREDIT_ENABLE": "no",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "2",
    "PYTHONWARNINGS": "ignore",
    "VERIF_BOOTED": "1",
}


def boot():
    if os.environ.get("VERIF_BOOTED") != "1":
        env = dict(os.environ)
        env.update(ENV)
        env.pop("PYTHONPATH", None)
        exe = PY if os.path.exists(PY) else sys.executable
        os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)
    if HERE not in sys.path:
        sys.path.insert(0, HERE)


if __name__ == "__main__":
    boot()
    from vlib import runner
    sys.exit(runner.main(sys.argv[1:]))
