"""Runs jobs in threads that take turns as often as the interpreter allows."""
import sys
import threading

from .core import Violation


def together(jobs, interval=1e-6):
    """jobs: functions without arguments; returns their results, raises the first error"""
    out, err = [None] * len(jobs), []
    gate = threading.Barrier(len(jobs))

    def run(i, job):
        try:
            gate.wait()
            out[i] = job()
        except BaseException as e:          # noqa: B902
            err.append(e)
    old = sys.getswitchinterval()
    ts = [threading.Thread(target=run, args=(i, j), daemon=True) for i, j in enumerate(jobs)]
    sys.setswitchinterval(interval)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for e in err:
        if isinstance(e, Violation):
            raise Violation("in %d threads: %s" % (len(jobs), e)) from e
    if err:
        raise err[0]
    return out
