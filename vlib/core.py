"""Vocabulary shared by the checks."""
import traceback


class Violation(AssertionError):
    """The property is broken by the case that is running."""


class Known(Exception):
    """A genuine defect that known_findings.json may list. `key` identifies it."""

    def __init__(self, key, what):
        super().__init__(key + ": " + what)
        self.key = key
        self.what = what


class Sub:
    """One executable check of a property.

    strategy : () -> Hypothesis strategy that draws a JSON-serialisable case
    fn       : case -> dict(nontrivial=bool, classes=[str, ...]); raises Violation
    quick, thorough : number of generated cases in each tier
    shards   : number of processes (with different seeds) in the thorough tier
    cases    : instead of strategy, a finite list that is enumerated completely
    """

    def __init__(self, name, strategy, fn, quick, thorough, shards=2, cases=None,
                 qshards=1):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.qshards = qshards
        self.cases = cases


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def sut(fn, *args, **kwargs):
    """Call the code under test: on the domain of the properties it may not raise."""
    try:
        return fn(*args, **kwargs)
    except (KeyboardInterrupt, SystemExit, MemoryError, Violation, Known):
        raise
    except BaseException as e:           # noqa: B902  (numba/torch raise odd types)
        if type(e).__module__.startswith("hypothesis"):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in tb[-3:])
        raise Violation("raised %s: %s (%s)" % (type(e).__name__, str(e)[:300], where)) from e


def confirmed(check, **more):
    """A deviation from the limit of many particles counts only if it is still there with more of them."""
    def run(c):
        try:
            return check(c)
        except Violation as v:
            if str(v).startswith("raised "):
                raise
            first = str(v)
        try:
            info = check(dict(c, **more))
        except Violation as v:
            raise Violation("%s; with %s: %s" % (first, ", ".join("%s=%s" % kv for kv in more.items()), v)) from None
        return dict(info, classes=info["classes"] + ["confirmed with more particles"])
    return run
