"""Runs the generated cases of one property, shrinks failures, writes evidence."""
import argparse
import glob
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

from . import deps
from .core import Known, Violation

ROOT = deps.ROOT
NCPU = os.cpu_count() or 4
LIMIT = {"quick": 420.0, "thorough": 780.0}       # stop generating after this
SHRINK_S = 60.0


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def load(pid):
    return importlib.import_module("checks." + pid.lower())


def known_findings():
    with open(os.path.join(ROOT, "known_findings.json")) as fh:
        return json.load(fh)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--worker", nargs=5, metavar=("SUB", "SEED", "N", "LIMIT", "OUT"))
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    if a.selftest:
        if os.environ.get("VERIF_NO_SELFTEST"):
            return 0
        deps.add()
        import hypothesis
        from . import sutmod
        print("hypothesis", hypothesis.__version__, "code under test", sutmod.PKG.__file__)
        for p in sorted(glob.glob(os.path.join(ROOT, "checks", "c*.py"))):
            importlib.import_module("checks." + os.path.basename(p)[:-3])
        return 0
    if a.worker:
        deps.add()
        return worker(a.property, *a.worker)
    deps.ensure()
    if a.replay:
        return replay(a.property, a.replay)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return drive(a.property, tier, a.only, a.scale)


# --------------------------------------------------------------------------
# one worker process: one sub-check, one seed

class Recorder:
    def __init__(self, out):
        self.evals = 0
        self.skipped = 0
        self.nontrivial = set()
        self.distinct = set()
        self.classes = {}
        self.samples = []
        self.known = {}
        self.failure = None
        self.history = []
        self.current = out + ".case"

    def run(self, fn, case):
        text = canon(case)
        with open(self.current, "w") as fh:       # survives a crash of the process
            fh.write(text)
        self.evals += 1
        self.history = (self.history + [case])[-6:]
        try:
            info = fn(case) or {}
        except Known as k:
            self.known.setdefault(k.key, {"what": k.what, "case": case, "count": 0})
            self.known[k.key]["count"] += 1
            info = {"nontrivial": True, "classes": ["known finding"]}
        except Violation as v:
            self.failure = {"case": case, "message": str(v)[:2000],
                            "history": self.history[:-1]}
            raise
        h = hashlib.md5(text.encode()).hexdigest()
        self.distinct.add(h)
        if info.get("nontrivial", True):
            if h not in self.nontrivial and len(self.samples) < 3:
                self.samples.append(case)
            self.nontrivial.add(h)
        for c in info.get("classes", ()):
            self.classes[c] = self.classes.get(c, 0) + 1


def worker(pid, sub, seed, n, limit, out):
    t0 = time.time()
    seed, n, limit = int(seed), int(n), float(limit)
    rec = Recorder(out)
    err = None
    try:
        mod = load(pid)
        s = [x for x in mod.SUBS if x.name == sub][0]
        if hasattr(mod, "setup"):
            mod.setup()
        if s.cases is not None:
            cases = s.cases() if callable(s.cases) else s.cases
            for case in cases:
                if time.time() - t0 > limit:
                    rec.skipped += 1
                    continue
                try:
                    rec.run(s.fn, case)
                except Violation:
                    break
        else:
            search(s, rec, seed, n, t0, limit)
    except Exception:
        err = traceback.format_exc()
    res = dict(sub=sub, seed=seed, evals=rec.evals, skipped=rec.skipped,
               distinct=sorted(rec.distinct), nontrivial=sorted(rec.nontrivial),
               classes=rec.classes, samples=rec.samples, known=rec.known,
               failure=rec.failure, error=err, wall=time.time() - t0)
    with open(out, "w") as fh:
        json.dump(res, fh, default=str)
    return 0


def independent():
    """Draw every case afresh: the generator would otherwise spend half of the cases on variants of earlier
    ones, which leaves whole classes of a small number of cases nearly empty."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner
    except ImportError:
        return
    if hasattr(ConjectureRunner, "generate_mutations_from"):
        ConjectureRunner.generate_mutations_from = lambda self, data: None


def search(s, rec, seed, n, t0, limit):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    state = {"first": None}
    box = []
    independent()

    @hypothesis.seed(seed)
    @settings(max_examples=n, deadline=None, database=None, derandomize=False,
              report_multiple_bugs=False, print_blob=False,
              phases=(Phase.generate, Phase.shrink),
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                     HealthCheck.large_base_example])
    @given(s.strategy())
    def prop(case):
        now = time.time()
        if state["first"] is None and now - t0 > limit:
            rec.skipped += 1
            return
        if state["first"] is not None and now - state["first"] > SHRINK_S:
            return                               # stop shrinking: keep what we have
        try:
            rec.run(s.fn, case)
        except Violation:
            if state["first"] is None:
                state["first"] = now
            # the shrinker only moves to simpler cases, so the last failure wins
            box.append(rec.failure)
            raise

    try:
        prop()
    except Violation:
        pass
    except BaseException as e:
        # hypothesis reports an interrupted shrink as flaky; the failure stands
        if not box or not type(e).__module__.startswith("hypothesis"):
            if not box or not isinstance(e, BaseExceptionGroup):
                raise
    if box:
        rec.failure = min(box, key=lambda f: len(canon(f["case"])))
        if box[-1] is not rec.failure and len(canon(box[-1]["case"])) <= len(canon(rec.failure["case"])):
            rec.failure = box[-1]


# --------------------------------------------------------------------------

def subseed(base, pid, name, shard):
    return (base * 1000003 + zlib.crc32(("%s/%s/%d" % (pid, name, shard)).encode())) & 0x7FFFFFFF


def drive(pid, tier, only, scale):
    t0 = time.time()
    try:
        base = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        base = zlib.crc32(os.environ["VERIF_SEED"].encode())
    deps.add()
    mod = None
    # the list of sub-checks is static, so a broken package cannot hide them
    try:
        mod = load(pid)
    except Violation as v:
        path = save_replay(pid, {"property": pid, "sub": "import", "case": {}, "message": str(v)})
        print(str(v))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        write_evidence(pid, tier, base, [], t0, 1, "import of the package failed")
        return 1
    jobs = []
    for s in mod.SUBS:
        if only and s.name != only:
            continue
        n = s.quick if tier == "quick" else s.thorough
        n = max(1, int(n * scale))
        shards = s.qshards if tier == "quick" else s.shards
        if s.cases is not None:
            shards = 1
        for k in range(shards):
            jobs.append((s.name, subseed(base, pid, s.name, k), max(1, n // shards)))
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    results, problems = [], []
    running = []
    pending = list(enumerate(jobs))
    limit = LIMIT[tier]
    par = max(1, min(NCPU, 8))
    try:
        while pending or running:
            while pending and len(running) < par:
                i, (name, seed, n) = pending.pop(0)
                out = os.path.join(tmp, "r%d.json" % i)
                log = open(os.path.join(tmp, "l%d.txt" % i), "w")
                left = max(20.0, limit - (time.time() - t0))
                p = subprocess.Popen(
                    [sys.executable, os.path.join(ROOT, "run.py"), pid, "--worker",
                     name, str(seed), str(n), "%.1f" % left, out],
                    stdout=log, stderr=subprocess.STDOUT, cwd=tmp, start_new_session=True)
                running.append((p, name, out, log, time.time()))
            for job in list(running):
                p, name, out, log, started = job
                rc = p.poll()
                hard = limit + 3 * SHRINK_S - (started - t0)
                if rc is None and time.time() - started > hard:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    rc = "timeout"
                if rc is None:
                    continue
                running.remove(job)
                log.close()
                text = open(log.name, errors="replace").read()
                if os.path.exists(out):
                    r = json.load(open(out))
                    r["log"] = text
                    results.append(r)
                elif isinstance(rc, int) and rc < 0 and -rc in (
                        signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS):
                    results.append(crashed(pid, name, out, rc, text))
                else:
                    problems.append("worker %s ended with %s\n%s" % (name, rc, text[-3000:]))
            time.sleep(0.05)
    finally:
        for job in running:
            try:
                os.killpg(job[0].pid, signal.SIGKILL)
            except OSError:
                pass
        for f in glob.glob(os.path.join(tmp, "*")):
            try:
                os.unlink(f)
            except OSError:
                pass
        try:
            os.rmdir(tmp)
        except OSError:
            pass
    for r in results:
        if r.get("error"):
            problems.append("harness error in %s:\n%s" % (r["sub"], r["error"][-1800:]))
    return conclude(pid, tier, base, mod, results, problems, t0)


def crashed(pid, name, out, rc, text):
    """The interpreter died: a violation if the case kills a fresh process too."""
    case = None
    try:
        case = json.load(open(out + ".case"))
    except Exception:
        pass
    r = dict(sub=name, seed=0, evals=1, skipped=0, distinct=[], nontrivial=[], classes={},
             samples=[], known={}, failure=None, error=None, wall=0.0, log=text)
    if case is None:
        r["error"] = "process died with signal %d before the first case" % -rc
        return r
    rp = save_replay(pid, {"property": pid, "sub": name, "case": case, "message": "crash"})
    p = subprocess.run([sys.executable, os.path.join(ROOT, "run.py"), pid, "--replay", rp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode < 0 or p.returncode == 1:
        r["failure"] = {"case": case, "message": "the interpreter died with signal %d" % -rc,
                        "history": []}
    else:
        r["error"] = "process died with signal %d; the case does not repeat it" % -rc
    return r


def save_replay(pid, payload):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.md5(canon([payload.get("sub"), payload.get("case")]).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(path, "w") as fh:
        json.dump(payload, fh, indent=1, default=str)
    return path


def conclude(pid, tier, base, mod, results, problems, t0):
    listed = {f["key"]: f for f in known_findings() if f["property"] == pid and f["status"] == "known"}
    violations = 0
    printed = set()
    for r in results:
        for key, k in r["known"].items():
            if key in listed:
                if key not in printed:
                    printed.add(key)
                    print("KNOWN-FINDING: property=%s %s" % (pid, listed[key]["what"]))
            else:
                if r["failure"] is None:
                    r["failure"] = {"case": k["case"], "message": key + ": " + k["what"], "history": []}
    for r in results:
        if r["failure"]:
            violations += 1
            f = r["failure"]
            path = save_replay(pid, dict(property=pid, sub=r["sub"], case=f["case"],
                                         message=f["message"], history=f.get("history", [])))
            print("[%s] %s" % (r["sub"], f["message"]))
            print("   case: %s" % canon(f["case"])[:600])
            print("VIOLATION property=%s replay=%s" % (pid, path))
    write_evidence(pid, tier, base, results, t0, violations, getattr(mod, "RULE", ""),
                   getattr(mod, "ASSUMPTIONS", []))
    for p in problems:
        print("ERROR " + p)
    ev = sum(r["evals"] for r in results)
    nt = sum(len(r["nontrivial"]) for r in results)
    print("%s %s: %d cases, %d non-trivial, %d violation(s), %d error(s), %.1f s"
          % (pid, tier, ev, nt, violations, len(problems), time.time() - t0))
    if violations:
        return 1
    return 2 if problems else 0


def write_evidence(pid, tier, base, results, t0, violations, rule, assumptions=()):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    nontrivial, samples, subs = set(), [], {}
    for r in results:
        nontrivial |= {r["sub"] + h for h in r["nontrivial"]}
        if r["samples"]:
            samples.append({"check": r["sub"], "case": r["samples"][-1]})
        d = subs.setdefault(r["sub"], dict(evaluations=0, distinct=0, distinct_nontrivial=0,
                                           skipped_for_time=0, classes={}, known_findings=0, wall_s=0.0))
        d["evaluations"] += r["evals"]
        d["distinct"] += len(r["distinct"])
        d["distinct_nontrivial"] += len(r["nontrivial"])
        d["skipped_for_time"] += r["skipped"]
        d["known_findings"] += sum(k["count"] for k in r["known"].values())
        d["wall_s"] = round(d["wall_s"] + r["wall"], 1)
        for c, v in r["classes"].items():
            d["classes"][c] = d["classes"].get(c, 0) + v
    ev = dict(property=pid, tier=tier, seed=base, level="exploration",
              coverage=dict(evaluations=sum(r["evals"] for r in results),
                            distinct_nontrivial=len(nontrivial),
                            rule=rule, samples=samples[:8], checks=subs),
              assumptions=list(assumptions),
              wall_s=round(time.time() - t0, 2), violations=violations)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)


def replay(pid, path):
    deps.add()
    data = json.load(open(path))
    try:
        mod = load(pid)
    except Violation as v:
        print(str(v))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if hasattr(mod, "setup"):
        mod.setup()
    s = [x for x in mod.SUBS if x.name == data["sub"]][0]
    for attempt in ([data["case"]], list(data.get("history", [])) + [data["case"]]):
        for case in attempt:
            try:
                s.fn(case)
            except Known as k:
                print("KNOWN " + str(k))
            except Violation as v:
                print(str(v))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
    print("the case passes")
    return 0
