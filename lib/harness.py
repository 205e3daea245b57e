"""Common part of the checks: bookkeeping of what was observed, verdicts, scratch files."""

import errno
import json
import os
import random
import sys
import threading
import time
import traceback
import warnings

warnings.simplefilter("ignore")

SCRATCH = os.environ["VERIF_SCRATCH"]
REPO = os.environ["VERIF_REPO"]
SEED = int(os.environ["VERIF_SEED"])
TIER = os.environ["VERIF_TIER"]
THOROUGH = TIER == "thorough"
# the machine was too slow in the first attempt
PACE = float(os.environ.get("VERIF_PACE", "1"))
SECOND = PACE > 1

MAX_PER_KEY = 3


def pick(quick, thorough):
    return thorough if THOROUGH else quick


def jsonable(o, depth=0):
    import numpy as np

    if depth > 8:
        return repr(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:200]}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(o)[:200]]
    if isinstance(o, np.ndarray):
        return {"dtype": str(o.dtype), "shape": list(o.shape), "head": [jsonable(x) for x in o.ravel()[:8]]}
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, float):
        return o if o == o and abs(o) != float("inf") else repr(o)
    if o is None or isinstance(o, (str, int, bool)):
        return o
    if isinstance(o, BaseException):
        return f"{type(o).__name__}: {o}"[:500]
    return repr(o)[:300]


class Check:
    """Collects the observations of one run."""

    def __init__(self, pid, level, rule, assumptions=()):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = {}
        self.required = {}
        self.inconclusive = []
        self.lock = threading.RLock()
        self.t0 = time.time()

    # ---- observations
    def rng(self, *label):
        return random.Random(f"{SEED}/{self.pid}/" + "/".join(map(str, label)))

    def evaluate(self, n=1):
        with self.lock:
            self.evaluations += n

    def nontrivial(self, key):
        with self.lock:
            self.distinct.add(key if isinstance(key, (str, int, tuple)) else repr(key))

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, obj, limit=4):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(jsonable(obj))

    def require(self, **minimum):
        """The run is inconclusive unless these counters reach these values."""
        self.required.update(minimum)

    def elapsed(self):
        """To be compared with the time that is left for a part"""
        return (time.time() - self.t0) / PACE

    # ---- verdicts
    def violation(self, key, message, /, **detail):
        with self.lock:
            lst = self.violations.setdefault(key, [])
            if len(lst) < MAX_PER_KEY:
                lst.append({"message": str(message)[:1500], "detail": jsonable(detail)})

    def check(self, ok, key, message, /, **detail):
        if not ok:
            self.violation(key, message, **detail)
        return bool(ok)

    @property
    def violated(self):
        return bool(self.violations)

    def finish(self):
        for name, n in self.required.items():
            if self.counters.get(name, 0) < n:
                self.inconclusive.append(f"{name}: observed {self.counters.get(name, 0)} < {n}")
        res = {
            "complete": not self.inconclusive,
            "inconclusive": self.inconclusive,
            "violations": [
                {
                    "property": self.pid,
                    "key": k,
                    "message": v[0]["message"],
                    "cases": v,
                    "seed": SEED,
                    "tier": TIER,
                }
                for k, v in self.violations.items()
            ],
            "evidence": {
                "property": self.pid,
                "tier": TIER,
                "seed": SEED,
                "level": self.level,
                "coverage": {
                    "evaluations": self.evaluations,
                    "distinct_nontrivial": len(self.distinct),
                    "rule": self.rule,
                    "samples": self.samples or ["(none)"],
                    "observed": self.counters,
                },
                "assumptions": self.assumptions,
                "wall_s": round(time.time() - self.t0, 3),
            },
        }
        tmp = os.path.join(SCRATCH, "result.json.tmp")
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.rename(tmp, os.path.join(SCRATCH, "result.json"))


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PACKAGE = os.path.join(REPO, "src", "earthkit", "regrid") + os.sep
ENVIRONMENT = {errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.ENOSPC, errno.EDQUOT}


def in_package(files):
    """Tell if the innermost of the frames that belong to either the check or the package belongs
    to the package."""
    for f in reversed(files):
        if f.startswith(PACKAGE):
            return True
        if f.startswith(HERE + os.sep):
            return False
    return False


def raised_by_package(e):
    """Tell if the exception comes from the code under test, where the check makes a call that must
    not fail, and not from the check itself or a lack of resources."""
    if not isinstance(e, Exception) or isinstance(e, MemoryError):
        return False
    if isinstance(e, OSError) and e.errno in ENVIRONMENT:
        return False
    return in_package([f.filename for f in traceback.extract_tb(e.__traceback__)])


HANG = 90


def watch_main(check):
    """Ends the check when a call of the main thread to the package does not end: it is at the same
    place for a long time."""
    ident = threading.main_thread().ident
    last = None
    since = time.time()
    # a process that was stopped for a while did not observe anything in the meantime
    seen = 0
    while True:
        time.sleep(2)
        top = sys._current_frames().get(ident)
        stack = []
        for f, n in traceback.walk_stack(top):
            stack.append((id(f), f.f_code.co_filename, n, f.f_code.co_name))
        stack.reverse()
        if not in_package([x[1] for x in stack]):
            last = None
            continue
        if stack != last:
            last, since, seen = stack, time.time(), 0
            continue
        seen += 1
        if time.time() - since > HANG and seen > HANG / 4:
            where = [f"{os.path.basename(f)}:{n} {name}" for _, f, n, name in stack]
            if SECOND:
                check.violation("hangs", f"a call does not end: {where[-1]}", stack=where)
            check.inconclusive.append(f"a call does not end: {where}")
            check.finish()
            os._exit(3)


def main(check, *parts):
    """Run the parts of a check. An exception that a part lets through is an error of the
    harness, not a verdict, unless the package raised it in a call that must not fail, in both
    of the attempts."""
    from guard import assert_repo

    assert_repo()
    threading.Thread(target=watch_main, args=(check,), daemon=True).start()
    try:
        for part in parts:
            t = time.time()
            part()
            print(f"### {part.__name__}: {time.time() - t:.2f}s", flush=True)
        code = 0
    except BaseException as e:
        traceback.print_exc()
        if SECOND and raised_by_package(e):
            check.violation("fails", f"a call fails: {type(e).__name__}: {e}", trace=traceback.format_exc()[-3000:])
        check.inconclusive.append("harness error: " + traceback.format_exc()[-1500:])
        code = 3
    check.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)  # no atexit surprises: the scratch directory is removed by the launcher


_counter = 0
_counter_lock = threading.Lock()


def fresh_dir(name="d"):
    global _counter
    with _counter_lock:
        _counter += 1
        n = _counter
    path = os.path.join(SCRATCH, "work", f"{name}{n}")
    os.makedirs(path)
    return path


def outcome(func, *args, **kwargs):
    """(result, exception)"""
    try:
        return func(*args, **kwargs), None
    except Exception as e:
        return None, e
