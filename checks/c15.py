"""C15: failed and killed creations of cached files."""

import errno
import hashlib
import os
import random
import resource
import shutil
import signal
import sys
import threading
import time

from cachework import Maker
from cachework import events
from cachework import is_entry
from cachework import read
from cachework import size_of
from harness import Check
from harness import fresh_dir
from harness import main
from harness import pick
from procs import Child
from procs import wait
from stress import Delays
from stress import Team

import earthkit.regrid
from earthkit.regrid import cache
from earthkit.regrid import config
from earthkit.regrid.utils.caching import cache_file

config.autosave = False
PACKAGE = os.path.dirname(os.path.realpath(earthkit.regrid.__file__)) + os.sep

C = Check(
    "C15",
    "fault_enumeration",
    "A process is killed at the k-th source line that it executes in the package or in the creator while it makes a request (k over "
    "all of the lines in the thorough tier), or an error is raised there; other errors come from the creator, from the renaming of "
    "the file and from a full disk; storms of processes killed at random times. After each, what is in the directory is checked and "
    "new processes and threads make the same request. Non-trivial: distinct points (file, line, thread) and faults.",
    ["a process is killed between two source lines, or at a random time; power failures are not simulated"],
)


def configure(d, size=None):
    config.set(
        {
            "cache-policy": "user",
            "user-cache-directory": d,
            "maximum-cache-size": size,
            "maximum-cache-disk-usage": None,
        }
    )


def ask(key, maker, directory=False, size=2000, **kwargs):
    return cache_file("crash", maker(key, size=size, directory=directory), {"key": key}, extension=".dat", **kwargs)


def on_disk(d):
    h = hashlib.md5()
    for root, _, files in sorted(os.walk(d)):
        h.update(root.encode())
        for f in sorted(files):
            h.update(f.encode())
            try:
                with open(os.path.join(root, f), "rb") as g:
                    h.update(g.read())
            except OSError:
                pass
    return h.hexdigest()


class Points:
    """Line tracer that calls act() at the k-th line of the package or of the creators."""

    def __init__(self, k, act, where=None, directory=None):
        self.directory = directory
        self.k = k
        self.act = act
        self.n = 0
        self.where = where
        self.active = False
        self.hit = None
        self.trail = []

    def __call__(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(PACKAGE) or name.endswith("cachework.py") and frame.f_code.co_name in ("create", "write"):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line" and self.active:
            if self.where == "creator" and frame.f_code.co_name != "write":
                return self.line
            self.n += 1
            if self.k < 0:
                self.trail.append((frame.f_code.co_name, frame.f_lineno, self.directory and on_disk(self.directory)))
            if self.n == self.k:
                f = frame.f_code
                self.hit = [os.path.basename(f.co_filename), f.co_name, frame.f_lineno - f.co_firstlineno]
                self.act(self)
        return self.line

    def __enter__(self):
        threading.settrace(self)
        self.active = True
        sys.settrace(self)
        return self

    def __exit__(self, *args):
        self.active = False
        sys.settrace(None)
        threading.settrace(None)


# ------------------------------------------------------------------ situations of a request


def prepare(kind, d, maker):
    """Done before the tracing starts. Returns the request to trace."""
    directory = "directory" in kind
    if "evict" in kind:
        configure(d, 7000)
    elif "fresh" not in kind:
        configure(d)
    if "fresh" not in kind:
        for i in range(3):
            ask(f"old{i}", maker)
        cache.size()

    def request():
        if "fresh" in kind:
            configure(d)
        if "force" in kind:
            p = ask("old1", maker, directory=directory, force=True)
        else:
            p = ask("new", maker, directory=directory)
        cache.size()
        return p

    return request, ("old1" if "force" in kind else "new"), directory


KINDS = ["fresh", "file", "directory", "evict", "force", "fresh-directory"]


def incomplete(d):
    bad = []
    for name in sorted(os.listdir(d)):
        if is_entry(name):
            path = os.path.join(d, name)
            try:
                found = read(path)
            except Exception as e:
                bad.append([name, f"{type(e).__name__}: {e}"])
                continue
            if found is None:
                bad.append([name, "incomplete"])
    return bad


def after(d, log, key, directory, seed):
    """What a new process finds after the fault."""
    configure(d)
    maker = Maker(log, seed=seed)
    res = {"before": incomplete(d), "size": [], "last": []}

    def account():
        entries = {e["path"]: e["size"] for e in cache.entries()}
        files = {os.path.join(d, n): size_of(os.path.join(d, n)) for n in os.listdir(d) if is_entry(n)}
        total = cache.size()
        if entries != files or total != sum(files.values()) or cache.summary_dump_database()[1] != total:
            return [sorted(entries.items()), sorted(files.items()), total, cache.summary_dump_database()]
        return None

    if random.Random(seed + 1).random() < 0.3:
        # what was left behind is old
        for n in os.listdir(d):
            if not n.startswith("cache-"):
                os.utime(os.path.join(d, n), (time.time() - 500,) * 2)
    res["accounts"] = [account()]

    def evict(turn):
        # nothing is in the way of the eviction
        config.set("maximum-cache-size", 7000)
        for i in range(6):
            last = ask(f"more{i}{turn}", maker)
            cache.size()
        res["size"].append(cache.size())
        res["accounts"].append(account())
        res["last"].append(os.path.exists(last))
        config.set("maximum-cache-size", None)

    if random.Random(seed).random() < 0.5:
        evict(1)
    path = ask(key, maker, directory=directory)
    res["found"] = read(path)
    res["again"] = ask(key, maker, directory=directory) == path
    entries = {e["path"]: e for e in cache.entries()}
    res["entry"] = path in entries
    for i in range(3):
        p = ask(f"other{i}", maker)
        if read(p)[0] != f"other{i}":
            res["found"] = "other"
    evict(2)
    res["accounts"].append(account())
    res["after"] = incomplete(d)
    res["names"] = sorted(n for n in os.listdir(d) if is_entry(n))
    return res


def judge(prefix, c, d, key, case):
    C.evaluate()
    if c.error:
        what = "hangs" if c.hung else "fails"
        C.violation(f"{prefix}-next-{what}", f"the next request {what}: {c.error}", trace=c.trace, **case)
        return
    r = c.result
    C.check(not r["before"] and not r["after"], f"{prefix}-partial", "an incomplete file under a final name", res=r, **case)
    C.check(
        isinstance(r["found"], list) and r["found"][0] == key, f"{prefix}-content", "the next request got something else", res=r, **case
    )
    C.check(r["again"] and r["entry"], f"{prefix}-entry", "no entry for the file of the next request", res=r, **case)
    ok = max(r["size"]) <= 7000 and all(r["last"])
    wrong = [a for a in r["accounts"] if a]
    C.check(not wrong, f"{prefix}-accounts", f"the entries are not the files: {wrong[:1]}", res=r, **case)
    C.check(ok, f"{prefix}-eviction", f"the eviction is blocked: {r['size']} > 7000", res=r, **case)


# ------------------------------------------------------------------ killed at a line


def killed(kind, k, d, log, seed):
    maker = Maker(log, seed=seed)

    def act(points):
        maker.event("killed", *points.hit)
        os.kill(os.getpid(), signal.SIGKILL)

    p = Points(k, act, directory=d)
    # also the threads that are started by the preparation
    threading.settrace(p)
    request, key, directory = prepare(kind, d, maker)
    with p:
        request()
    return {"trail": list(p.trail)}


def kills():
    rng = C.rng("kills")
    # how many lines there are
    total = {}
    for kind in KINDS:
        d, log = fresh_dir("k"), os.path.join(fresh_dir("l"), "log")
        c = Child(killed, kind, -1, d, log, 0)
        wait([c], 60)
        if c.error:
            C.violation("request-fails", f"a request fails: {c.error}", trace=c.trace, kind=kind)
            return
        total[kind] = c.result["trail"]
    points = [(kind, k) for kind in KINDS for k in range(1, len(total[kind]) + 1)]
    C.count("points_of_requests", len(points))
    C.count("points_of_evictions", sum(where[0] == "_decache" for where in total["evict"]))
    rng.shuffle(points)
    # the first and the last time that each line is executed come first
    front = set()
    for kind in KINDS:
        for trail in (enumerate(total[kind]), reversed(list(enumerate(total[kind])))):
            first = {}
            for i, where in trail:
                first.setdefault(tuple(where[:2]), i + 1)
            front.update((kind, k) for k in first.values())
    # before them a point in each of the states of the disk
    states = {}
    for kind, k in points:
        states.setdefault((kind, total[kind][k - 1][2]), (kind, k))
    C.count("states_of_the_disk", len(states))
    states = set(states.values())
    points.sort(key=lambda p: (p not in states, p not in front))
    C.count("lines_of_requests", len({(k, *w[:2]) for k in KINDS for w in total[k]}))
    limit = pick(12, 400)
    t0 = time.time()
    seen = set()
    width = 6
    for i in range(0, len(points), width):
        if i > 60 and time.time() - t0 > limit:
            break
        batch = []
        for kind, k in points[i : i + width]:
            d, log = fresh_dir("k"), os.path.join(fresh_dir("l"), "log")
            batch.append((kind, k, d, log, Child(killed, kind, k, d, log, rng.random())))
        wait([b[-1] for b in batch], 60)
        second = []
        for kind, k, d, log, c in batch:
            if c.hung:
                C.violation("kill-hangs", "a request does not end", kind=kind, k=k)
                continue
            if c.status != -signal.SIGKILL:
                # fewer lines than in the first run
                C.count("not_reached")
                if c.error:
                    C.violation("request-fails", f"a request fails: {c.error}", trace=c.trace, kind=kind)
                continue
            where = [e[1:] for e in events(log) if e[0] == "killed"][0]
            seen.add((kind, *where))
            C.nontrivial(("kill", kind, *where))
            C.count("killed")
            begun = sum(e[0] == "begin" for e in events(log))
            ended = sum(e[0] == "end" for e in events(log))
            C.count("killed_in_creation", begun - ended)
            bad = incomplete(d)
            case = dict(kind=kind, k=k, where=where, creations=[begun, ended])
            C.check(not bad, "kill-partial", "an incomplete file under its final name", files=bad, **case)
            key, directory = ("old1", False) if kind == "force" else ("new", "directory" in kind)
            second.append((key, d, case, Child(after, d, log, key, directory, rng.random())))
        wait([s[-1] for s in second], 60)
        for key, d, case, c in second:
            judge("kill", c, d, key, case)
            shutil.rmtree(d)
    C.count("distinct_kill_points", len(seen))


# ------------------------------------------------------------------ errors


class Failure(Exception):
    pass


def failing(how, maker, key, directory):
    """A creator that fails, after a part of the work"""

    def create(path, args):
        maker.event("failing", how)
        if how == "before":
            raise Failure(how)
        if how == "no-file":
            return None
        if directory:
            os.makedirs(path, exist_ok=True)
        with open(os.path.join(path, "part") if directory else path, "w") as f:
            f.write("partial")
            f.flush()
            if how == "middle":
                raise Failure(how)
            if how == "enospc":
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            if how == "interrupt":
                raise KeyboardInterrupt(how)
            if how == "exit":
                raise SystemExit(3)
            if how == "generator":
                raise GeneratorExit(how)
            if how == "memory":
                raise MemoryError(how)
            if how == "too-large":
                for _ in range(100):
                    f.write("x" * 1000)
                    f.flush()

    return create


HOW = [
    "before",
    "no-file",
    "middle",
    "enospc",
    "interrupt",
    "exit",
    "generator",
    "memory",
    "too-large",
    "rename-enospc",
    "rename-eacces",
]


class NoRename:
    """The renaming of files fails"""

    def __init__(self, code):
        self.code = code

    def __enter__(self):
        def fail(src, dst, *args, **kwargs):
            raise OSError(self.code, os.strerror(self.code), src, None, dst)

        self.old = os.rename, os.replace
        os.rename = os.replace = fail

    def __exit__(self, *args):
        os.rename, os.replace = self.old


def fails(how, kind, d, log, seed):
    """A creation that fails, then requests in the same process, also in another thread."""
    rng = random.Random(seed)
    maker = Maker(log, seed=seed)
    directory = kind == "directory"
    configure(d)
    for i in range(rng.randint(0, 2)):
        ask(f"old{i}", maker)
    res = {"reported": []}
    before = sorted(e["path"] for e in cache.entries())
    n_before = cache.summary_dump_database()
    for _ in range(rng.randint(1, 3)):
        try:
            if how.startswith("rename"):
                with NoRename(errno.ENOSPC if how.endswith("enospc") else errno.EACCES):
                    ask("new", maker, directory=directory)
            elif how == "too-large":
                old = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (50000, old[1]))
                try:
                    cache_file("crash", failing(how, maker, "new", directory), {"key": "new"}, extension=".dat")
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, old)
            else:
                cache_file("crash", failing(how, maker, "new", directory), {"key": "new"}, extension=".dat")
            res["reported"].append(None)
        except BaseException as e:  # noqa: B902
            res["reported"].append(f"{type(e).__name__}: {e}")
        res["partial"] = incomplete(d)
        res["entries"] = sorted(e["path"] for e in cache.entries()) == before
        res["count"] = cache.summary_dump_database() == n_before
    # the next request: in the same thread, or in another one
    got = []
    if rng.random() < 0.5:
        got.append(read(ask("new", maker, directory=directory)))
    else:
        t = threading.Thread(target=lambda: got.append(read(ask("new", maker, directory=directory))), daemon=True)
        t.start()
        t.join(20)
    res["next"] = got
    return res


WANT = {
    "before": "Failure",
    "no-file": "FileNotFoundError",
    "middle": "Failure",
    "enospc": "OSError",
    "interrupt": "KeyboardInterrupt",
    "exit": "SystemExit",
    "generator": "GeneratorExit",
    "memory": "MemoryError",
    "too-large": "OSError",
    "rename-enospc": "OSError",
    "rename-eacces": "PermissionError",
}


def errors():
    rng = C.rng("errors")
    cases = [(how, kind) for how in HOW for kind in ("file", "directory")] * pick(1, 12)
    width = 6
    for i in range(0, len(cases), width):
        batch = []
        for how, kind in cases[i : i + width]:
            d, log = fresh_dir("e"), os.path.join(fresh_dir("l"), "log")
            batch.append((how, kind, d, log, Child(fails, how, kind, d, log, rng.random())))
        wait([b[-1] for b in batch], 60)
        second = []
        for how, kind, d, log, c in batch:
            case = dict(how=how, kind=kind)
            C.evaluate()
            if c.error:
                what = "hangs" if c.hung else "fails"
                C.violation(f"error-next-{what}", f"after a failed creation the next request {what}: {c.error}", trace=c.trace, **case)
                continue
            r = c.result
            C.count("failed_creations", len(r["reported"]))
            C.nontrivial(("error", how, kind))
            for rep in r["reported"]:
                ok = rep is not None and rep.startswith(WANT[how])
                C.check(ok, "error-not-reported", f"the failure is not reported to the caller: {rep}", res=r, **case)
            C.check(not r["partial"], "error-partial", "an incomplete file under a final name", res=r, **case)
            C.check(r["entries"] and r["count"], "error-entry", "the failed creation left an entry", res=r, **case)
            ok = len(r["next"]) == 1 and isinstance(r["next"][0], list) and r["next"][0][0] == "new"
            C.check(ok, "error-next", "the next request does not get the file", res=r, **case)
            second.append(("new", d, case, Child(after, d, log, "new", kind == "directory", rng.random())))
        wait([s[-1] for s in second], 60)
        for key, d, case, c in second:
            judge("error", c, d, key, case)
            shutil.rmtree(d)


def fails_elsewhere(policy, how, directory, root, log, seed):
    """A creation that fails where the files are not kept from one process to the next"""
    rng = random.Random(seed)
    maker = Maker(log, seed=seed)
    config.set({"temporary-directory-root": root, "temporary-cache-directory-root": root, "cache-policy": policy})
    d = cache.directory()
    res = {"reported": [], "in_root": os.path.dirname(d) == root}
    good = [ask(f"old{i}", maker) for i in range(rng.randint(0, 2))]
    n = len(os.listdir(d))
    for _ in range(2):
        try:
            if how.startswith("rename"):
                with NoRename(errno.ENOSPC if how.endswith("enospc") else errno.EACCES):
                    ask("new", maker, directory=directory)
            else:
                cache_file("crash", failing(how, maker, "new", directory), {"key": "new"}, extension=".dat")
            res["reported"].append(None)
        except BaseException as e:  # noqa: B902
            res["reported"].append(f"{type(e).__name__}: {e}")
        res["partial"] = incomplete(d)
    got = [ask("new", maker, directory=directory) for _ in range(2)]
    res["next"] = [read(p) for p in got]
    res["distinct"] = len(set(got))
    res["kept"] = [read(p)[0] for p in good] == [f"old{i}" for i in range(len(good))]
    res["n"] = n
    return res


def errors_elsewhere():
    rng = C.rng("errors-elsewhere")
    hows = [h for h in HOW if h != "too-large"]
    cases = [(p, h, x) for p in ("off", "temporary") for h in hows for x in (False, True)] * pick(1, 6)
    width = 8
    for i in range(0, len(cases), width):
        batch = []
        for policy, how, directory in cases[i : i + width]:
            log = os.path.join(fresh_dir("l"), "log")
            c = Child(fails_elsewhere, policy, how, directory, fresh_dir("o"), log, rng.random())
            batch.append((policy, how, directory, c))
        wait([b[-1] for b in batch], 60)
        for policy, how, directory, c in batch:
            case = dict(policy=policy, how=how, directory=directory)
            C.evaluate()
            if c.error:
                what = "hangs" if c.hung else "fails"
                C.violation(f"elsewhere-next-{what}", f"after a failed creation the next request {what}: {c.error}", trace=c.trace, **case)
                continue
            r = c.result
            C.count("failed_elsewhere", len(r["reported"]))
            C.nontrivial(("elsewhere", policy, how, directory))
            for rep in r["reported"]:
                ok = rep is not None and rep.startswith(WANT[how])
                C.check(ok, "elsewhere-not-reported", f"the failure is not reported to the caller: {rep}", res=r, **case)
            C.check(not r["partial"], "elsewhere-partial", "an incomplete file under a final name", res=r, **case)
            ok = len(r["next"]) == 2 and all(x and x[0] == "new" for x in r["next"]) and r["kept"]
            C.check(ok, "elsewhere-next", "the next request does not get the file", res=r, **case)
            C.check(r["distinct"] == (2 if policy == "off" else 1), "elsewhere-reuse", "reuse of a file is not as configured", res=r, **case)
            C.check(r["in_root"], "elsewhere-root", "not in the directory that is configured", res=r, **case)


# ------------------------------------------------------------------ interrupted at a line
# Only in the creator: an asynchronous exception between a lock's acquisition and the start of the
# block that releases it is beyond what Python code can guard against.


def interrupted(kind, k, d, log, seed):
    """An error raised at a line of the creator, then the same request again."""
    error = random.Random(seed).choice([KeyboardInterrupt, SystemExit, MemoryError, OSError, RuntimeError, GeneratorExit])
    maker = Maker(log, seed=seed)
    request, key, directory = prepare(kind, d, maker)

    def act(points):
        raise error("here")

    res = {"raised": None}
    with Points(k, act, where="creator") as p:
        try:
            request()
        except BaseException as e:  # noqa: B902
            res["raised"] = type(e) is error
    res["lines"] = p.n
    res["hit"] = p.hit
    res["partial"] = incomplete(d)
    config.set("maximum-cache-size", None)
    path = ask(key, maker, directory=directory)
    res["next"] = read(path)
    got = []
    t = threading.Thread(target=lambda: got.append(read(ask("other", maker))), daemon=True)
    t.start()
    t.join(20)
    res["other"] = got
    return res


def interrupts():
    rng = C.rng("interrupts")
    kinds = ["file", "directory", "evict"]
    total = {}
    for kind in kinds:
        c = Child(interrupted, kind, -1, fresh_dir("i"), os.path.join(fresh_dir("l"), "log"), 0)
        wait([c], 60)
        if c.error:
            C.violation("request-fails", f"a request fails: {c.error}", trace=c.trace, kind=kind)
            return
        total[kind] = c.result["lines"]
    points = [(kind, k) for kind in kinds for k in range(1, total[kind] + 1)]
    rng.shuffle(points)
    limit = pick(4, 120)
    t0 = time.time()
    width = 6
    for i in range(0, len(points), width):
        if i > 30 and time.time() - t0 > limit:
            break
        batch = []
        for kind, k in points[i : i + width]:
            d, log = fresh_dir("i"), os.path.join(fresh_dir("l"), "log")
            batch.append((kind, k, d, log, Child(interrupted, kind, k, d, log, rng.random())))
        wait([b[-1] for b in batch], 60)
        second = []
        for kind, k, d, log, c in batch:
            case = dict(kind=kind, k=k)
            C.evaluate()
            if c.error:
                what = "hangs" if c.hung else "fails"
                C.violation(f"interrupt-next-{what}", f"the next request {what}: {c.error}", trace=c.trace, **case)
                continue
            r = c.result
            if r["hit"] is None:
                C.count("not_reached")
                continue
            case["where"] = r["hit"]
            C.count("interrupted", r["raised"] is True)
            C.nontrivial(("interrupt", kind, *(r["hit"] or [])))
            C.check(r["raised"] is True, "interrupt-not-reported", "the error is not reported to the caller", res=r, **case)
            C.check(not r["partial"], "interrupt-partial", "an incomplete file under a final name", res=r, **case)
            ok = r["next"] and r["next"][0] == "new" and r["other"] and r["other"][0][0] == "other"
            C.check(ok, "interrupt-next", "the next request does not get the file", res=r, **case)
            second.append(("new", d, case, Child(after, d, log, "new", kind == "directory", rng.random())))
        wait([s[-1] for s in second], 60)
        for key, d, case, c in second:
            judge("interrupt", c, d, key, case)
            shutil.rmtree(d)


# ------------------------------------------------------------------ storms


def storm_process(d, log, seed, keys, p_fail):
    rng = random.Random(seed)
    configure(d)
    maker = Maker(log, seed=seed, slow=0.01)
    results = []

    def job(seed):
        r = random.Random(seed)
        for _ in range(6):
            key = r.choice(keys)
            fail = r.random() < p_fail
            create = failing("middle", maker, key, False) if fail else maker(key)
            try:
                path = cache_file("crash", create, {"key": key}, extension=".dat")
            except Failure:
                if not fail:
                    results.append([key, "raised the failure of another one"])
                continue
            found = read(path)
            if not found or found[0] != key:
                results.append([key, found])
            results.append(None)

    team = Team()
    for _ in range(2):
        team.add(job, rng.random(), delays=Delays(rng.random(), p_sleep=0.05, only="caching.py"))
    ended = team.run(40)
    return {
        "bad": [r for r in results if r],
        "good": sum(r is None for r in results),
        "errors": [t[-1500:] for _, t in team.errors],
        "hung": [] if ended else team.stacks(),
    }


def storm_end(d, log, keys):
    configure(d)
    maker = Maker(log)
    return [read(ask(k, maker)) for k in keys]


def storms():
    rng = C.rng("storms")
    limit = pick(6, 150)
    t0 = time.time()
    n = 0
    while n < 2 or time.time() - t0 < limit:
        n += 1
        d, log = fresh_dir("s"), os.path.join(fresh_dir("l"), "log")
        keys = [f"k{i}" for i in range(rng.randint(1, 5))]
        p_fail = rng.choice([0.0, 0.4])
        kids = [Child(storm_process, d, log, rng.random(), keys, p_fail) for _ in range(4)]
        every = list(kids)
        killed_pids = set()
        for _ in range(6):
            time.sleep(rng.random() * 0.05)
            victim = rng.choice(kids)
            if not victim.poll():
                victim.kill()
                killed_pids.add(victim.pid)
                C.count("storm_kills")
            kids.remove(victim)
            new = Child(storm_process, d, log, rng.random(), keys, p_fail)
            kids.append(new)
            every.append(new)
            bad = incomplete(d)
            C.check(not bad, "storm-partial", "an incomplete file under a final name", files=bad)
        wait(every, 60)
        for c in every:
            if c.pid in killed_pids:
                continue
            C.evaluate()
            if c.error:
                C.violation("storm-process", f"a process {'hangs' if c.hung else 'fails'}: {c.error}", trace=c.trace)
                continue
            r = c.result
            C.count("storm_requests", r["good"])
            C.check(not r["bad"], "storm-content", "a request got something else", res=r)
            C.check(not r["hung"], "storm-hangs", "a request does not end", res=r)
            for t in r["errors"]:
                C.violation("storm-fails", t.strip().split("\n")[-1], trace=t)
        c = Child(storm_end, d, log, keys)
        wait([c], 60)
        if c.error:
            C.violation("storm-next", f"the requests after the storm: {c.error}", trace=c.trace)
        else:
            C.check([x and x[0] for x in c.result] == keys, "storm-next", "the requests after the storm get something else", res=c.result)
        C.nontrivial(("storm", len(events(log)), len(killed_pids)))
        C.count("storms")
        shutil.rmtree(d)


C.require(failed_elsewhere=40)
C.require(states_of_the_disk=40, killed=90, killed_in_creation=1, failed_creations=20, interrupted=30, storms=2, storm_kills=3, storm_requests=20)
main(C, kills, errors, errors_elsewhere, interrupts, storms)
