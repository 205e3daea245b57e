"""C14: a cached file is created once and is always complete, across threads and processes."""

import json
import os
import random
import sys
import threading
import time

from cachework import Maker
from cachework import events
from cachework import is_entry
from cachework import read
from harness import Check
from harness import fresh_dir
from harness import main
from harness import pick
from monitor import switch_interval
from procs import Child
from procs import wait
from stress import Delays
from stress import Team

from earthkit.regrid import cache
from earthkit.regrid import config
from earthkit.regrid.utils.caching import cache_file

config.autosave = False

C = Check(
    "C14",
    "exploration",
    "Rounds of threads and forked processes (forked before or after the cache was used) that ask for overlapping sets of files "
    "in one cache directory, with delays at random lines of the package and slow creators; every round checks the log of the "
    "creations, every path returned and everything seen under a final name by a thread that watches the directory; "
    "non-trivial: rounds with distinct orders of the creations.",
    ["interleavings are those that the delays, the slow creators and the scheduler produced", "local file system"],
)


def configure(policy, d):
    config.set(
        {
            "cache-policy": policy,
            "user-cache-directory": d,
            "temporary-cache-directory-root": d,
            "temporary-directory-root": d,
            "maximum-cache-size": None,
            "maximum-cache-disk-usage": None,
        }
    )


class Request:
    def __init__(self, owner, args, extension, directory=False, extra=None):
        self.owner = owner
        self.args = args
        self.extension = extension
        self.directory = directory
        self.extra = extra
        self.key = json.dumps([owner, args, extension, extra], sort_keys=True)

    def shuffled(self, o, rng):
        """The same arguments with the keys of the dicts in another order."""
        if isinstance(o, dict):
            items = list(o.items())
            rng.shuffle(items)
            return {k: self.shuffled(v, rng) for k, v in items}
        if isinstance(o, list):
            return [self.shuffled(x, rng) for x in o]
        return o

    def __call__(self, maker, rng, size=2000):
        kw = {} if self.extra is None else {"hash_extra": self.extra}
        return cache_file(
            self.owner,
            maker(self.key, size=size, directory=self.directory),
            self.shuffled(self.args, rng),
            extension=self.extension,
            **kw,
        )


def requests(rng, n):
    """Requests that differ in one small thing each."""
    base = [
        ("url", [1, 2], ".npz"),
        ("url", [12], ".npz"),
        ("url", ["1", "2"], ".npz"),
        ("url", ["1, 2"], ".npz"),
        ("url", [2, 1], ".npz"),
        ("url", [1, 2], ".json"),
        ("url", [1, 2], ""),
        ("url", [[1], 2], ".npz"),
        ("url", [1, [2]], ".npz"),
        ("url", [1, 2, None], ".npz"),
        ("url", [1, 2, []], ".npz"),
        ("Url", [1, 2], ".npz"),
        ("URL", [1, 2], ".npz"),
        ("url2", [1, 2], ".npz"),
        ("url", {"a": 1, "b": 2}, ".npz"),
        ("url", {"a": 2, "b": 1}, ".npz"),
        ("url", {"a": 1}, ".npz"),
        ("url", {"a": 1, "b": {"c": 1, "d": 2}}, ".npz"),
        ("url", {"a": 1, "b": {"c": 2, "d": 1}}, ".npz"),
        ("url", {"a": 1, "b": None}, ".npz"),
        ("url", {"a": "1", "b": 2}, ".npz"),
        ("url", [], ".npz"),
        ("url", {}, ".npz"),
        ("url", ["http://x/a.npz"], ".npz"),
        ("url", ["http://x/A.npz"], ".npz"),
        ("url", ["http://y/a.npz"], ".npz"),
        ("url", ["http://x/a.npz", "v1"], ".npz"),
        ("url", ["http://x/a.npz", "v2"], ".npz"),
        ("url", ["http://x/é.npz"], ".npz"),
        ("url", ["http://x/e.npz"], ".npz"),
        ("url", ["x" * 300], ".npz"),
        ("url", ["x" * 301], ".npz"),
        ("url", [1.5], ".npz"),
        ("url", [1.25], ".npz"),
        ("url", [True], ".npz"),
        ("url", [False], ".npz"),
        ("url", ["true"], ".npz"),
    ]
    n = min(n, len(base))
    return [Request(*b, directory=rng.random() < 0.15) for b in rng.sample(base, n)]


class Watch(threading.Thread):
    """Looks at everything that appears under a final name."""

    def __init__(self, d):
        super().__init__(daemon=True)
        self.d = d
        self.stop = False
        self.bad = []
        self.seen = {}
        self.looks = 0

    def look(self):
        for root in [self.d] + [os.path.join(self.d, n) for n in os.listdir(self.d) if n.startswith("tmp")]:
            if not os.path.isdir(root):
                continue
            for name in os.listdir(root):
                if not is_entry(name) or (root == self.d and name.startswith("tmp")):
                    continue
                path = os.path.join(root, name)
                try:
                    found = read(path)
                except FileNotFoundError:
                    continue
                self.looks += 1
                if found is None:
                    self.bad.append((path, "incomplete"))
                elif self.seen.setdefault(path, found) != found:
                    self.bad.append((path, self.seen[path], found))

    def run(self):
        while not self.stop:
            self.look()
            time.sleep(0.0005)


def worker(reqs, seed, log, slow, delayed, results, watcher=None, n=None):
    """What one thread does: all of the requests in its own order, some of them twice."""
    rng = random.Random(seed)
    maker = Maker(log, seed=rng.random(), slow=slow)
    todo = list(reqs)
    rng.shuffle(todo)
    todo = todo[: n or len(todo)]
    todo += rng.sample(todo, min(2, len(todo)))
    for r in todo:
        path = r(maker, rng)
        try:
            found = read(path)
        except Exception as e:
            found = f"{type(e).__name__}: {e}"
        results.append([r.key, path, found])
        if rng.random() < 0.1:
            cache.entries()
        if rng.random() < 0.1:
            cache.summary_dump_database()
        if rng.random() < 0.1:
            cache.size()


def team_of(reqs, seed, log, slow, threads, p_sleep, n=None, timeout=60):
    rng = random.Random(seed)
    results = []
    team = Team()
    for i in range(threads):
        delays = Delays(rng.random(), p_sleep=p_sleep, p_yield=0.05, only="caching.py")
        team.add(worker, reqs, rng.random(), log, slow, delays, results, None, n, delays=delays)
    ended = team.run(timeout)
    return {
        "results": results,
        "errors": [t[-1500:] for _, t in team.errors],
        "hung": [] if ended else team.stacks(),
        "lines": sum(d.lines for d in team.delays),
        "sleeps": sum(d.sleeps for d in team.delays),
    }


def verify(kind, reqs, outcomes, log, watch, once=True):
    """outcomes: what the teams of the processes report"""
    paths = {}
    nonces = {}
    case = dict(kind=kind, requests=[r.key for r in reqs])
    for o in outcomes:
        for t in o["errors"]:
            C.violation(f"{kind}-request-failed", t.strip().split("\n")[-1], trace=t, **case)
        for t in o["hung"]:
            C.violation(f"{kind}-hangs", "a thread does not end", stack=t, **case)
        C.count("lines_traced", o["lines"])
        C.count("delays", o["sleeps"])
        for key, path, found in o["results"]:
            C.evaluate()
            C.count(f"requests_{kind}")
            paths.setdefault(key, set()).add(path)
            if not isinstance(found, (list, tuple)):
                C.violation(f"{kind}-incomplete", "the file returned is not complete", path=path, found=found, **case)
            elif found[0] != key:
                C.violation(f"{kind}-other-request", "the file returned belongs to another request", got=found, key=key)
            else:
                nonces.setdefault(key, []).append(found[1])
    log = events(log)
    begun = {}
    ended = {}
    for what, key, nonce in log:
        (begun if what == "begin" else ended).setdefault(key, []).append(nonce)
    C.count("creations", sum(len(v) for v in begun.values()))
    if once:
        for key, ps in paths.items():
            C.check(len(ps) == 1, f"{kind}-paths", "different paths for the same request", key=key, paths=sorted(ps))
            n = len(begun.get(key, []))
            C.check(n == 1, f"{kind}-created-{'more' if n > 1 else 'never'}", f"created {n} times", key=key, log=log[:60])
            C.check(
                len(set(nonces.get(key, []))) <= 1, f"{kind}-contents", "requests saw different files", key=key, nonces=nonces[key]
            )
        owner = {}
        for key, ps in paths.items():
            for p in ps:
                other = owner.setdefault(p, key)
                C.check(other == key, f"{kind}-shared-path", "different requests got the same file", keys=[other, key], path=p)
    else:
        # nothing is kept: a file for each request
        every = [p for o in outcomes for _, p, _ in o["results"]]
        C.check(len(every) == len(set(every)), f"{kind}-shared-path", "requests got the same file", n=len(every))
        total = sum(len(v) for v in begun.values())
        C.check(total == len(every), f"{kind}-creations", f"{total} creations for {len(every)} requests")
    if watch:
        watch.stop = True
        watch.join(10)
        watch.look()
        C.count("looks", watch.looks)
        for b in watch.bad:
            C.violation(f"{kind}-seen-incomplete", "an incomplete or changing file under a final name", seen=b, **case)
    C.nontrivial((kind, tuple(k for w, k, _ in log if w == "begin"), sum(o["lines"] for o in outcomes) // 50))
    C.count(f"rounds_{kind}")


# -------------------------------------------------------------------------------- rounds


def one_process(rng, kind):
    """In a forked process: a fresh cache, threads only."""
    d = fresh_dir("cache")
    log = os.path.join(fresh_dir("log"), "log")
    reqs = requests(rng, rng.randint(2, 6))
    policy = {"threads": "user", "threads-temporary": "temporary", "off": "off"}[kind]
    watch = Watch(d)
    watch.start()
    seed, slow = rng.random(), rng.choice([0.0, 0.002, 0.01])
    threads = rng.randint(3, 8)
    p_sleep = rng.choice([0.0, 0.02, 0.1])

    def job():
        sys.setswitchinterval(random.Random(seed).choice([1e-5, 1e-3]))
        configure(policy, d)
        res = team_of(reqs, seed, log, slow, threads, p_sleep)
        if policy != "off":
            here = cache.directory()
            entries = cache.entries()
            res["entries"] = [[e["path"], e["size"]] for e in entries]
            res["files"] = [[os.path.join(here, n)] for n in os.listdir(here) if is_entry(n)]
        # what is there is compared before the temporary directories vanish
        res["read"] = {p: read(p) for p in {r[1] for r in res["results"]}}
        return res

    c = Child(job)
    wait([c], 90)
    if c.error:
        C.violation(f"{kind}-process", f"a process failed: {c.error}", trace=c.trace)
        watch.stop = True
        return
    o = c.result
    verify(kind, reqs, [o], log, watch, once=policy != "off")
    if policy != "off":
        got = sorted(p for p, _ in o["entries"])
        C.check(
            got == sorted({r[1] for r in o["results"]}) == sorted(f[0] for f in o["files"]),
            f"{kind}-entries",
            "the entries are not the files that were requested",
            entries=got,
            files=o["files"],
        )


def processes(rng, kind):
    """Processes that share a user directory. warm: the parent used the cache before it forked."""
    d = fresh_dir("cache")
    log = os.path.join(fresh_dir("log"), "log")
    reqs = requests(rng, rng.randint(2, 6))
    watch = Watch(d)
    watch.start()
    n = rng.randint(2, 6)
    seeds = [rng.random() for _ in range(n)]
    slow = rng.choice([0.0, 0.002, 0.01])
    threads = rng.randint(1, 3)
    p_sleep = rng.choice([0.0, 0.02, 0.1])
    start = os.path.join(os.path.dirname(log), "start")

    def job(seed):
        if kind == "processes":
            configure("user", d)
        while not os.path.exists(start):
            time.sleep(0.0005)
        return team_of(reqs, seed, log, slow, threads, p_sleep)

    def family():
        """The parent, in a process of its own, so that the cache is as it should be."""
        outcomes = []
        if kind == "processes-warm":
            configure("user", d)
            results = []
            worker(reqs[:1], seeds[0], log, 0.0, None, results)
            outcomes.append({"results": results, "errors": [], "hung": [], "lines": 0, "sleeps": 0})
        children = [Child(job, s) for s in seeds]
        with open(start, "w"):
            pass
        wait(children, 60)
        failed = [[c.error, c.trace] for c in children if c.error]
        return {"outcomes": outcomes + [c.result for c in children if c.result], "failed": failed}

    c = Child(family)
    wait([c], 90)
    if c.error:
        C.violation(f"{kind}-process", f"a process failed: {c.error}", trace=c.trace)
        watch.stop = True
        return
    for why, trace in c.result["failed"]:
        C.violation(f"{kind}-process", f"a process failed: {why}", trace=trace)
    verify(kind, reqs, c.result["outcomes"], log, watch)
    C.count("processes", n)


def rounds():
    rng = C.rng("rounds")
    kinds = ["threads", "processes", "threads-temporary", "processes-warm", "off", "processes"]
    budget = pick(20, 380)
    i = 0
    with switch_interval(1e-4):
        while i < 12 or C.elapsed() < budget:
            kind = kinds[i % len(kinds)]
            if kind.startswith("processes"):
                processes(rng, kind)
            else:
                one_process(rng, kind)
            i += 1


def distinct():
    """All the requests of the pool in one cache: a file for each, found again."""
    d = fresh_dir("cache")
    log = os.path.join(fresh_dir("log"), "log")
    rng = C.rng("distinct")
    configure("user", d)
    reqs = requests(rng, 1000)
    reqs += [Request("url", [1, 2], ".npz", extra=x) for x in ("a", "b", ["a"], {"a": 1})]
    paths = {}
    for turn in range(3):
        rng.shuffle(reqs)
        for r in reqs:
            path = r(Maker(log), rng, size=200)
            C.evaluate()
            C.count("distinct_requests")
            other = paths.setdefault(path, r.key)
            C.check(other == r.key, "distinct-shared-path", "different requests got the same file", keys=[other, r.key])
            C.check((read(path) or [None])[0] == r.key, "distinct-content", "the file belongs to another request", key=r.key)
            C.check(path.endswith(r.extension), "distinct-extension", "not the extension asked for", path=path)
            C.check(os.path.dirname(path) == d, "distinct-directory", "not in the cache directory", path=path)
    # and many that differ in a number only
    many = [Request("url", ["http://x/a.npz", i], ".npz") for i in range(pick(900, 3000))]
    for r in many:
        path = r(Maker(log), rng, size=100)
        C.count("distinct_requests")
        other = paths.setdefault(path, r.key)
        C.check(other == r.key, "distinct-shared-path", "different requests got the same file", keys=[other, r.key])
    reqs += many
    begun = [k for w, k, _ in events(log) if w == "begin"]
    C.check(len(begun) == len(set(begun)) == len(reqs), "distinct-creations", "not created once each", n=len(begun))
    C.nontrivial(("distinct", len(paths)))


# ------------------------------------------------------------------ creations that take long


def slow_request(d, log, seed, gate, force, directory):
    configure("user", d)
    maker = Maker(log, seed=seed)
    inner = maker("long", size=3000, directory=directory)

    def create(path, args):
        if directory:
            os.makedirs(path)
        else:
            with open(path, "w") as f:
                f.write("part")
        maker.event("started", "long", seed)
        end = time.time() + 30
        while not os.path.exists(gate) and time.time() < end:
            time.sleep(0.002)
        return inner(path, args)

    path = cache_file("long", create, {"key": "long"}, extension=".dat", force=force)
    return [path, read(path)]


def disturb(d, log, seed):
    """What others do to the cache in the meantime"""
    rng = random.Random(seed)
    configure("user", d)
    maker = Maker(log, seed=seed)
    done = []
    for _ in range(rng.randint(1, 4)):
        what = rng.choice(["limit", "limit", "purge", "check", "create", "look", "usage"])
        done.append(what)
        if what == "limit":
            config.set("maximum-cache-size", rng.choice([1, 1000, 4000]))
            cache.size()
            config.set("maximum-cache-size", None)
        elif what == "usage":
            config.set("maximum-cache-disk-usage", 1)
            cache.size()
            config.set("maximum-cache-disk-usage", None)
        elif what == "purge":
            cache.purge()
        elif what == "check":
            cache.check_size()
        elif what == "create":
            k = f"other{rng.randrange(5)}"
            cache_file("long", maker(k, size=500), {"key": k}, extension=".dat")
        else:
            cache.entries()
            cache.summary_dump_database()
        cache.size()
    return done


def elsewhere(where, func, *args):
    """A function to wait for the result of func(*args), in a thread or in another process"""
    if where == "process":
        c = Child(func, *args)

        def result():
            wait([c], 40)
            return (c.result, c.error)

        return result
    got = []

    def run():
        try:
            got.append((func(*args), None))
        except Exception as e:
            got.append((None, f"{type(e).__name__}: {e}"))

    t = threading.Thread(target=run, daemon=True)
    t.start()

    def result():
        t.join(40)
        return got[0] if got else (None, "hung")

    return result


def until(log, what, n, timeout=20):
    end = time.time() + timeout
    while sum(e[0] == what for e in events(log)) < n:
        if time.time() > end:
            return False
        time.sleep(0.002)
    return True


def long_creation(rng):
    """The files of a creation look old while it goes on: nobody removes them or creates the same file."""
    d, log = fresh_dir("long"), os.path.join(fresh_dir("log"), "log")
    gate = os.path.join(fresh_dir("gate"), "gate")
    force, directory = rng.random() < 0.4, rng.random() < 0.3
    places = [rng.choice(["thread", "process"]) for _ in range(3)]
    case = dict(force=force, directory=directory, places=places)
    configure("user", d)
    maker = Maker(log)
    for i in range(rng.randint(0, 2)):
        cache_file("long", maker(f"old{i}", size=500), {"key": f"old{i}"}, extension=".dat")
    if force:
        cache_file("long", maker("long", size=1000, directory=directory), {"key": "long"}, extension=".dat")
    cache.size()
    before = sum(e[0] == "begin" and e[1] == "long" for e in events(log))
    first = elsewhere(places[0], slow_request, d, log, rng.random(), gate, force, directory)
    if not until(log, "started", 1):
        C.violation("long-starts", f"a request does not start: {first()}", **case)
        return
    for n in os.listdir(d):
        if n.endswith((".lock", ".tmp")):
            old = time.time() - rng.choice([130, 500, 86400])
            os.utime(os.path.join(d, n), (old, old))
    case["disturbed"], error = elsewhere(places[1], disturb, d, log, rng.random())()
    C.check(error is None, "long-disturb", f"another operation fails in the meantime: {error}", **case)
    # another request would make the entry again
    alone = rng.random() < 0.4
    second = None if alone else elsewhere(places[2], slow_request, d, log, rng.random(), gate, False, directory)
    time.sleep(rng.choice([0.02, 0.05]))
    if not C.check(sum(e[0] == "started" for e in events(log)) == 1, "long-overlap", "the same file is created twice at the same time", **case):
        open(gate, "w").close()
        first()
        if second:
            second()
        return
    open(gate, "w").close()
    got = [first()] * 2 if alone else [first(), second()]
    C.count("long_alone", alone)
    C.evaluate()
    case["got"] = got
    for r, error in got:
        if not C.check(error is None, "long-fails", f"a request fails: {error}", **case):
            return
        C.check(r[1] and r[1][0] == "long", "long-content", "not the complete file", **case)
    C.check(got[0][0][0] == got[1][0][0], "long-paths", "different paths", **case)
    n = sum(e[0] == "begin" and e[1] == "long" for e in events(log)) - before
    C.check(n == 1, "long-created", f"created {n} times", **case)
    cache.size()
    C.check((read(got[0][0][0]) or [None])[0] == "long", "long-content", "not the complete file at rest", **case)
    names = [os.path.basename(e["path"]) for e in cache.entries()]
    C.check(all(is_entry(x) for x in names), "long-entries", "work files are entries", names=names, **case)
    C.check(os.path.basename(got[0][0][0]) in names, "long-entry", "no entry for the file", names=names, **case)
    C.count("long_creations")
    C.count("long_disturbances", len(case["disturbed"] or []))
    C.nontrivial(("long", force, directory, tuple(places), tuple(case["disturbed"] or [])))


def long_creations():
    rng = C.rng("long")
    budget = C.elapsed() + pick(4, 80)
    i = 0
    while i < 15 or C.elapsed() < budget:
        i += 1
        long_creation(random.Random(rng.random()))


def patience():
    """Creations that take many seconds, and requests that wait for them all the time"""
    rng = C.rng("patience")
    jobs = []
    for force, directory in ((False, False), (False, True), (True, False)):
        d, log = fresh_dir("long"), os.path.join(fresh_dir("log"), "log")
        gate = os.path.join(fresh_dir("gate"), "gate")
        first = Child(slow_request, d, log, rng.random(), gate, force, directory)
        if not until(log, "started", 1):
            C.violation("patience-starts", "a request does not start", force=force, directory=directory)
            return

        def two(d=d, log=log, gate=gate, directory=directory, seed=rng.random()):
            got = [elsewhere("thread", slow_request, d, log, seed + i, gate, False, directory) for i in range(2)]
            return [g() for g in got]

        jobs.append((force, directory, log, gate, first, [Child(two) for _ in range(2)]))
    time.sleep(pick(9, 25))
    for _, _, _, gate, _, _ in jobs:
        open(gate, "w").close()
    for force, directory, log, gate, first, others in jobs:
        wait([first] + others, 60)
        case = dict(force=force, directory=directory)
        paths = set()
        for r, error in [(first.result, first.error)] + [x for c in others for x in c.result or [(None, c.error)]]:
            C.evaluate()
            C.count("patient_requests")
            if not C.check(error is None, "patience-fails", f"a request that waits for a long creation fails: {error}", **case):
                continue
            C.check(r[1] and r[1][0] == "long", "patience-content", "not the complete file", **case)
            paths.add(r[0])
        n = sum(e[0] == "begin" for e in events(log))
        C.check(n == 1 and len(paths) == 1, "patience-created", f"created {n} times, paths {paths}", **case)
        C.nontrivial(("patience", force, directory))


# ------------------------------------------------------------------ forked while the cache is busy


def busy_forks(seed, n, d, log):
    """A program without threads of its own uses the cache and forks"""
    rng = random.Random(seed)
    configure("user", d)
    # the limit is checked after each creation
    config.set("maximum-cache-size", rng.choice(["1G", "1G", None]))

    def get(key, who, force=False):
        return cache_file("busy", Maker(log, seed=who)(key, size=100), {"key": key}, extension=".dat", force=force)

    def child(i, keys):
        got = [[k, get(k, i)] for k in keys]
        return {"got": [[k, p, read(p)] for k, p in got], "size": cache.size()}

    bad, counts, running = [], {"forks": 0, "requests": 0}, []
    for i in range(n):
        what = rng.random()
        # these return before the cache has noted them
        if what < 0.3:
            get(f"k{rng.randrange(4)}", "parent", force=rng.random() < 0.3)
        elif what < 0.9:
            get(f"p{i}", "parent")
        else:
            cache.check_size()
        end = time.perf_counter() + rng.choice([0, 0, 1e-4, 3e-4, 1e-3]) * rng.random()
        while time.perf_counter() < end:
            pass
        running.append((i, Child(child, i, [f"n{i}", f"k{rng.randrange(4)}", f"n{rng.randrange(i + 1)}"])))
        counts["forks"] += 1
        while running and (len(running) > 2 or i == n - 1):
            j, c = running.pop(0)
            wait([c], 30)
            if c.error:
                bad.append([j, c.error, c.trace])
                continue
            counts["requests"] += len(c.result["got"])
            for k, path, content in c.result["got"]:
                if not content or content[0] != k:
                    bad.append([j, f"{path} holds {content} instead of {k}", None])
        if bad:
            break
    for _, c in running:
        wait([c], 30)
    begun = [k for w, k, _ in events(log) if w == "begin" and k.startswith("n")]
    if not bad and len(begun) != len(set(begun)):
        bad.append([n, "created more than once", None])
    entries = sorted(e["path"] for e in cache.entries())
    files = sorted(os.path.join(d, x) for x in os.listdir(d) if is_entry(x))
    if not bad and entries != files:
        bad.append([n, f"entries {entries} for the files {files}", None])
    return {"bad": bad, "counts": counts}


def forked():
    rng = C.rng("forked")
    budget = C.elapsed() + pick(6, 110)
    turns = 0
    while turns < 1 or C.elapsed() < budget:
        turns += 1
        seeds = [rng.random() for _ in range(4)]
        cs = [(s, Child(busy_forks, s, 80, fresh_dir("cache"), os.path.join(fresh_dir("log"), "log"))) for s in seeds]
        wait([c for _, c in cs], 120)
        for s, c in cs:
            C.evaluate()
            if c.error:
                C.violation("forked-process", f"a process failed: {c.error}", trace=c.trace, seed=s)
                continue
            for i, error, trace in c.result["bad"][:1]:
                C.violation("forked", f"a process that was forked while the cache was busy: {error}", trace=trace, seed=s, fork=i)
            C.count("busy_forks", c.result["counts"]["forks"])
            C.count("requests_busy_forks", c.result["counts"]["requests"])
            C.nontrivial(("forked", s))


C.require(busy_forks=200, requests_busy_forks=600)
C.require(patient_requests=15)
C.require(long_creations=8, long_disturbances=15)
C.require(
    rounds_threads=2,
    rounds_processes=4,
    rounds_off=2,
    requests_threads=20,
    requests_processes=40,
    distinct_requests=60,
    looks=100,
    lines_traced=1000,
)
main(C, rounds, distinct, long_creations, patience, forked)
