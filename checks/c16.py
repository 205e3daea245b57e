"""C16: size limits of the disk cache."""

import os
import random
import sys
import threading
import time

from cachework import Maker
from cachework import is_entry
from cachework import read
from cachework import size_of
from cachework import zone
from harness import Check
from harness import fresh_dir
from harness import main
from harness import pick
from procs import Child
from procs import wait
from stress import Delays
from stress import Team

from earthkit.regrid import cache
from earthkit.regrid import config
from earthkit.regrid.utils.caching import cache_file

config.autosave = False
SIZE = "maximum-cache-size"
USAGE = "maximum-cache-disk-usage"

C = Check(
    "C16",
    "exploration",
    "Random histories of requests, limits and other changes of the configuration over several user directories and processes; after "
    "every operation the entries and files are compared with a model of the cache (least recently used first, no more than needed, "
    "never the newest). The disk is a model behind os.statvfs for the limit of the disk usage. Teams of threads and processes check "
    "the limit at rest. Non-trivial: distinct states of the model in which something was evicted.",
    ["files are not removed by others while there is a limit", "no other creation is in progress, except in the teams"],
)


class Entry:
    def __init__(self, key, size, created):
        self.key = key
        self.size = size
        self.created = created
        self.accessed = created

    def __repr__(self):
        return f"{self.key}:{self.size}"


class Model:
    """One cache directory"""

    def __init__(self):
        self.entries = {}
        self.clock = 0

    def tick(self):
        self.clock += 1
        return self.clock

    @property
    def total(self):
        return sum(e.size for e in self.entries.values())

    def order(self):
        """What can be evicted, in that order."""
        newest = max((e.created for e in self.entries.values()), default=None)
        return sorted((e for e in self.entries.values() if e.created != newest), key=lambda e: e.accessed)

    def trim(self, maximum):
        gone = []
        if maximum is not None:
            for e in self.order():
                if self.total <= maximum:
                    break
                gone.append(e)
                del self.entries[e.key]
        return gone


class History:
    def __init__(self, rng):
        self.rng = rng
        self.dirs = [fresh_dir("cache") for _ in range(rng.randint(1, 2))]
        self.models = {d: Model() for d in self.dirs}
        self.log = os.path.join(fresh_dir("log"), "log")
        self.maker = Maker(self.log, seed=rng.random())
        self.sizes = {}
        n = rng.randint(3, 12)
        scale = rng.choice([300, 1000, 4000])
        for i in range(n):
            self.sizes[f"k{i}"] = (rng.choice([50, 100, scale, scale, scale * 3, rng.randint(1, scale)]), rng.random() < 0.2)
        self.trace = []
        self.maximum = None
        self.real = {}
        self.d = self.dirs[0]
        config.set({"cache-policy": "user", "user-cache-directory": self.d, SIZE: None, USAGE: None})

    @property
    def model(self):
        return self.models[self.d]

    def limits(self):
        total = max(1, sum(self.real.values()))
        r = self.rng
        some = r.choice(list(self.real.values()) or [1000])
        return r.choice(
            [
                None,
                1,
                some,
                2 * some,
                total,
                total - 1,
                total // 2,
                total // 3,
                r.randint(1, total),
                max(1, self.model.total),
                max(1, self.model.total - 1),
                f"{max(1, total // 2048)}k",
            ]
        )

    @staticmethod
    def bytes_of(limit):
        return int(limit[:-1]) * 1024 if isinstance(limit, str) else limit

    def request(self, key, elsewhere=False):
        size, directory = self.sizes[key]
        m = self.model
        held = key in m.entries
        made = []

        def create(path, args):
            made.append(1)
            return self.maker(key, size=size, directory=directory)(path, args)

        def ask():
            return cache_file("limit", create, {"key": key}, extension=".dat")

        if elsewhere:

            def job():
                zone(self.rng)
                p = ask()
                cache.size()
                return [p, len(made)]

            c = Child(job)
            wait([c], 30)
            if c.error:
                C.violation("process-fails", f"a request in another process fails: {c.error}", trace=c.trace, history=self.trace)
                return False
            path, n = c.result
        else:
            path = ask()
            n = len(made)
        C.check(n == (0 if held else 1), "created-again" if held else "not-created", f"created {n} times, held: {held}", **self.case())
        found = read(path)
        C.check(found and found[0] == key, "content", "the file returned is not the one requested", **self.case())
        if held:
            m.entries[key].accessed = m.tick()
            C.count("hits")
        else:
            self.real[key] = size_of(path)
            m.entries[key] = Entry(key, self.real[key], m.tick())
            self.evicted(m.trim(self.maximum))
            C.count("creations")
        return True

    def evicted(self, gone):
        C.count("evictions", len(gone))
        if gone:
            C.nontrivial((tuple(map(repr, gone)), repr(sorted(map(repr, self.model.entries.values()))), self.maximum))

    def case(self):
        return dict(history=self.trace[-40:], maximum=self.maximum, model=[repr(e) for e in self.model.order()])

    def compare(self):
        size = cache.size()  # also waits for what is in the queue
        m = self.model
        C.evaluate()
        got = {e["args"]["key"]: e["size"] for e in cache.entries()}
        want = {e.key: e.size for e in m.entries.values()}
        ok = True
        if got != want:
            ok = False
            extra, missing = sorted(set(got) - set(want)), sorted(set(want) - set(got))
            if extra and self.maximum is not None and sum(got.values()) > self.maximum and len(got) > 1:
                kind = "over-limit"
            elif missing and self.maximum is None:
                kind = "evicted-without-limit"
            elif missing and not extra:
                kind = "evicted-too-much"
            elif missing:
                kind = "evicted-wrong-entry"
            else:
                kind = "entries"
            C.violation(kind, f"entries {got} instead of {want}", **self.case())
        elif size != m.total:
            ok = False
            C.violation("size", f"total {size} instead of {m.total}", **self.case())
        files = sorted(n for n in os.listdir(self.d) if is_entry(n))
        if len(files) != len(got):
            ok = False
            C.violation("files", f"{len(files)} files for {len(got)} entries", files=files, **self.case())
        return ok

    def set_limit(self, limit):
        self.maximum = self.bytes_of(limit)
        if self.rng.random() < 0.3:
            # a limit that has no effect is changed along with it
            both = [(SIZE, limit), (USAGE, self.rng.choice([None, 100, "100%"]))]
            self.rng.shuffle(both)
            config.set(dict(both))
            C.count("both_limits")
        else:
            config.set(SIZE, limit)
        self.evicted(self.model.trim(self.maximum))

    def step(self):
        r = self.rng
        x = r.random()
        if x < 0.55:
            key = r.choice(list(self.sizes))
            self.trace.append(["request", key])
            return self.request(key)
        if x < 0.62:
            key = r.choice(list(self.sizes))
            self.trace.append(["request in another process", key])
            return self.request(key, elsewhere=True)
        if x < 0.78:
            limit = self.limits()
            self.trace.append(["limit", limit])
            self.set_limit(limit)
        elif x < 0.84:
            limit = self.limits()
            self.trace.append(["temporary limit", limit])
            old = self.maximum
            with config.temporary({SIZE: limit}):
                self.maximum = self.bytes_of(limit)
                self.evicted(self.model.trim(self.maximum))
                if not self.compare():
                    return False
                if not self.request(r.choice(list(self.sizes))) or not self.compare():
                    return False
            self.maximum = old
            self.evicted(self.model.trim(self.maximum))
        elif x < 0.89:
            self.trace.append(["check_size"])
            cache.check_size()
        elif x < 0.93 and len(self.dirs) > 1:
            self.d = r.choice(self.dirs)
            self.trace.append(["directory", self.dirs.index(self.d)])
            config.set("user-cache-directory", self.d)
            self.evicted(self.model.trim(self.maximum))
        elif x < 0.945:
            self.trace.append(["zone", zone(r)])
            C.count("zones")
        elif x < 0.97:
            keys = r.sample(list(self.sizes), 2)
            self.trace.append(["purge", keys])
            cache.purge(matcher=lambda e: e["args"]["key"] in keys)
            for k in keys:
                self.model.entries.pop(k, None)
        else:
            self.trace.append(["other option"])
            config.set("maximum-weights-memory-cache-size", r.randint(1, 8) << 20)
        return True

    def run(self, n):
        for _ in range(n):
            if not self.step() or not self.compare():
                return
        C.count("histories")


def histories():
    rng = C.rng("histories")
    budget = pick(11, 340)
    i = 0
    while i < 15 or C.elapsed() < budget:
        History(random.Random(rng.random())).run(rng.choice([15, 30, 60]))
        i += 1


# ------------------------------------------------------------------ disk usage


class Disk:
    """A disk of the given size that holds other files and the cache directory."""

    def __init__(self, d, total, others):
        self.d = d
        self.total = total
        self.others = others
        self.calls = 0
        self.real = os.statvfs

    def used(self):
        return self.others + sum(size_of(os.path.join(self.d, n)) for n in os.listdir(self.d) if is_entry(n))

    def statvfs(self, path):
        self.calls += 1
        s = list(self.real(path))
        free = self.total - self.used()
        # f_bsize, f_frsize, f_blocks, f_bfree, f_bavail
        s[0] = s[1] = 1
        s[2] = self.total
        s[3] = s[4] = max(0, free)
        return os.statvfs_result(tuple(s))

    def __enter__(self):
        os.statvfs = self.statvfs
        return self

    def __exit__(self, *args):
        os.statvfs = self.real


def usages():
    rng = C.rng("usages")
    budget = C.elapsed() + pick(3, 100)
    i = 0
    while i < 10 or C.elapsed() < budget:
        i += 1
        usage(random.Random(rng.random()))


def usage(rng):
    d = fresh_dir("cache")
    maker = Maker(os.path.join(fresh_dir("log"), "log"), seed=rng.random())
    config.set({"cache-policy": "user", "user-cache-directory": d, SIZE: None, USAGE: None})
    total = rng.choice([100000, 200000])
    m = Model()
    limit = None
    trace = []
    with Disk(d, total, total * rng.choice([0, 20, 40]) // 100) as disk:
        for _ in range(rng.choice([10, 25])):
            before = disk.used()
            action = rng.random()
            changed = True
            if action < 0.75:
                key = f"k{rng.randrange(15)}"
                trace.append(["request", key])
                path = cache_file("usage", maker(key, size=rng.choice([500, 2000, 5000])), {"key": key}, extension=".dat")
                held = key in m.entries
                if held:
                    m.entries[key].accessed = m.tick()
                else:
                    m.entries[key] = Entry(key, size_of(path), m.tick())
                    before += m.entries[key].size
                changed = not held
            else:
                now = round(100 * disk.used() / total)
                limit = rng.choice([None, 99, 50, max(1, now - 1), max(1, now - 5), min(99, now + 1), max(1, now // 2)])
                trace.append(["limit", limit])
                both = [(USAGE, limit if limit is None or rng.random() < 0.5 else f"{limit}%"), (SIZE, rng.choice([None, "1G", 10**12]))]
                rng.shuffle(both)
                config.set(dict(both[: rng.choice([1, 2])] if both[0][0] == USAGE else both))
            size = cache.size()
            C.evaluate()
            got = {e["args"]["key"] for e in cache.entries()}
            gone = [e for e in m.entries.values() if e.key not in got]
            case = dict(trace=trace, limit=limit, total=total, gone=[repr(e) for e in gone], order=[repr(e) for e in m.order()])
            if got - set(m.entries):
                C.violation("usage-entries", "entries that were evicted", got=sorted(got), **case)
                return
            order = m.order()
            if {e.key for e in gone} != {e.key for e in order[: len(gone)]}:
                C.violation("usage-order", "not the least recently used entries were evicted", got=sorted(got), **case)
                return
            if limit is None or not changed:
                if gone:
                    C.violation("usage-evicted-without-limit", "entries were evicted without reason", **case)
                    return
            else:
                # to the precision of the limit, 1 percent
                used = disk.used()
                if used > (limit + 1) / 100 * total and len(got) > 1:
                    C.violation("usage-over-limit", f"{used} of {total} bytes used, limit {limit}%", **case)
                    return
                if gone:
                    last = order[len(gone) - 1]
                    if used + last.size < (limit - 1) / 100 * total:
                        C.violation("usage-evicted-too-much", f"{used} of {total} bytes used, limit {limit}%", **case)
                        return
                    C.count("usage_evictions", len(gone))
                    C.nontrivial(("usage", tuple(map(repr, gone)), limit))
            for e in gone:
                del m.entries[e.key]
            if size != m.total:
                C.violation("usage-size", f"total {size} instead of {m.total}", **case)
                return
        C.count("usage_histories")
        C.count("statvfs_calls", disk.calls)
        config.set(USAGE, None)


# ------------------------------------------------------------------ other files in the directory


def age(path):
    old = time.time() - 500
    os.utime(path, (old, old))


def killed(key, when):
    """The process dies in the middle of a creation, leaving a part of the file."""

    def create(path, args):
        if when == "directory":
            os.makedirs(path)
        with open(os.path.join(path, "part") if when == "directory" else path, "w") as f:
            f.write("part")
        os._exit(7)

    cache_file("rest", create, {"key": key}, extension=".dat")


def rest(rng):
    """Files that are no entries, of killed creations or put there by others, count as soon as they
    are found, and go first."""
    d = fresh_dir("cache")
    maker = Maker(os.path.join(fresh_dir("log"), "log"), seed=rng.random())
    config.set({"cache-policy": "user", "user-cache-directory": d, SIZE: None, USAGE: None})
    m = Model()
    maximum = None
    trace = []
    sizes = {f"k{i}": (rng.choice([300, 1000, 1000, 3000]), rng.random() < 0.2) for i in range(rng.randint(4, 9))}
    foreign = 0
    for _ in range(rng.choice([12, 25])):
        x = rng.random()
        checked = False
        if x < 0.5:
            key = rng.choice(list(sizes))
            trace.append(["request", key])
            size, directory = sizes[key]
            path = cache_file("rest", maker(key, size=size, directory=directory), {"key": key}, extension=".dat")
            cache.size()
            if key in m.entries:
                m.entries[key].accessed = m.tick()
            else:
                checked = True
                if not C.check(os.path.exists(path), "rest-newest", "the most recent entry was evicted", trace=trace, maximum=maximum):
                    return
                m.entries[key] = Entry(key, size_of(path), m.tick())
                C.count("rest_creations")
            found = read(path)
            C.check(found and found[0] == key, "rest-content", "the file returned is not the one requested", trace=trace)
        elif x < 0.65:
            key = rng.choice(list(sizes))
            trace.append(["killed", key])
            if key in m.entries:
                continue
            if rng.random() < 0.2:
                trace.append(["zone", zone(rng)])
            wait([Child(killed, key, rng.choice(["file", "directory"]))], 30)
            if rng.random() < 0.8:
                for n in os.listdir(d):
                    if n.endswith((".lock", ".tmp")):
                        age(os.path.join(d, n))
            C.count("rest_killed")
        elif x < 0.8:
            foreign += 1
            path = os.path.join(d, f"other{foreign}" + rng.choice([".dat", ".nc", ""]))
            trace.append(["foreign", os.path.basename(path)])
            if rng.random() < 0.3:
                os.makedirs(path)
                inside = os.path.join(path, "a")
            else:
                inside = path
            with open(inside, "w") as f:
                f.write("x" * rng.choice([100, 1000, 2500]))
            age(path)
            C.count("rest_foreign")
        else:
            total = max(1, m.total)
            maximum = rng.choice([None, 1, total, total // 2, total - 1, 1500, 3000, 6000])
            maximum = maximum if maximum is None else max(1, maximum)
            trace.append(["limit", maximum])
            config.set(SIZE, maximum)
            checked = True

        size = cache.size()
        C.evaluate()
        entries = cache.entries()
        own = {e["args"]["key"]: e for e in entries if e["owner"] == "rest"}
        others = [e for e in entries if e["owner"] != "rest"]
        case = dict(trace=trace[-30:], maximum=maximum, entries=[[os.path.basename(e["path"]), e["owner"], e["size"]] for e in entries], model=[repr(e) for e in m.order()])
        order = m.order()
        gone = [e for e in m.entries.values() if e.key not in own]
        if set(own) - set(m.entries):
            C.violation("rest-entries", "entries that were never created or were evicted", **case)
            return
        if {e.key for e in gone} != {e.key for e in order[: len(gone)]}:
            C.violation("rest-order", "not the least recently used entries were evicted", gone=[e.key for e in gone], **case)
            return
        if gone and (maximum is None or not checked):
            C.violation("rest-evicted-without-reason", "entries were evicted without reason", gone=[e.key for e in gone], **case)
            return
        work = [os.path.basename(e["path"]) for e in entries if not is_entry(os.path.basename(e["path"]))]
        if work:
            C.violation("rest-work-files", f"entries that are no cached files: {work}", **case)
            return
        if size != sum(e["size"] for e in entries) or size != sum(size_of(e["path"]) for e in entries):
            C.violation("rest-size", f"total {size}", sizes=[size_of(e["path"]) for e in entries], **case)
            return
        if checked and maximum is not None and size > maximum and (len(own) > 1 or (own and others)):
            C.violation("rest-over-limit", f"total {size} although more than the most recent entry is left", **case)
            return
        if checked and gone and others:
            C.violation("rest-others-last", "entries were evicted before the files of nobody", **case)
            return
        if gone:
            C.count("rest_evictions", len(gone))
            C.nontrivial(("rest", tuple(map(repr, gone)), maximum, foreign))
        for e in gone:
            del m.entries[e.key]
    C.count("rest_histories")


def rests():
    rng = C.rng("rests")
    budget = C.elapsed() + pick(3, 100)
    i = 0
    while i < 12 or C.elapsed() < budget:
        i += 1
        rest(random.Random(rng.random()))


def many_files():
    """The database was lost and all the files belong to nobody; then the limit counts for them"""
    rng = C.rng("many files")
    for _ in range(pick(2, 15)):
        d = fresh_dir("cache")
        maker = Maker(os.path.join(fresh_dir("log"), "log"), seed=rng.random())
        config.set({"cache-policy": "user", "user-cache-directory": d, SIZE: None, USAGE: None})
        cache.size()
        n = rng.randint(220, 300)
        for i in range(n):
            path = os.path.join(d, f"other-{i:03d}-{rng.randrange(1 << 30)}.dat")
            with open(path, "w") as f:
                f.write("x" * rng.randint(100, 2000))
            age(path)
            if rng.random() < 0.1:
                with open(path + ".lock", "w"):
                    pass
                age(path + ".lock")
        path = cache_file("rest", maker("k", size=500), {"key": "k"}, extension=".dat")
        limit = rng.choice([1, size_of(path) + 100])
        config.set(SIZE, limit)
        cache_file("rest", maker("k2", size=500), {"key": "k2"}, extension=".dat")
        for i in range(3):
            cache_file("rest", maker("k2", size=500), {"key": "k2"}, extension=".dat")
        total = cache.size()
        left = [e for e in os.listdir(d) if is_entry(e)]
        there = sum(size_of(os.path.join(d, e)) for e in left)
        C.evaluate()
        C.count("many_files", n)
        C.nontrivial(("many files", n, limit))
        case = dict(n=n, limit=limit, left=left[:10])
        C.check(total == there, "rest-size", f"total {total} for {there} bytes of files", **case)
        C.check(total <= limit or len(left) == 1, "rest-over-limit", f"total {total} although more than the most recent entry is left", **case)


# ------------------------------------------------------------------ creations that overlap


def overlap(rng):
    """Creations in threads that begin and end in different orders: at rest the one that ended last is
    there, and the total is within the limit."""
    d = fresh_dir("cache")
    maker = Maker(os.path.join(fresh_dir("log"), "log"), seed=rng.random())
    config.set({"cache-policy": "user", "user-cache-directory": d, SIZE: None, USAGE: None})
    n = rng.randint(2, 5)
    sizes = [rng.choice([300, 1000, 3000]) for _ in range(n)]
    limit = rng.choice([1, 500, 1500, sum(sizes) // 2, sum(sizes)])
    config.set(SIZE, limit)
    begun = [threading.Event() for _ in range(n)]
    go = [threading.Event() for _ in range(n)]
    done = [None] * n
    directory = [rng.random() < 0.2 for _ in range(n)]

    def job(i):
        inner = maker(f"k{i}", size=sizes[i], directory=directory[i])

        def create(path, args):
            begun[i].set()
            go[i].wait(30)
            return inner(path, args)

        try:
            done[i] = cache_file("overlap", create, {"key": f"k{i}"}, extension=".dat")
        except Exception as e:
            done[i] = e

    threads = [threading.Thread(target=job, args=(i,), daemon=True) for i in range(n)]
    left = list(range(n))
    running = []
    trace = []
    while left or running:
        if left and (not running or rng.random() < 0.6):
            i = left.pop(0)
            threads[i].start()
            begun[i].wait(30)
            running.append(i)
            trace.append(["begin", i, sizes[i]])
        else:
            i = running.pop(rng.randrange(len(running)))
            go[i].set()
            threads[i].join(30)
            trace.append(["end", i])
            case = dict(trace=trace, limit=limit)
            if isinstance(done[i], Exception) or done[i] is None:
                C.violation("overlap-fails", f"a request fails: {done[i]!r}", **case)
                return
            size = cache.size()
            C.evaluate()
            entries = cache.entries()
            files = {os.path.join(d, x) for x in os.listdir(d) if is_entry(x)}
            case["entries"] = sorted([e["args"]["key"], e["size"]] for e in entries)
            if not os.path.exists(done[i]):
                C.violation("overlap-newest", "the file whose creation ended last was evicted", **case)
                return
            found = read(done[i])
            C.check(found and found[0] == f"k{i}", "overlap-content", "the file is not the one requested", **case)
            if {e["path"] for e in entries} != files:
                C.violation("overlap-files", "the entries are not the files", files=sorted(files), **case)
                return
            if not running:
                if not C.check(size <= limit or len(entries) == 1, "overlap-over-limit", f"total {size}, limit {limit}", **case):
                    return
                C.nontrivial(("overlap", repr(trace), limit))
    C.count("overlaps")


def overlaps():
    rng = C.rng("overlaps")
    budget = C.elapsed() + pick(3, 90)
    i = 0
    while i < 12 or C.elapsed() < budget:
        i += 1
        overlap(random.Random(rng.random()))


# ------------------------------------------------------------------ teams


def team_job(d, log, seed, limit, n):
    rng = random.Random(seed)
    config.set({"cache-policy": "user", "user-cache-directory": d, SIZE: limit, USAGE: None})
    results = []

    def job(seed):
        r = random.Random(seed)
        maker = Maker(log, seed=seed, slow=0.002)
        for _ in range(8):
            key = f"k{r.randrange(10)}"
            try:
                path = cache_file("team", maker(key, size=r.choice([500, 2000])), {"key": key}, extension=".dat")
                found = read(path)
            except FileNotFoundError:
                # The limit is smaller than what is in use: the file was evicted for another
                # request before this one was done with it.
                results.append(None)
                continue
            if not found or found[0] != key:
                results.append([key, found])

    team = Team()
    for _ in range(n):
        team.add(job, rng.random(), delays=Delays(rng.random(), p_sleep=0.03, only="caching.py"))
    ended = team.run(40)
    cache.size()
    return {"bad": [x for x in results if x], "lost": results.count(None), "errors": [t[-1500:] for _, t in team.errors], "hung": [] if ended else team.stacks()}


def at_rest(d, log, limit):
    """After one more entry, so that nothing is being created when the size is checked."""
    config.set({"cache-policy": "user", "user-cache-directory": d, SIZE: limit, USAGE: None})
    last = cache_file("team", Maker(log)("last", size=500), {"key": "last"}, extension=".dat")
    entries = cache.entries()
    files = {os.path.join(d, n) for n in os.listdir(d) if is_entry(n)}
    return {
        "size": cache.size(),
        "files": sum(size_of(p) for p in files),
        "same": {e["path"] for e in entries} == files,
        "newest": size_of(last) if os.path.exists(last) else None,
    }


def teams():
    rng = C.rng("teams")
    budget = C.elapsed() + pick(4, 90)
    i = 0
    while i < 6 or C.elapsed() < budget:
        i += 1
        d, log = fresh_dir("t"), os.path.join(fresh_dir("l"), "log")
        limit = rng.choice([3000, 6000, 12000])
        procs = 1 if i % 2 else 3
        kids = [Child(team_job, d, log, rng.random(), limit, rng.randint(2, 5)) for _ in range(procs)]
        wait(kids, 60)
        bad = False
        for c in kids:
            C.evaluate()
            if c.error:
                C.violation("team-process", f"a process {'hangs' if c.hung else 'fails'}: {c.error}", trace=c.trace)
                bad = True
                continue
            C.count("team_lost", c.result["lost"])
            C.check(not c.result["bad"], "team-content", "a request got something else", res=c.result)
            C.check(not c.result["hung"], "team-hangs", "a request does not end", res=c.result)
            for t in c.result["errors"]:
                C.violation("team-fails", t.strip().split("\n")[-1], trace=t)
        if bad:
            continue
        c = Child(at_rest, d, log, limit)
        wait([c], 60)
        if c.error:
            C.violation("team-rest", f"{c.error}", trace=c.trace)
            continue
        r = c.result
        C.check(r["newest"] is not None, "team-newest", "the newest entry was evicted", res=r)
        C.check(r["size"] <= max(limit, r["newest"] or 0), "team-over-limit", f"{r['size']} bytes at rest, limit {limit}", res=r)
        r["lost"] = [c.result["lost"] for c in kids]
        key = "team-files" if procs == 1 else "processes-evict-and-recreate"
        C.check(r["same"] and r["size"] == r["files"], key, "the entries are not the files", res=r)
        C.count("teams")
        C.nontrivial(("team", r["size"], limit))


C.require(histories=8, evictions=30, zones=10, hits=30, creations=50, usage_evictions=5, usage_histories=5, statvfs_calls=20, teams=4)
C.require(rest_histories=6, rest_killed=8, rest_foreign=10, rest_evictions=10, overlaps=8)
sys.setswitchinterval(1e-4)
C.require(many_files=200)
main(C, histories, usages, rests, many_files, overlaps, teams)
