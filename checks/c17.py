"""C17: the accounts of the disk cache, purge, and what is outside of it."""

import hashlib
import json
import os
import random
import sys
import threading

from cachework import Maker
from cachework import is_entry
from cachework import read
from cachework import size_of
from cachework import zone
from harness import SCRATCH
from harness import Check
from harness import fresh_dir
from harness import main
from harness import pick
from monitor import listen
from procs import Child
from procs import wait
from stress import Delays
from stress import Team

from earthkit.regrid import cache
from earthkit.regrid import config
from earthkit.regrid.utils.caching import cache_file

config.autosave = False
SIZE = "maximum-cache-size"
USAGE = "maximum-cache-disk-usage"

C = Check(
    "C17",
    "exploration",
    "Random histories of requests (files, directories and links, forced, failing, in other processes), purges, changes of the "
    "directory, the policy and the limit; after every operation the entries are compared with a model. An audit hook and a tree of "
    "files around the cache directories watch what is deleted or written outside. Teams of threads and processes check the number of "
    "accesses. Non-trivial: distinct states of the model.",
    ["files of a cache directory that are not the cache's own are only looked at when they belong to the database"],
)


class Failure(Exception):
    pass


class Containment:
    """Paths that are deleted, renamed or opened for writing while armed."""

    EVENTS = {"os.remove": 1, "os.rename": 2, "os.rmdir": 1, "shutil.rmtree": 1, "os.truncate": 1, "os.chmod": 1, "os.symlink": 2}

    def __init__(self):
        self.allowed = None
        self.roots = []  # of temporary directories, which may be deleted a little later, with the objects that hold them
        self.bad = []
        self.seen = 0
        self.lock = threading.Lock()
        listen(self.event)

    def event(self, event, args):
        if self.allowed is None:
            return
        paths = ()
        if event in self.EVENTS:
            paths = args[: self.EVENTS[event]]
            if event == "os.symlink":
                paths = args[1:2]
        elif event == "open" and isinstance(args[1], str) and set(args[1]) & set("wax+"):
            paths = args[:1]
        for p in paths:
            if not isinstance(p, str) or not os.path.isabs(p):
                continue
            with self.lock:
                self.seen += 1
                real = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
                if os.path.dirname(real) == SCRATCH and os.path.basename(real).startswith("child-"):
                    continue
                if not any(real == a or real.startswith(a + os.sep) for a in self.allowed + self.roots):
                    self.bad.append([event, p])


containment = Containment()


def digest(top):
    res = {}
    for root, dirs, files in os.walk(top):
        for n in dirs:
            res[os.path.join(root, n)] = "dir"
        for n in files:
            p = os.path.join(root, n)
            s = os.stat(p)
            with open(p, "rb") as f:
                res[p] = [hashlib.md5(f.read()).hexdigest(), s.st_mtime_ns, s.st_mode]
    return res


class Outside:
    """Files next to the cache directories that look as if they belonged to them."""

    def __init__(self, top, names):
        self.top = top
        for n in names:
            for other in (n + "-other", n + ".tmp", n + "2"):
                d = os.path.join(top, "outside", other)
                os.makedirs(os.path.join(d, "sub"))
                for f in ("a.dat", "sub/b.dat", "x.tmp", "x.lock"):
                    with open(os.path.join(d, f), "w") as g:
                        g.write(f)
            with open(os.path.join(top, n + "-file"), "w") as g:
                g.write("sibling")
        self.before = self.state()

    def state(self):
        res = digest(os.path.join(self.top, "outside"))
        for n in os.listdir(self.top):
            p = os.path.join(self.top, n)
            if os.path.isfile(p):
                with open(p) as f:
                    res[p] = f.read()
        return res


def is_database(path):
    if not os.path.isfile(path):
        return False
    with open(path, "rb") as f:
        return f.read(6) == b"SQLite"


class Row:
    def __init__(self, owner, args, size, kind, data):
        self.owner = owner
        self.args = args
        self.size = size
        self.kind = kind
        self.data = data
        self.accesses = 1


class History:
    def __init__(self, rng):
        self.rng = rng
        self.top = fresh_dir("top")
        names = ["cache", "cacheB"][: rng.randint(1, 2)]
        self.outside = Outside(self.top, names)
        self.dirs = [os.path.join(self.top, n) for n in names]
        self.tmproot = os.path.join(self.top, "tmproot")
        os.makedirs(self.tmproot)
        self.rows = {d: {} for d in self.dirs}
        self.log = os.path.join(fresh_dir("log"), "log")
        self.maker = Maker(self.log, seed=rng.random())
        self.trace = []
        self.keys = []
        for i in range(rng.randint(3, 9)):
            owner = rng.choice(["url", "Owner", "index", "o"])
            args = rng.choice(
                [
                    {"key": i},
                    [i, "x"],
                    {"key": i, "b": [1, {"c": None}], "a": "é"},
                    [f"http://x/{i}.npz"],
                    {"url": f"http://x/{i}", "version": 1.5, "flag": True},
                ]
            )
            what = rng.choice(["file", "file", "file", "directory", "link", "linkdir"])
            data = rng.choice([None, {"etag": f"x{i}"}, ["a", 1], "text", 5, {"nested": {"a": [1, 2]}}])
            self.keys.append((owner, args, what, rng.choice([0, 50, 400, 3000]), data))
        self.d = self.dirs[0]
        containment.allowed = [*self.dirs, os.path.dirname(self.log)]
        containment.roots.append(self.tmproot)
        config.set(
            {
                "cache-policy": "user",
                "user-cache-directory": self.d,
                "temporary-cache-directory-root": self.tmproot,
                SIZE: None,
                USAGE: None,
            }
        )

    def case(self, **more):
        return dict(history=self.trace[-30:], **more)

    def creator(self, i, made=None, fail=None):
        owner, args, what, size, data = self.keys[i]

        def create(path, a):
            if made is not None:
                made.append(a)
            if fail:
                if fail == "middle" and what == "directory":
                    os.makedirs(path, exist_ok=True)
                elif fail == "middle":
                    with open(path, "w") as f:
                        f.write("partial")
                raise Failure(fail)
            if what == "link":
                target = os.path.join(self.top, "outside", "cache-other", "a.dat")
                if os.path.lexists(path):
                    os.unlink(path)
                os.symlink(target, path)
            elif what == "linkdir":
                if os.path.lexists(path):
                    os.unlink(path)
                os.symlink(os.path.join(self.top, "outside", "cache-other"), path)
            else:
                self.maker(str(i), size=size, directory=what == "directory")(path, a)
            return data

        return create

    def request(self, i, elsewhere=False, force=None, fail=None):
        owner, args, what, size, data = self.keys[i]
        rows = self.rows[self.d]
        known = [p for p, r in rows.items() if r.key == i]
        made = []
        asked = []
        kw = {}
        if force == "callable":
            answer = self.rng.random() < 0.5
            force = answer

            def ask_force(a, path, owner_data):
                asked.append([a, path, owner_data])
                return answer

            kw = {"force": ask_force}
        elif force is not None:
            kw = {"force": force}

        def run():
            return cache_file(owner, self.creator(i, made, fail), args, extension=".dat", **kw)

        path = None
        error = None
        if elsewhere:
            c = Child(lambda: [run(), len(made)])
            wait([c], 30)
            if c.error:
                C.violation("process-fails", f"a request in another process fails: {c.error}", trace=c.trace, **self.case())
                return False
            path, n = c.result
        else:
            try:
                path = run()
            except Failure as e:
                error = e
            n = len(made)
        create = not known or bool(force)
        if asked:
            C.count("force_callables")
            ok = known and asked[0][1] == known[0] and asked[0][2] == data and json.dumps(asked[0][0]) == json.dumps(args)
            C.check(ok, "force-arguments", "force() was called with something else", asked=asked, **self.case())
        if n != int(create):
            C.violation("creations", f"created {n} times, expected {int(create)}", **self.case())
            return False
        if create and fail:
            C.check(error is not None, "failure-lost", "a failed creation is not reported", **self.case())
            for p in known:
                del rows[p]
            C.count("failures")
            return True
        if error is not None:
            C.violation("failure", "a request of a cached file failed", error=repr(error), **self.case())
            return False
        if create:
            row = rows[path] = Row(owner, args, size_of(path), "directory" if what in ("directory", "linkdir") else "file", data)
            row.key = i
            if what == "linkdir":
                row.size = sum(os.path.getsize(os.path.join(r, f)) for r, _, fs in os.walk(path) for f in fs)
        else:
            rows[path].accesses += 1
        C.count("requests")
        return True

    def compare(self):
        C.evaluate()
        rows = self.rows[self.d]
        got = {}
        for e in cache.entries():
            if e["path"] in got:
                C.violation("duplicate", "an entry is reported twice", entry=e, **self.case())
                return False
            got[e["path"]] = e
        if set(got) != set(rows):
            C.violation("entries", "the entries are not those that were created", got=sorted(got), want=sorted(rows), **self.case())
            return False
        ok = True
        for p, r in rows.items():
            e = got[p]
            have = [e["owner"], e["args"], e["size"], e["type"], e["accesses"], e["owner_data"]]
            want = [r.owner, r.args, r.size, r.kind, r.accesses, r.data]
            if e["owner_data"] == "null":
                have[-1] = None
            for name, a, b in zip(["owner", "args", "size", "type", "accesses", "owner_data"], have, want):
                if json.dumps(a, sort_keys=True) != json.dumps(b, sort_keys=True):
                    ok = False
                    C.violation(f"entry-{name}", f"{a!r} instead of {b!r}", entry=e, **self.case())
        total = sum(r.size for r in rows.values())
        if cache.size() != total:
            ok = C.check(False, "size", f"total {cache.size()} instead of {total}", **self.case())
        if tuple(cache.summary_dump_database()) != (len(rows), total):
            ok = C.check(False, "summary", f"{cache.summary_dump_database()} instead of {(len(rows), total)}", **self.case())
        files = {os.path.join(self.d, n) for n in os.listdir(self.d) if is_entry(n)}
        if files != set(rows):
            ok = C.check(False, "files", "the files are not those of the entries", files=sorted(files), want=sorted(rows), **self.case())
        for p, r in rows.items():
            if self.keys[r.key][2] in ("file", "directory") and self.rng.random() < 0.3:
                found = read(p)
                if not found or found[0] != str(r.key):
                    ok = C.check(False, "content", "a file was changed", path=p, found=found, **self.case())
        now = self.outside.state()
        if now != self.outside.before:
            diff = sorted(k for k in set(now) | set(self.outside.before) if now.get(k) != self.outside.before.get(k))
            ok = C.check(False, "outside", "files outside of the cache directory were changed", files=diff, **self.case())
        if containment.bad:
            ok = C.check(False, "outside-event", "something outside of the cache directory was touched", bad=containment.bad, **self.case())
            containment.bad = []
        C.nontrivial(tuple(sorted((r.key, r.size, r.accesses) for r in rows.values())))
        return ok

    def purge(self):
        rows = self.rows[self.d]
        r = self.rng
        kind = r.choice(["all", "owner", "args", "size", "none", "path", "data", "raises", "truthy", "accesses"])
        self.trace.append(["purge", kind])
        C.count("purges")
        if kind == "all":
            cache.purge()
            gone = list(rows)
        else:
            o = r.choice(self.keys)[0]
            k = r.randrange(len(self.keys))
            seen = []
            if kind == "raises":

                def matcher(e):
                    seen.append(e)
                    raise Failure("matcher")

                try:
                    cache.purge(matcher=matcher)
                    C.check(not rows, "matcher-error", "the error of a matcher is lost", **self.case())
                except Failure:
                    pass
                gone = []
            else:
                tests = {
                    "owner": (lambda e: e["owner"] == o, lambda p, x: x.owner == o),
                    "args": (lambda e: e["args"] == self.keys[k][1], lambda p, x: x.args == self.keys[k][1]),
                    "size": (lambda e: e["size"] > 300, lambda p, x: x.size > 300),
                    "none": (lambda e: False, lambda p, x: False),
                    "path": (lambda e: e["path"].endswith("0.dat"), lambda p, x: p.endswith("0.dat")),
                    "data": (lambda e: isinstance(e["owner_data"], dict), lambda p, x: isinstance(x.data, dict)),
                    "truthy": (lambda e: [1] if e["accesses"] > 1 else None, lambda p, x: x.accesses > 1),
                    "accesses": (lambda e: e["accesses"] == 1, lambda p, x: x.accesses == 1),
                }
                f, g = tests[kind]
                cache.purge(matcher=f)
                gone = [p for p, x in rows.items() if g(p, x)]
        for p in gone:
            del rows[p]
            C.check(not os.path.lexists(p), "purge-file", "the file of a purged entry is still there", path=p, **self.case())
        C.count("purged", len(gone))

    def step(self):
        r = self.rng
        x = r.random()
        i = r.randrange(len(self.keys))
        if x < 0.45:
            self.trace.append(["request", self.keys[i]])
            return self.request(i)
        if x < 0.52:
            self.trace.append(["request elsewhere", self.keys[i]])
            return self.request(i, elsewhere=True)
        if x < 0.6:
            force = r.choice([True, False, "callable", "callable"])
            self.trace.append(["request", force, self.keys[i]])
            return self.request(i, force=force)
        if x < 0.67:
            force = r.choice([None, None, True])
            self.trace.append(["failing request", force, self.keys[i]])
            return self.request(i, fail=r.choice(["before", "middle"]), force=force)
        if x < 0.78:
            self.purge()
        elif x < 0.83:
            self.d = r.choice(self.dirs)
            self.trace.append(["directory", self.d])
            config.set("user-cache-directory", self.d)
        elif x < 0.86:
            # another cache for a while
            self.trace.append(["temporary policy"])
            with config.temporary({"cache-policy": "temporary"}):
                old = self.d
                self.d = cache.directory()
                self.rows[self.d] = {}
                ok = self.compare() and self.request(i) and self.request(i) and self.compare()
                if r.random() < 0.5:
                    cache.purge()
                    self.rows[self.d] = {}
                    ok = ok and self.compare()
                self.d = old
                if not ok:
                    return False
        elif x < 0.89:
            self.trace.append(["large limit"])
            config.set(SIZE, r.choice([None, "1G"]))
        elif x < 0.92:
            self.trace.append(["evict"])
            # the evictions of C16; what remains is accounted for
            config.set(SIZE, r.choice([1, 500, 4000]))
            cache.size()
            left = {e["path"] for e in cache.entries()}
            for p in list(self.rows[self.d]):
                if p not in left:
                    del self.rows[self.d][p]
                    C.check(not os.path.lexists(p), "evicted-file", "the file of an evicted entry is still there", path=p)
            config.set(SIZE, None)
        elif x < 0.937:
            self.trace.append(["zone", zone(r)])
            C.count("zones")
        elif x < 0.97:
            # files of the database
            db = [n for n in os.listdir(self.d) if is_database(os.path.join(self.d, n))]
            if db:
                self.trace.append(["old files of the database"])
                path = os.path.join(self.d, db[0] + r.choice(["-journal", "-wal", "-shm"]))
                if not os.path.exists(path):
                    with open(path, "w"):
                        pass
                    os.utime(path, (1e9, 1e9))
                    kind = r.choice(["purge", "limit"])
                    if kind == "purge":
                        cache.purge()
                        self.rows[self.d] = {}
                    else:
                        config.set(SIZE, 1)
                        cache.size()
                        left = {e["path"] for e in cache.entries()}
                        self.rows[self.d] = {p: v for p, v in self.rows[self.d].items() if p in left}
                        config.set(SIZE, None)
                    owners = [e["path"] for e in cache.entries() if e["path"].startswith(os.path.join(self.d, db[0]))]
                    C.check(not owners, "database-files", "files of the database became entries", paths=owners, **self.case())
                    if os.path.exists(path):
                        os.unlink(path)
                    C.count("database_files")
        else:
            self.trace.append(["file deleted by someone else"])
            rows = self.rows[self.d]
            files = [p for p, x in rows.items() if self.keys[x.key][2] == "file"]
            if files:
                p = r.choice(files)
                os.unlink(p)
                k = rows[p].key
                got = {e["path"] for e in cache.entries()}
                C.check(got == set(rows) - {p}, "deleted-entry", "an entry without a file is reported", got=sorted(got), **self.case())
                total = sum(x.size for q, x in rows.items() if q != p)
                have = [cache.size(), *cache.summary_dump_database()]
                C.check(have == [total, len(rows) - 1, total], "deleted-size", f"{have} with {total} bytes left", **self.case())
                C.count("deleted_by_others")
                if r.random() < 0.5:
                    made = []
                    cache_file(self.keys[k][0], self.creator(k, made), self.keys[k][1], extension=".dat")
                    C.check(len(made) == 1 and os.path.exists(p), "deleted-again", "not created again", **self.case())
                    e = [e for e in cache.entries() if e["path"] == p]
                    rows[p].size = size_of(p)
                    rows[p].accesses = e[0]["accesses"] if e else None
                else:
                    # the accounts are right again after it is purged
                    args = self.keys[k][1]
                    cache.purge(matcher=lambda e: e["path"] == p or e["args"] == args)
                    for q in [q for q, x in rows.items() if q == p or x.args == args]:
                        del rows[q]
        return True

    def run(self, n):
        for _ in range(n):
            if not self.step() or not self.compare():
                break
        else:
            C.count("histories")
        containment.allowed = None


def histories():
    rng = C.rng("histories")
    budget = pick(14, 480)
    i = 0
    while i < 15 or C.elapsed() < budget:
        History(random.Random(rng.random())).run(rng.choice([15, 30, 60]))
        i += 1
    C.count("events_watched", containment.seen)


def many():
    """Many entries, and files larger than 32 bit numbers"""
    rng = C.rng("many")
    for k in range(pick(2, 12)):
        h = History(random.Random(rng.random()))
        n = rng.randint(230, 330)
        h.keys = [("url", {"key": i}, rng.choice(["file"] * 6 + ["directory"]), rng.randint(0, 600), {"n": i}) for i in range(n)]
        h.trace.append(["many", n])
        order = rng.sample(range(n), n)
        ok = all(h.request(i) for i in order) and h.compare()
        C.count("many_entries", len(h.rows[h.d]))
        if not ok:
            break
        # some are used again, some are purged, all of them are asked for
        ok = all(h.request(i) for i in rng.sample(range(n), 60)) and h.compare()
        chosen = set(rng.sample(range(n), 180))
        cache.purge(matcher=lambda e: e["args"]["key"] in chosen)
        for p in [p for p, r in h.rows[h.d].items() if r.key in chosen]:
            del h.rows[h.d][p]
        ok = ok and h.compare() and all(h.request(i) for i in range(n)) and h.compare()
        # a file of several gigabytes (without any content)

        def huge(p, a):
            with open(p, "wb") as f:
                f.truncate(3 << 30)

        path = cache_file("url", huge, {"key": "huge"}, extension=".dat")
        e = [e for e in cache.entries() if e["path"] == path]
        total = sum(r.size for r in h.rows[h.d].values()) + (3 << 30)
        C.check(bool(e) and e[0]["size"] == 3 << 30, "huge-size", f"{e} for a file of {3 << 30} bytes", **h.case())
        C.check(cache.size() == total, "size", f"total {cache.size()} instead of {total}", **h.case())
        cache.purge(matcher=lambda e: e["path"] == path)
        C.check(not os.path.exists(path), "purge-file", "the file of a purged entry is still there", path=path)
        ok = ok and h.compare()
        cache.purge()
        h.rows[h.d].clear()
        ok = ok and h.compare()
        containment.allowed = None
        C.count("many", int(ok))


# ------------------------------------------------------------------ teams


def team_job(d, log, seed, n):
    rng = random.Random(seed)
    config.set({"cache-policy": "user", "user-cache-directory": d, SIZE: None, USAGE: None})
    done = []

    def job(seed):
        r = random.Random(seed)
        maker = Maker(log, seed=seed, slow=0.002)
        for _ in range(10):
            key = f"k{r.randrange(6)}"
            cache_file("team", maker(key, size=500), {"key": key}, extension=".dat")
            done.append(key)
            if r.random() < 0.2:
                count, size = cache.summary_dump_database()
                if size < 0 or count > 6:
                    done.append("bad-summary")

    team = Team()
    for _ in range(n):
        team.add(job, rng.random(), delays=Delays(rng.random(), p_sleep=0.03, only="caching.py"))
    ended = team.run(40)
    return {"done": done, "errors": [t[-1500:] for _, t in team.errors], "hung": [] if ended else team.stacks()}


def at_rest(d):
    config.set({"cache-policy": "user", "user-cache-directory": d, SIZE: None, USAGE: None})
    return {
        "entries": {e["args"]["key"]: [e["accesses"], e["size"], size_of(e["path"])] for e in cache.entries()},
        "size": cache.size(),
        "files": len([n for n in os.listdir(d) if is_entry(n)]),
    }


def teams():
    rng = C.rng("teams")
    budget = C.elapsed() + pick(4, 100)
    i = 0
    while i < 6 or C.elapsed() < budget:
        i += 1
        d, log = fresh_dir("t"), os.path.join(fresh_dir("l"), "log")
        procs = rng.choice([1, 1, 3])
        kids = [Child(team_job, d, log, rng.random(), rng.randint(2, 5)) for _ in range(procs)]
        wait(kids, 60)
        want = {}
        bad = False
        for c in kids:
            C.evaluate()
            if c.error or c.result["errors"] or c.result["hung"]:
                why = c.error or (c.result["errors"] + c.result["hung"])[0].strip().split("\n")[-1]
                C.violation("team-fails", f"a process or thread fails: {why}", trace=c.trace, res=c.result)
                bad = True
                continue
            for k in c.result["done"]:
                want[k] = want.get(k, 0) + 1
        if bad:
            continue
        c = Child(at_rest, d)
        wait([c], 60)
        if c.error:
            C.violation("team-rest", f"{c.error}", trace=c.trace)
            continue
        r = c.result
        got = {k: v[0] for k, v in r["entries"].items()}
        C.check(got == want, "team-accesses", "the accesses are not the requests that were made", got=got, want=want)
        ok = all(v[1] == v[2] for v in r["entries"].values()) and r["size"] == sum(v[1] for v in r["entries"].values())
        C.check(ok and r["files"] == len(want), "team-sizes", "the sizes are not those of the files", res=r)
        C.count("teams")
        C.count("team_requests", sum(want.values()))
        C.nontrivial(("team", tuple(sorted(want.items()))))


C.require(
    histories=6, requests=100, purges=15, purged=20, failures=8, force_callables=5, events_watched=300, database_files=3, teams=4
)
C.require(deleted_by_others=3, zones=3, team_requests=50)
sys.setswitchinterval(1e-4)
C.require(many=1, many_entries=400)
main(C, histories, many, teams)
