"""C22: a remote inventory is used up to date and downloaded only once."""

import gzip
import hashlib
import json
import os
import random
import signal
import sys
import threading

import multiurl.retry
import numpy as np
from harness import SCRATCH
from harness import Check
from harness import fresh_dir
from harness import main
from harness import outcome
from harness import pick
from inventory import METHODS
from inventory import Inventory
from inventory import apply
from inventory import healpix
from inventory import ll
from inventory import octahedral
from inventory import same
from inventory import short
from inventory import size_of
from inventory import spelled
from procs import Child
from procs import call
from procs import wait
from server import Server
from stress import preempted

from earthkit.regrid import cache
from earthkit.regrid import config
from earthkit.regrid import interpolate
from earthkit.regrid.array import regrid

config.autosave = False
multiurl.retry._logged_sleep = lambda *args, **kwargs: None

C = Check(
    "C22",
    "exploration",
    "Random histories of sessions (processes) of regrids from two inventories of a local HTTP server, publications of new, changed "
    "and unchanged indexes, outages, purges and changes of the cache directory; after every operation the result and the GET "
    "requests the server received are compared with a model of what has to be asked for. Crowds of processes and threads ask "
    "for the same files at once, with nothing cached and with an old index cached. Non-trivial: distinct (state of the caches, "
    "operation, requests) of the model.",
    ["a process asks for a newer index once per inventory", "HEAD requests are not judged"],
)

GRIDS = [ll(10), ll(5), octahedral(8), octahedral(16), healpix(2, "ring"), healpix(2, "nested"), healpix(4, "nested")]
INDEX, SHA, GZ = "index.json", "index.json.sha256", "index.json.gz"


def sha256(text):
    return hashlib.sha256(text.encode()).hexdigest()


def gets(server):
    return sorted(path for method, path, _, _ in server.take() if method == "GET")


def text_of(entries, rng=None):
    d = {"version": 1, "matrix": {e.name: e.raw() for e in entries}}
    if rng is None:
        return json.dumps(d)
    return json.dumps(d, indent=rng.choice([None, 1, 2, 4]), separators=rng.choice([None, (",", ":"), (", ", ": "), (" , ", " : ")]))


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


class Remote:
    """An inventory of the server: entries, some of which are published"""

    def __init__(self, root, name, seed, triples):
        self.name = name
        self.path = os.path.join(root, name)
        self.inv = Inventory(self.path, seed)
        for gin, gout, method in triples:
            self.inv.write_matrix(self.inv.add(gin, gout, method))
        self.entries = self.inv.entries

    def files(self, text, sha):
        return [
            [os.path.join(self.path, GZ), gzip.compress(text.encode()).hex()],
            [os.path.join(self.path, SHA), (sha + "\n").encode().hex()],
        ]

    def publish(self, text, sha=None):
        for path, data in self.files(text, sha or sha256(text)):
            write(path, bytes.fromhex(data))


def triples(r, n, known=()):
    res = list(known)
    while len(res) < n:
        t = (r.choice(GRIDS), r.choice(GRIDS), r.choice(METHODS))
        if t[0] != t[1] and t not in res:
            res.append(t)
    return res


# ---- what runs in the processes


def ask(e, url, api="regrid", method=None, seed=0):
    """Runs a regrid. Returns whether it is right, or the exception"""
    v = np.random.default_rng(seed).random(size_of(e.gin)) + 1
    method = method or e.method
    if api == "regrid":
        res, x = outcome(regrid, v, short(e.gin), short(e.gout), interpolation=method, backend="precomputed", inventory=url)
        res = res and res[0]
    else:
        res, x = outcome(interpolate, v, short(e.gin), short(e.gout), matrix_source=url, method=method)
    if x is not None:
        return f"{type(x).__name__}: {x}"[:300]
    return same(res, *apply(e.w, v))


def setup(settings):
    config.set(settings)
    config.set("url-download-timeout", "10s")


def session(server, remotes, settings, ops):
    setup(settings)
    res = []
    for i, op in enumerate(ops):
        x = None
        kind = op[0]
        if kind == "regrid":
            _, k, j, url, api, method = op
            x = ask(remotes[k].entries[j], server.url + url, api, method, i)
        elif kind == "publish":
            for path, data in op[2]:
                write(path, bytes.fromhex(data))
        elif kind == "purge":
            cache.purge()
        elif kind == "directory":
            config.set("user-cache-directory", op[1])
        elif kind == "down":
            server.options(down=op[1])
        res.append([x, gets(server)])
    return res


# ---- the model


class Model:
    def __init__(self, remotes, published):
        self.remotes = remotes
        self.server = published  # [names, text, sha]
        self.down = False
        self.disks = {}

    def session(self, policy, memory, directory, n):
        self.policy = policy
        self.memory = set() if memory else None
        self.index = {}
        self.checked = set()
        self.directory = directory if policy == "user" else (policy, n)

    @property
    def disk(self):
        if self.policy == "off":
            return {}
        return self.disks.setdefault(self.directory, {})

    class Failed(Exception):
        pass

    def get(self, k, name):
        if self.down:
            raise Model.Failed()
        self.requests.append(f"/{self.remotes[k].name}/{name}")

    def download_index(self, k):
        self.get(k, GZ)
        names, text, _ = self.server[k]
        self.disk[(k, INDEX)] = (names, sha256(text))
        return names

    def regrid(self, k, j):
        """Returns (expected outcome: True, "missing" or "failed", expected requests)"""
        self.requests = []
        try:
            return self._regrid(k, j), self.requests
        except Model.Failed:
            return "failed", self.requests

    def _regrid(self, k, j):
        e = self.remotes[k].entries[j]
        disk = self.disk
        if self.memory is not None and (k, j) in self.memory:
            return True
        if k not in self.index:
            if (k, INDEX) in disk:
                self.index[k] = disk[(k, INDEX)][0]
            else:
                self.index[k] = self.download_index(k)
        if e.name not in self.index[k] and k not in self.checked:
            if (k, INDEX) in disk:
                self.get(k, SHA)
                names, sha = disk[(k, INDEX)]
                if sha != self.server[k][2]:
                    names = self.download_index(k)
            else:
                names = self.download_index(k)
            self.index[k] = names
            self.checked.add(k)
        if e.name not in self.index[k]:
            return "missing"
        if (k, e.path) not in disk:
            self.get(k, e.path)
            disk[(k, e.path)] = True
        if self.memory is not None:
            self.memory.add((k, j))
        return True


def history(label, server):
    r = C.rng("history", label)
    root = server.root
    top = f"h{label}"
    common = triples(r, 4)
    remotes = [
        Remote(root, f"{top}/a", r.randrange(1 << 30), triples(r, 7, common)),
        Remote(root, f"{top}/b/c.d", r.randrange(1 << 30), triples(r, 6, common[:3])),
    ]
    published = []
    for x in remotes:
        es = r.sample(x.entries, r.randint(0, 4))
        text = text_of(es, r)
        x.publish(text)
        published.append(([e.name for e in es], text, sha256(text)))
    m = Model(remotes, published)
    home = fresh_dir("dirs")
    trace = []
    for n in range(r.randint(3, 6)):
        policy = r.choice(["user"] * 6 + ["off", "temporary"])
        memory = r.random() < 0.5
        directory = os.path.join(home, r.choice("xxxy"))
        slash = [r.choice(["", "/"]) for _ in remotes]
        settings = {
            "cache-policy": policy,
            "user-cache-directory": directory,
            "weights-memory-cache-policy": r.choice(["unlimited", "largest", "lru"]) if memory else "off",
        }
        m.session(policy, memory, directory, n)
        ops, expected = [], []
        if m.down and r.random() < 0.7:
            m.down = False
            ops.append(["down", False])
            expected.append(["down", False, None, []])
        for _ in range(r.randint(6, 16)):
            kind = r.choice(["regrid"] * 12 + ["publish"] * 4 + ["purge", "directory", "down"])
            k = r.randrange(2)
            x = remotes[k]
            exp = [None, []]
            if kind == "directory" and policy != "user":
                kind = "regrid"
            if kind == "regrid":
                j = r.randrange(len(x.entries))
                e = x.entries[j]
                op = ["regrid", k, j, x.name + slash[k], r.choice(["regrid", "regrid", "interpolate"]), e.method if memory else spelled(e.method, r)]
                state = (
                    policy,
                    memory,
                    m.down,
                    (k, INDEX) in m.disk,
                    m.disk.get((k, INDEX), [0, 0])[1] == m.server[k][2],
                    (k, e.path) in m.disk,
                    k in m.index,
                    e.name in m.index.get(k, ()),
                    k in m.checked,
                    e.name in m.server[k][0],
                )
                exp = m.regrid(k, j)
                what = [p.split("/")[-1] if "index" in p else "weights" for p in exp[1]]
                C.nontrivial(repr((state, exp[0], what)))
                C.count("regrids")
                C.count(f"expected_{exp[0]}")
                for w in what:
                    C.count("requests_" + {SHA: "checksum", GZ: "index"}.get(w, w))
                if not what and exp[0] is True:
                    C.count("served_from_caches")
            elif kind == "publish":
                names, text, sha = m.server[k]
                how = r.choice(["new", "new", "new", "add", "add", "same", "format", "stale", "wrong"])
                known = [e for e in x.entries if e.name in names]
                if how == "new":
                    es = r.sample(x.entries, r.randint(0, len(x.entries)))
                    text = text_of(es, r)
                    sha = sha256(text)
                elif how == "add":
                    es = [e for e in x.entries if e.name in names or r.random() < 0.5]
                    text = text_of(es, r)
                    sha = sha256(text)
                elif how == "stale":
                    es = x.entries
                    text = text_of(es)
                else:
                    es = known
                    if how == "format":
                        text = text_of(es, r)
                        sha = sha256(text)
                    elif how == "wrong":
                        sha = sha256(str(r.random()))
                names = [e.name for e in es]
                m.server[k] = (names, text, sha)
                op = ["publish", how, x.files(text, sha)]
                C.count("publications")
            elif kind == "purge":
                if policy != "off":
                    m.disk.clear()
                op = ["purge"]
                C.count("purges")
            elif kind == "directory":
                directory = os.path.join(home, r.choice("xy"))
                m.directory = directory
                op = ["directory", directory]
            else:
                m.down = not m.down if r.random() < 0.6 else False
                op = ["down", m.down]
            ops.append(op)
            expected.append([kind, m.down, *exp])
        c = call(session, server, remotes, settings, ops, timeout=120)
        C.count("sessions")
        trace.append([settings, [o[:2] if o[0] == "publish" else o for o in ops]])
        if not C.check(c.result is not None, "session", f"a session failed: {c.error}", trace=c.trace, history=trace):
            break
        for i, (op, (kind, down, exp, requests), (got, seen)) in enumerate(zip(ops, expected, c.result)):
            case = dict(
                op=op[:2] if kind == "publish" else op, step=i, expected=exp, expected_requests=requests, outcome=got, requests=seen, down=down,
                server=server.url, history=trace,
            )
            C.evaluate()
            if kind != "regrid":
                C.check(not seen, "uncalled-for", "requests without a regrid", **case)
                continue
            if exp is True:
                ok = C.check(got is not False, "wrong-result", "the result is not that of the inventory", **case)
                ok = ok and C.check(got is True, "not-found", "published or cached weights were not used", **case)
            else:
                ok = C.check(isinstance(got, str), "unexpected", "a result of weights that should not be known", **case)
            if ok and not down:
                requests = sorted("/" + p.lstrip("/") for p in requests)
                extra = [p for p in seen if seen.count(p) > requests.count(p)]
                lacking = [p for p in requests if seen.count(p) < requests.count(p)]
                ok = C.check(not extra, "downloaded-again", "unnecessary requests", extra=extra, **case)
                ok = ok and C.check(not lacking, "not-asked", "requests are missing", lacking=lacking, **case)
            elif ok and exp is True:
                ok = C.check(not seen, "downloaded-again", "requests for what is cached", **case)
            C.sample({k: case[k] for k in ("op", "expected", "requests")})
            if not ok:
                break
        if C.violated:
            break
    server.options(down=False)
    server.take()
    C.count("histories")


def histories():
    server = Server(fresh_dir("root"))
    n = 0
    while n < pick(40, 600) and C.elapsed() < pick(11, 220) and not C.violated:
        history(n, server)
        n += 1
    server.stop()


# ---- crowds


def member(remote, url, settings, jobs, gate, threads):
    setup(settings)
    start = threading.Barrier(threads)
    res = [[] for _ in range(threads)]

    def work(i):
        start.wait()
        for j in jobs[i]:
            res[i].append([j, ask(remote.entries[j], url, seed=j)])

    while not os.path.exists(gate):
        pass
    ts = [threading.Thread(target=work, args=(i,)) for i in range(threads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return [x for y in res for x in y]


def warm(remote, url, settings, j):
    setup(settings)
    return ask(remote.entries[j], url)


def crowd(server, label, update):
    r = C.rng("crowd", label, update)
    remote = Remote(server.root, f"c{label}-{update:d}", r.randrange(1 << 30), triples(r, 6))
    n = len(remote.entries)
    url = server.url + remote.name
    settings = {
        "cache-policy": "user",
        "user-cache-directory": os.path.join(SCRATCH, f"crowd-{label}-{update:d}"),
        "weights-memory-cache-policy": r.choice(["off", "unlimited"]),
    }
    old = []
    if update:
        old = remote.entries[: r.randint(1, 3)]
        remote.publish(text_of(old))
        c = call(warm, remote, url, settings, 0)
        C.check(c.result is True, "warm", f"the first regrid failed: {c.result} {c.error}")
    remote.publish(text_of(remote.entries))
    server.take()
    processes, threads = r.choice([(1, 6), (2, 3), (4, 2), (6, 1), (8, 1)])
    gate = os.path.join(SCRATCH, f"gate-{label}-{update:d}")
    children = []
    for _ in range(processes):
        jobs = [r.sample(range(n), n) if r.random() < 0.5 else list(range(n - 1, -1, -1)) for _ in range(threads)]
        children.append(Child(member, remote, url, settings, jobs, gate, threads))
    with open(gate, "w"):
        pass
    wait(children, 90)
    seen = gets(server)
    case = dict(processes=processes, threads=threads, settings=settings, old=len(old), requests=seen)
    for c in children:
        if not C.check(c.result is not None, "crowd-failed", f"a process failed: {c.error}", trace=c.trace, **case):
            continue
        for j, got in c.result:
            C.evaluate()
            C.check(got is True, "crowd-wrong" if got is False else "crowd-failed", f"a concurrent regrid gave {got}", entry=j, **case)
    base = f"/{remote.name}/"
    cached = {remote.entries[0].path} if update else set()
    for e in remote.entries:
        k = seen.count(base + e.path)
        want = 0 if e.path in cached else 1
        C.check(k <= want, "crowd-downloads", f"weights downloaded {k} times", path=e.path, **case)
    k = seen.count(base + GZ)
    if update:
        C.count("updates_by_crowds")
        C.check(k >= 1, "crowd-index", "the new index was not downloaded", **case)
    else:
        C.count("cold_crowds")
        C.check(k == 1, "crowd-index", f"index downloaded {k} times", **case)
    C.nontrivial(("crowd", update, processes, threads, settings["weights-memory-cache-policy"]))
    C.count("crowds")


def crowds():
    server = Server(fresh_dir("root"))
    n = 0
    while n < pick(16, 200) and C.elapsed() < pick(16, 380) and not C.violated:
        crowd(server, n, n % 2 == 1)
        n += 1
    server.stop()


# ---- one regrid in the middle of another


FILES = ("backends/db.py", "utils/download.py", "utils/caching.py")


def pairs(server, remote, label, memory, cold, budget):
    """Regrids of two threads, the second when the first is at its k-th line"""
    setup({"cache-policy": "user", "weights-memory-cache-policy": memory})
    r = C.rng("pairs", label)
    old, new = text_of(remote.entries[:1]), text_of(remote.entries)
    seconds = [lambda url: ask(remote.entries[2], url), lambda url: ask(remote.entries[1], url), lambda url: ask(remote.entries[0], url)]
    res = []

    def run(k, second):
        # the first one in a directory of its own
        config.set("user-cache-directory", os.path.join(SCRATCH, f"pairs-{label}", f"{k}-{len(res)}"))
        name = f"{remote.name}-{k}-{len(res)}"
        os.symlink(remote.path, os.path.join(server.root, name))
        url = server.url + name
        if not cold:
            remote.publish(old)
            ask(remote.entries[0], url)
        remote.publish(new)
        server.take()
        a = preempted(lambda: ask(remote.entries[1], url), lambda: second(url), k, FILES, patience=0.3)
        return [*a, [p.split("/", 2)[2] for p in gets(server)]]

    total = run(-1, seconds[0])[0]
    points = list(range(1, total + 1))
    if len(points) > budget:
        points = sorted(r.sample(points, budget))
    for k in points:
        res.append(run(k, seconds[r.choice([0, 0, 1, 2])]))
    return res


def preemptions():
    server = Server(fresh_dir("root"))
    n = -1
    while n + 1 < pick(4, 40) and C.elapsed() < pick(23, 560) and not C.violated:
        n += 1
        r = C.rng("preemptions", n)
        remote = Remote(server.root, f"p{n}", r.randrange(1 << 30), triples(r, 3))
        memory = ["off", "unlimited"][n % 2]
        cold = n % 4 >= 2
        c = call(pairs, server, remote, n, memory, cold, pick(14, 120), timeout=200)
        case = dict(memory=memory, cold=cold)
        if not C.check(c.result is not None, "preemption", f"the process failed: {c.error}", trace=c.trace, **case):
            break
        for _, where, one, two, stuck, requests in c.result:
            if two is None and not stuck:
                continue
            C.evaluate()
            C.count("preemptions")
            C.nontrivial(("preempted", memory, cold, where))
            C.check(not stuck, "deadlock", "two regrids do not end", where=where, **case)
            for x in (one, two):
                if x is not None:
                    C.check(x[0] is True, "preempted-wrong" if x[0] is False else "preempted-failed", f"a regrid gave {x}", where=where, **case)
            twice = [p for p in set(requests) if requests.count(p) > 1 and (cold or "index" not in p)]
            C.check(not twice, "preempted-downloads", "files are downloaded twice", twice=twice, where=where, **case)
    server.stop()


# ---- processes that are killed


class Places:
    """Line tracer of all threads: notes the places in order with what is on the disk, the process is
    killed at one of them"""

    def __init__(self, directory, kill=None):
        self.directory = directory
        self.kill = kill
        self.seen = {}
        self.times = {}

    def disk(self):
        state = hashlib.md5()
        for root, _, files in sorted(os.walk(self.directory)):
            for f in sorted(files):
                state.update(f.encode())
                try:
                    with open(os.path.join(root, f), "rb") as g:
                        state.update(g.read())
                except OSError:
                    pass
        return state.hexdigest()

    def __call__(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.endswith(FILES) else None

    def line(self, frame, event, arg):
        if event == "line":
            where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
            n = self.times[where] = self.times.get(where, 0) + 1
            if self.kill is None:
                self.seen[f"{where} #{n}"] = self.disk()
            elif f"{where} #{n}" == self.kill:
                os.kill(os.getpid(), signal.SIGKILL)
        return self.line


def victim(e, url, settings, place):
    p = Places(settings["user-cache-directory"], place)
    threading.settrace(p)
    setup(settings)
    sys.settrace(p)
    try:
        res = ask(e, url)
    finally:
        sys.settrace(None)
        p.kill = "nowhere"
    return [res, dict(p.seen)]


def survivor(remote, url, settings, order):
    setup(settings)
    return [[j, ask(remote.entries[j], url)] for j in order]


def batch(children):
    wait(children, 90)
    return children


def kills():
    server = Server(fresh_dir("root"))
    n = 0
    while n < pick(2, 16) and C.elapsed() < pick(34, 700) and not C.violated:
        update = n % 2 == 1
        r = C.rng("kills", n)
        remote = Remote(server.root, f"k{n}", r.randrange(1 << 30), triples(r, 4))
        texts = [text_of(remote.entries[:i]) for i in (1, 2, 4)]
        home = fresh_dir("kills")

        def one(k, n=n, remote=remote, home=home):
            name = f"{remote.name}-{k}"
            os.symlink(remote.path, os.path.join(server.root, name))
            return server.url + name, {
                "cache-policy": "user",
                "user-cache-directory": os.path.join(home, str(k)),
                "weights-memory-cache-policy": "off",
            }

        def run(todo, update=update, remote=remote):
            """The same history for each of the places at which a process is killed"""
            if update:
                remote.publish(texts[0])
                for c in batch([Child(warm, remote, url, s, 0) for url, s, _ in todo]):
                    C.check(c.result is True, "warm", f"the first regrid failed: {c.result} {c.error}")
            remote.publish(texts[1])
            return batch([Child(victim, remote.entries[1], url, s, p) for url, s, p in todo])

        first = run([(*one("first"), None)])[0]
        if not C.check(first.result is not None and first.result[0] is True, "warm", f"the regrid failed: {first.result} {first.error}"):
            break
        places = first.result[1]
        # at least once in each of the states of the disk
        states = list(dict.fromkeys(places.values()))
        C.count("states_to_be_killed", len(states))
        some = [r.choice([p for p in places if places[p] == s]) for s in states]
        left = [p for p in places if p not in some]
        places = some + r.sample(left, min(len(left), pick(10, 300)))
        while places and not C.violated:
            now, places = places[:8], places[8:]
            todo = [(*one(len(places) * 10 + i), p) for i, p in enumerate(now)]
            for c, p in zip(run(todo), now):
                C.count("killed" if c.status == -9 else "not_killed")
            remote.publish(texts[2])
            server.take()
            order = r.choice([[3, 1, 0], [1, 0, 2], [0, 2, 3], [2]])
            after = batch([Child(survivor, remote, url, s, order) for url, s, _ in todo])
            seen = gets(server)
            for (url, s, p), c in zip(todo, after):
                case = dict(killed_at=p, update=update, order=order)
                C.evaluate()
                C.nontrivial(("killed", update, p, tuple(order)))
                if not C.check(c.result is not None, "killed-failed", f"the process failed: {c.error}", trace=c.trace, **case):
                    continue
                for j, got in c.result:
                    C.check(got is True, "killed-wrong" if got is False else "killed-failed", f"a regrid gave {got}", entry=j, **case)
                base = url[len(server.url) - 1 :]
                mine = [x for x in seen if x.startswith(base + "/")]
                twice = [x for x in set(mine) if mine.count(x) > 1]
                C.check(not twice, "killed-downloads", "files are downloaded twice", twice=twice, requests=mine, **case)
        n += 1
    server.stop()


# ---- sizes used in practice


def large():
    """An index of hundreds of entries, and weights of several megabytes"""
    server = Server(fresh_dir("root"))
    r = C.rng("large")
    pool = [octahedral(n) for n in range(8, 20)] + [ll(10), healpix(2, "ring"), healpix(2, "nested"), healpix(4, "nested")]
    for n in range(pick(2, 8)):
        big = [(octahedral(160), ll(0.75), "linear"), (ll(1), octahedral(160), "linear"), (healpix(64, "nested"), ll(1), "nearest-neighbour")]
        few = [(ll(10), ll(5), "linear"), (octahedral(8), ll(5), "linear")]
        x = Remote(server.root, f"large{n}", r.randrange(1 << 30), big + few)
        others = Inventory(os.path.join(server.root, f"others{n}"), 1)
        pairs = [(a, b, m) for a in pool for b in pool for m in METHODS if a is not b]
        for a, b, m in r.sample(pairs, 400):
            others.add(a, b, m)
        rest = [e for e in others.entries]
        asked = list(x.entries)
        first = [*rest[:200], *asked[1:2], *rest[200:], *asked[3:4]]
        text = text_of(first)
        x.publish(text)
        everything = [*asked[:1], *rest[:150], *asked[2:3], *rest[150:], *asked[1:2], *asked[3:]]
        r.shuffle(everything)
        new = text_of(everything, r)
        m = Model([x], [([e.name for e in first], text, sha256(text))])
        sizes = [os.path.getsize(os.path.join(x.path, e.path)) for e in asked]
        home = fresh_dir("large")
        for i in range(2):
            settings = {"cache-policy": "user", "user-cache-directory": home, "weights-memory-cache-policy": r.choice(["largest", "off"])}
            m.session("user", settings["weights-memory-cache-policy"] != "off", home, i)
            ops, expected = [], []

            def use(j):
                e = x.entries[j]
                ops.append(["regrid", 0, j, x.name, "regrid", e.method])
                expected.append(m.regrid(0, j))

            if i == 0:
                use(1)
                use(3)
                ops.append(["publish", "new", x.files(new, sha256(new))])
                expected.append((None, []))
                m.server[0] = ([e.name for e in everything], new, sha256(new))
            for j in r.sample(range(len(asked)), len(asked)):
                use(j)
            c = call(session, server, [x], settings, ops, timeout=120)
            if not C.check(c.result is not None, "session", f"a session failed: {c.error}", trace=c.trace):
                break
            for op, (exp, requests), (got, seen) in zip(ops, expected, c.result):
                C.evaluate()
                case = dict(op=op[:2] if op[0] == "publish" else op, expected=exp, requests=seen, sizes=sizes, index=len(new))
                C.check(got is exp, "wrong-result" if got is False else "not-found", f"{got!r} instead of {exp!r}", **case)
                want = sorted("/" + p.lstrip("/") for p in requests)
                C.check(sorted(seen) == want, "downloaded-again" if len(seen) > len(want) else "not-asked", f"not {want}", **case)
                C.count("large_regrids")
                C.nontrivial(("large", n, i, op[2] if op[0] == "regrid" else op[1]))
        C.count("large_bytes", max(sizes))
        C.count("large_index_bytes", len(new))
    server.stop()


# ---- configuration of the updates of cached files


def dated(server, remote, new, settings, check, download):
    url = server.url + remote.name
    setup({**settings, "check-out-of-date-urls": check, "download-out-of-date-urls": download})
    e = remote.entries[0]
    first = ask(e, url)
    server.take()
    with open(os.path.join(remote.path, e.path), "rb") as f:
        before = f.read()
    Inventory.write_matrix(remote.inv, new)
    try:
        res = [ask(new if check and download else e, url, seed=i) for i in range(2)]
    finally:
        write(os.path.join(remote.path, e.path), before)
    return [first, res, server.take()]


def out_of_date():
    server = Server(fresh_dir("root"))
    r = C.rng("dated")
    for n in range(pick(6, 24)):
        remote = Remote(server.root, f"d{n}", r.randrange(1 << 30), triples(r, 2))
        remote.publish(text_of(remote.entries))
        e = remote.entries[0]
        other = Inventory(remote.path, r.randrange(1 << 30))
        new = other.add(e.gin, e.gout, e.method, name=e.name)
        check, download = [(False, False), (False, True), (True, False), (True, True)][n % 4]
        settings = {"cache-policy": "user", "user-cache-directory": os.path.join(SCRATCH, f"dated-{n}"), "weights-memory-cache-policy": "off"}
        c = call(dated, server, remote, new, settings, check, download)
        case = dict(check=check, download=download, result=c.result, error=c.error)
        if not C.check(c.result is not None and c.result[0] is True, "dated-failed", "a regrid failed", **case):
            continue
        _, res, log = c.result
        seen = [x for x in log if x[0] == "GET"]
        C.check(
            res == [True, True], "dated-weights", "not the weights that the configuration asks for when the remote file was replaced", **case
        )
        want = 1 if check and download else 0
        C.check(len(seen) == want, "dated-requests", f"{len(seen)} downloads instead of {want}", log=log, **case)
        C.evaluate(2)
        C.count("replaced_files")
        C.nontrivial(("dated", check, download))
    server.stop()


C.require(
    histories=8,
    sessions=30,
    regrids=200,
    publications=60,
    requests_checksum=20,
    requests_index=40,
    requests_weights=60,
    expected_missing=15,
    expected_failed=3,
    served_from_caches=20,
    cold_crowds=2,
    updates_by_crowds=2,
    replaced_files=4,
    preemptions=5,
    killed=50,
)
random.seed(0)
C.require(large_regrids=15, large_bytes=4000000, large_index_bytes=200000)
main(C, out_of_date, large, histories, crowds, preemptions, kills)
