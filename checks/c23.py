"""C23: faults of downloads."""

import gzip
import json
import os
import resource
import signal
import threading
import time

import multiurl.retry
import numpy as np
from harness import SCRATCH
from harness import Check
from harness import fresh_dir
from harness import main
from harness import outcome
from harness import pick
from inventory import METHODS
from inventory import Inventory
from inventory import apply
from inventory import healpix
from inventory import ll
from inventory import octahedral
from inventory import same
from inventory import short
from inventory import size_of
from procs import Child
from procs import call
from procs import wait
from scipy.sparse import load_npz
from server import Server

from earthkit.regrid import cache
from earthkit.regrid import config
from earthkit.regrid import interpolate
from earthkit.regrid.array import regrid

config.autosave = False
multiurl.retry._logged_sleep = lambda *args, **kwargs: None

C = Check(
    "C23",
    "exploration",
    "Histories of sessions (processes) of regrids from an inventory of a local HTTP server that injects faults of the connection, "
    "the protocol and the content in the files of the inventory (the disk is also made to be full); each call has to be right or "
    "to fail, the cached files have to be whole, and the same call has to be right when the faults are over. Crowds of processes and threads "
    "share the faults. Non-trivial: distinct (faults, options of the server, state) with a fault that was hit.",
    ["damage that the formats cannot reveal (other valid weights) is not injected", "pauses between retries are skipped"],
)

GRIDS = [ll(10), ll(5), octahedral(8), octahedral(16), healpix(2, "ring"), healpix(2, "nested"), healpix(4, "nested")]
SHA, GZ = "index.json.sha256", "index.json.gz"
KINDS = ["status", "close", "truncate", "short", "cut", "empty", "html", "garbage", "content"]
SETTINGS = {"url-download-timeout": "1s"}

OTHER = {
    "text": b"<html>sorry</html>",
    "list": b"[]",
    "object": b"{}",
    "version": b'{"version": 2, "matrix": {}}',
    "no version": b'{"matrix": {}}',
    "no matrix": b'{"version": 1}',
    "half": b'{"version": 1, "matrix": {"a": {"inp',
    "null": b"null",
    "empty": b"",
}


class Remote:
    def __init__(self, root, name, r, n):
        self.name = name
        self.path = os.path.join(root, name)
        self.inv = Inventory(self.path, r.randrange(1 << 30))
        os.makedirs(self.path)
        seen = []
        while len(seen) < n:
            t = (r.choice(GRIDS), r.choice(GRIDS), r.choice(METHODS))
            if t[0] != t[1] and t not in seen:
                seen.append(t)
                self.inv.write_matrix(self.inv.add(*t, nnz=90000 if len(seen) == 2 else None))
        self.entries = self.inv.entries
        self.texts = []

    def publish(self, n):
        text = json.dumps({"version": 1, "matrix": {e.name: e.raw() for e in self.entries[:n]}})
        self.texts.append(text)
        for name, data in ((GZ, gzip.compress(text.encode())), (SHA, self.sha(text))):
            with open(os.path.join(self.path, name), "wb") as f:
                f.write(data)

    @staticmethod
    def sha(text):
        import hashlib

        return hashlib.sha256(text.encode()).hexdigest().encode()


def random_fault(r, name, kinds=KINDS):
    kind = r.choice(kinds)
    f = {"kind": kind, "part": r.choice([0, 0.01, 0.3, 0.5, 0.9, 0.999, r.random()])}
    if kind == "status":
        f["code"] = r.choice([400, 403, 404, 404, 429, 500, 502, 503, 504])
    if kind == "truncate":
        f["reset"] = r.random() < 0.5
    if kind == "stall":
        f["seconds"] = 1.5
    if kind == "content":
        what = r.choice(sorted(OTHER))
        f["what"] = what
        data = OTHER[what]
        f["data"] = (gzip.compress(data) if name == GZ and r.random() < 0.8 else data).hex()
    return f


def label(f):
    return f["kind"] + str(f.get("code", "")) + f.get("what", "")


# ---- in the processes


def ask(e, url, seed=0, old=False):
    v = np.random.default_rng(seed).random(size_of(e.gin)) + 1
    if old:
        res, x = outcome(interpolate, v, short(e.gin), short(e.gout), matrix_source=url, method=e.method)
    else:
        res, x = outcome(regrid, v, short(e.gin), short(e.gout), interpolation=e.method, backend="precomputed", inventory=url)
        res = res and res[0]
    if x is not None:
        return f"{type(x).__name__}: {x}"[:300]
    return same(res, *apply(e.w, v))


def damaged(remote):
    """The cached weights and indexes that are not those of the server"""
    res = []
    if config.get("cache-policy") == "off":
        return res
    n = 0
    for entry in cache.entries():
        path = entry["path"]
        if path.endswith(".npz"):
            m, x = outcome(load_npz, path)
            if x is None and not any(m.shape == e.w.shape and (m != e.w).nnz == 0 for e in remote.entries):
                x = "other weights"
            n += 1
        elif entry["owner"] == "regrid":
            with open(path, "rb") as f:
                x = None if f.read().decode(errors="replace") in remote.texts else "other index"
            n += 1
        else:
            continue
        if x is not None:
            res.append([path, repr(x)[:200]])
    return [n, res]


def full_disk(limit):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))


def session(server, remote, settings, rounds):
    config.set({**SETTINGS, **settings})
    url = server.url + remote.name
    res = []
    for i, (j, old, faults, options, times, disk) in enumerate(rounds):
        e = remote.entries[j]
        server.take()
        server.options(**options)
        server.faults(faults)
        during = []
        if disk:
            full_disk(disk)
        for k in range(times):
            during.append([ask(e, url, i, old), None if disk else damaged(remote)])
        if disk:
            full_disk(resource.RLIM_INFINITY)
        hit = [[p.split("/")[-1], f] for m, p, f, _ in server.take() if f]
        server.faults({})
        server.options(etag=True, ranges=True, head="ok", down=False)
        after = ask(e, url, i + 100, old)
        log = server.take()
        res.append([during, hit, after, damaged(remote), log])
    return res


def history(n, server):
    r = C.rng("history", n)
    remote = Remote(server.root, f"h{n}", r, r.randint(4, 8))
    directory = os.path.join(SCRATCH, f"cache-{n}")
    trace = []
    for s in range(r.randint(2, 4)):
        remote.publish(min(len(remote.entries), max(1, r.randint(1, 3) + 2 * s)))
        published = json.loads(remote.texts[-1])["matrix"]
        known = [j for j, e in enumerate(remote.entries) if e.name in published]
        settings = {
            "cache-policy": r.choice(["user"] * 6 + ["temporary", "off"]),
            "user-cache-directory": directory,
            "weights-memory-cache-policy": r.choice(["off", "unlimited", "lru"]),
        }
        rounds = []
        for _ in range(r.randint(2, 5)):
            # the newest ones need the new index
            j = r.choice(known[-2:]) if r.random() < 0.5 else r.choice(known)
            e = remote.entries[j]
            faults = {}
            options = {}
            disk = 0
            how = r.random()
            if how < 0.08:
                options["down"] = True
            elif how < 0.2:
                disk = r.choice([1 << 17, (1 << 17) + 7777])
            else:
                for name in r.choice([[GZ], [SHA], [e.path], [e.path], [GZ, SHA], [GZ, e.path], [GZ, SHA, e.path]]):
                    fs = [random_fault(r, name, KINDS * 6 + ["stall"]) for _ in range(r.choice([1, 1, 2, 3]))]
                    if r.random() < 0.4:
                        fs[-1]["sticky"] = True
                    faults[f"/{remote.name}/{name}"] = fs
            if r.random() < 0.5:
                options.update(etag=r.random() < 0.6, ranges=r.random() < 0.6, head=r.choice(["ok", "ok", "fail", "nolength", "close"]))
            rounds.append([j, r.random() < 0.2, faults, options, r.choice([1, 1, 2, 3]), disk])
        c = call(session, server, remote, settings, rounds, timeout=200)
        trace.append([settings, rounds])
        C.count("sessions")
        if not C.check(c.result is not None, "session", f"a session failed: {c.error}", trace=c.trace, history=trace):
            break
        for i, (one, (during, hit, after, left, log)) in enumerate(zip(rounds, c.result)):
            j, old, faults, options, times, disk = one
            case = dict(round=one, number=i, during=during, hit=hit, after=after, left=left, log=log, history=trace)
            for got, bad in during:
                C.evaluate()
                C.check(got is not False, "wrong-result", "a wrong result of a download with faults", **case)
                C.check(got is True or isinstance(got, str), "wrong-result", "no result", **case)
                C.check(not bad or not bad[1], "damaged", "damaged files are left in the cache", **case)
                C.count("calls_failed" if isinstance(got, str) else "calls_succeeded")
            C.evaluate()
            C.check(after is True, "not-recovered" if after is not False else "wrong-result", "the call fails when the faults are over", **case)
            C.check(not left or not left[1], "damaged", "damaged files are left in the cache", **case)
            for name, f in hit:
                C.count("hit_" + f)
                C.nontrivial((f, name if "index" in name else "weights", options.get("head"), options.get("etag"), options.get("ranges")))
            if disk and isinstance(during[0][0], str):
                C.count("hit_disk")
                C.nontrivial(("disk", during[0][0].split(":")[0], settings["cache-policy"]))
            C.count("files_checked", left[0] if left else 0)
            C.count("rounds")
            C.count("resumed", sum(1 for m, p, f, rg in log if rg))
            C.sample({k: case[k] for k in ("round", "during", "hit", "after")})
    C.count("histories")


def histories():
    server = Server(fresh_dir("root"))
    n = 0
    while n < pick(60, 2000) and C.elapsed() < pick(18, 420) and not C.violated:
        history(n, server)
        n += 1
    server.stop()


# ---- interrupted transfers of large files


def interrupted(server, remote, versions, settings, steps):
    """versions: weights files of the entry, which steps put on the server"""
    config.set({**SETTINGS, **settings})
    url = server.url + remote.name
    e = remote.entries[0]
    v = np.random.default_rng(0).random(size_of(e.gin)) + 1
    refs = [apply(x.w, v) for x in versions]
    res = []
    for version, fault, options, disk in steps:
        remote.inv.write_matrix(versions[version])
        server.options(etag=True, ranges=True, head="ok", down=False)
        server.options(**options)
        server.faults({f"/{remote.name}/{e.path}": [fault]} if fault else {})
        server.take()
        if disk:
            full_disk(disk)
        got, x = outcome(regrid, v, short(e.gin), short(e.gout), interpolation=e.method, backend="precomputed", inventory=url)
        if disk:
            full_disk(resource.RLIM_INFINITY)
        if x is None:
            out = [i for i, ref in enumerate(refs) if same(got[0], *ref)]
        else:
            out = f"{type(x).__name__}: {x}"[:300]
        sizes = [[os.path.basename(p)[-20:], os.path.getsize(p)] for p in files(settings["user-cache-directory"]) if ".npz" in p]
        res.append([out, server.take(), sizes])
        if x is None:
            break
    return res


def files(directory):
    return [os.path.join(directory, name) for name in sorted(os.listdir(directory))]


SIMPLE = [(version, etag, head) for version in (1, 2, 0) for etag in (True, False) for head in ("ok", "nolength")]


def transfer(n, server, pool):
    r = C.rng("transfer", n)
    remote = Remote(server.root, f"t{n}", r, 0)
    versions = pool[n % len(pool)]
    remote.entries = remote.inv.entries = versions[:1]
    remote.publish(1)
    steps = []
    version = 0
    usual = {"etag": r.random() < 0.6, "ranges": r.random() < 0.85, "head": r.choice(["ok"] * 4 + ["nolength", "fail"])}

    def server_options():
        if r.random() < 0.7:
            return dict(usual)
        return {"etag": r.random() < 0.75, "ranges": r.random() < 0.85, "head": r.choice(["ok"] * 6 + ["nolength", "fail"])}

    for _ in range(r.randint(1, 3)):
        kind = r.choice(["truncate"] * 9 + ["disk", "cut", "stall", "html", "garbage"])
        fault = None if kind == "disk" else {"kind": kind, "part": r.choice([0.7, 0.9, 0.999]), "reset": r.random() < 0.3, "seconds": 1.2}
        options = server_options()
        steps.append([version, fault, options, 1200000 if kind == "disk" else 0])
        if r.random() < 0.5:
            version = r.randrange(3)
    options = server_options()
    steps.append([version, None, options, 0])
    if n < len(SIMPLE):
        version, etag, head = SIMPLE[n]
        options = {"etag": etag, "ranges": True, "head": head}
        steps = [[0, {"kind": "truncate", "part": 0.9}, options, 0], [version, None, options, 0]]
    settings = {"cache-policy": "user", "user-cache-directory": os.path.join(SCRATCH, f"transfer-{n}"), "weights-memory-cache-policy": "off"}
    # each step in a process of its own, or all in one
    done = []
    for part in [steps] if r.random() < 0.5 else [[x] for x in steps]:
        c = call(interrupted, server, remote, versions, settings, part, timeout=60)
        if not C.check(c.result is not None, "session", f"a session failed: {c.error}", trace=c.trace, steps=steps):
            return
        done += c.result
        if not isinstance(done[-1][0], str):
            break
    case = dict(steps=steps, outcomes=done, same_size=[0, 1])
    for (version, fault, options, disk), (out, log, sizes) in zip(steps, done):
        C.evaluate()
        if isinstance(out, str):
            C.check(fault or disk, "not-recovered", "a call fails when the faults are over", **case)
            C.count("transfers_failed")
        else:
            C.check(version in out, "mixed", "not the weights of the server", **case)
        C.count("resumed", sum(1 for m, p, f, rg in log if rg))
        C.nontrivial(("transfer", fault and fault["kind"], bool(disk), *options.values(), version, any(x[3] for x in log)))
    C.count("replaced", len({x[0] for x in steps[: len(done)]}) > 1)
    C.count("transfers")


def transfers():
    server = Server(fresh_dir("root"))
    r = C.rng("transfers")
    pool = []
    for _ in range(pick(2, 12)):
        gin, gout = r.sample([ll(2.5), octahedral(32), ll(5), octahedral(16)], 2)
        nnz = r.choice([140000, 200000])
        versions = []
        # the first two have the same size
        for k in range(3):
            inv = Inventory(server.root, r.randrange(1 << 30))
            versions.append(inv.add(gin, gout, "linear", nnz=nnz if k < 2 else nnz + r.randrange(2, 9000), name="w" * 64))
        pool.append(versions)
    n = 0
    while n < pick(60, 800) and C.elapsed() < pick(7, 160) and not C.violated:
        transfer(n, server, pool)
        n += 1
    server.stop()


# ---- crowds


def member(server, remote, settings, jobs, gates):
    config.set({**SETTINGS, **settings})
    url = server.url + remote.name
    res = [[[], []] for _ in jobs]

    def work(i, phase):
        while not os.path.exists(gates[phase]):
            time.sleep(0.002)
        for j in jobs[i]:
            res[i][phase].append([j, ask(remote.entries[j], url, j)])

    for phase in (0, 1):
        ts = [threading.Thread(target=work, args=(i, phase)) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        with open(f"{gates[phase]}-{os.getpid()}", "w"):
            pass
    return res


def crowd(n, server):
    r = C.rng("crowd", n)
    remote = Remote(server.root, f"c{n}", r, 4)
    settings = {
        "cache-policy": "user",
        "user-cache-directory": os.path.join(SCRATCH, f"crowd-{n}"),
        "weights-memory-cache-policy": r.choice(["off", "unlimited"]),
    }
    update = r.random() < 0.5
    if update:
        remote.publish(1)
        server.faults({})
        c = call(session, server, remote, settings, [[0, False, {}, {}, 1, 0]])
        C.check(c.result is not None and c.result[0][2] is True, "session", f"no fault, and a failure: {c.result} {c.error}")
    remote.publish(4)
    faults = {}
    for name in [GZ, SHA, *[e.path for e in remote.entries]]:
        if r.random() < 0.7:
            faults[f"/{remote.name}/{name}"] = [random_fault(r, name) for _ in range(r.randint(1, 4))]
    server.faults(faults)
    server.take()
    gates = [os.path.join(SCRATCH, f"gate-{n}-{i}") for i in (0, 1)]
    processes, threads = r.choice([(1, 4), (2, 2), (3, 1), (4, 1), (3, 2)])
    children = [
        Child(member, server, remote, settings, [r.sample(range(4), 4) for _ in range(threads)], gates) for _ in range(processes)
    ]
    with open(gates[0], "w"):
        pass
    end = time.time() + 60
    while time.time() < end and not all(os.path.exists(f"{gates[0]}-{c.pid}") or c.poll() for c in children):
        time.sleep(0.005)
    hit = [[p.split("/")[-1], f] for m, p, f, _ in server.take() if f]
    server.faults({})
    with open(gates[1], "w"):
        pass
    wait(children, 60)
    case = dict(update=update, processes=processes, threads=threads, settings=settings, faults=faults, hit=hit)
    for c in children:
        if not C.check(c.result is not None, "crowd", f"a process failed: {c.error}", trace=c.trace, **case):
            continue
        for during, after in c.result:
            for j, got in during:
                C.evaluate()
                C.check(got is not False, "crowd-wrong", "a wrong result", entry=j, **case)
            for j, got in after:
                C.evaluate()
                C.check(got is True, "crowd-not-recovered", f"a call fails when the faults are over: {got}", entry=j, **case)
    for name, f in hit:
        C.count("crowd_hits")
        C.nontrivial(("crowd", f, name if "index" in name else "weights", processes, threads))
    C.count("crowds")


def crowds():
    server = Server(fresh_dir("root"))
    n = 0
    while n < pick(60, 1000) and C.elapsed() < pick(24, 640) and not C.violated:
        crowd(n, server)
        n += 1
    server.stop()


# ---- servers that never answer


def silence(n, kind, name, head):
    """Calls during which the server does not answer, or stops in the middle"""
    r = C.rng("silence", n)
    server = Server(fresh_dir("root"))
    remote = Remote(server.root, f"s{n}", r, 3)
    remote.publish(3)
    settings = {"cache-policy": "user", "user-cache-directory": os.path.join(SCRATCH, f"silence-{n}"), "weights-memory-cache-policy": "off"}
    target = {"weights": remote.entries[0].path}.get(name, name)
    fault = {"kind": kind, "part": 0.5, "seconds": 600, "sticky": True}
    rounds = [[0, False, {f"/{remote.name}/{target}": [fault]} if kind else {}, {"head": head}, 1, 0]]
    case = dict(kind=kind, name=name, head=head)
    return server, case, Child(session, server, remote, settings, rounds)


silent = []


def begin_silences():
    kinds = [(k, n, "ok") for k in ("silent", "stall") for n in (GZ, SHA, "weights")] + [(None, GZ, "silent")]
    silent.extend(silence(i, *k) for i, k in enumerate(kinds))


def silences():
    wait([c for _, _, c in silent], 150)
    for server, case, c in silent:
        server.stop()
        C.evaluate()
        if c.hung:
            C.violation("endless", "a call does not end when the server does not answer", **case)
            continue
        if not C.check(c.result is not None, "session", f"a session failed: {c.error}", trace=c.trace, **case):
            continue
        ((during, hit, after, left, log),) = c.result
        case.update(during=during, hit=hit, after=after, log=log)
        C.check(during[0][0] is True or isinstance(during[0][0], str), "wrong-result", "a wrong result of a download with faults", **case)
        C.check(after is True, "not-recovered", "the call fails when the server answers again", **case)
        C.check(not left[1], "damaged", "damaged files are left in the cache", **case)
        C.nontrivial(("silence", case["kind"], case["name"], case["head"]))
        C.count("silences", len(hit) > 0 or case["kind"] is None)


C.require(
    silences=4,
    histories=4,
    rounds=40,
    calls_failed=20,
    calls_succeeded=5,
    files_checked=50,
    transfers=5,
    transfers_failed=6,
    replaced=2,
    crowds=4,
    crowd_hits=15,
)
main(C, begin_silences, transfers, histories, crowds, silences)
