"""C27: repeated use accumulates no resources."""

import gc
import io
import os
import random
import sys
import tempfile
import threading
import time
import tracemalloc

import gribtools
import mirtools
import numpy as np
from cachework import Maker
from cachework import is_entry
from harness import SCRATCH
from harness import Check
from harness import main
from harness import outcome
from harness import pick
from inventory import ALIASES
from inventory import Inventory
from inventory import apply
from inventory import healpix
from inventory import ll
from inventory import octahedral
from inventory import same
from inventory import short
from inventory import size_of
from procs import Child
from procs import wait
from server import Server

from earthkit.regrid import cache
from earthkit.regrid import clear_memory_cache
from earthkit.regrid import config
from earthkit.regrid import interpolate
from earthkit.regrid import memory_cache_info
from earthkit.regrid import regrid
from earthkit.regrid.array import regrid as array_regrid
from earthkit.regrid.utils.caching import cache_file
from earthkit.regrid.utils.temporary import temp_directory
from earthkit.regrid.utils.temporary import temp_file

config.autosave = False

C = Check(
    "C27",
    "exploration",
    "A process repeats a random mixture of operations of one kind (regrids with either backend and each kind of input, calls that fail, changes "
    "of the configuration, cached files, downloads with faults, threads). After a warm-up its open files, threads, child processes, temporary and "
    "cached files, live weights, live Python memory and resident memory are compared between the beginning, the middle and the end. "
    "Non-trivial: distinct (kind, seed) in which every resource was measured three times.",
    ["a leak is growth in both halves, beyond what the measurements vary by", "the first iterations may fill caches of the libraries"],
)


# ------------------------------------------------------------------ what is measured


def fresh_dir(name):
    """The processes have directories of their own"""
    root = os.path.join(SCRATCH, f"leak-{os.getpid()}")
    os.makedirs(root, exist_ok=True)
    return tempfile.mkdtemp(prefix=name + "-", dir=root)


def matrices():
    from scipy import sparse

    kinds = (sparse.csr_matrix, sparse.csr_array)
    return sum(isinstance(o, kinds) for o in gc.get_objects())


def tree(path):
    return sum(len(fs) + len(ds) for _, ds, fs in os.walk(path))


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")


def children():
    n = 0
    for t in os.listdir("/proc/self/task"):
        try:
            with open(f"/proc/self/task/{t}/children") as f:
                n += len(f.read().split())
        except OSError:
            pass
    return n


def open_files():
    r = []
    for n in os.listdir("/proc/self/fd"):
        try:
            r.append(os.readlink(f"/proc/self/fd/{n}"))
        except OSError:
            pass
    return r


# what may vary from one time to the next
SLACK = {"files": 4, "threads": 3, "children": 0, "temporary": 3, "matrices": 2, "cached": 3, "objects": 120, "blocks": 600}
# there are up to 24 files and their locks
SLACKS = {"disk": {"cached": 30}, "forks": {"cached": 30}, "objects": {"objects": 500, "blocks": 1500}}


def measure(dirs):
    for _ in range(3):
        gc.collect()
    # threads that are just ending
    end = time.time() + 2
    while time.time() < end and threading.active_count() > measure.threads:
        time.sleep(0.01)
    fds = open_files()
    m = {
        "files": len(fds),
        "threads": threading.active_count(),
        "children": children(),
        "temporary": tree(tempfile.tempdir) + sum(tree(d) for d in dirs.get("temporary", [])),
        "cached": sum(tree(d) for d in dirs.get("cached", [])),
        "matrices": matrices(),
        "objects": len(gc.get_objects()),
        "blocks": sys.getallocatedblocks(),
        "python": tracemalloc.get_traced_memory()[0] if tracemalloc.is_tracing() else 0,
        "rss": rss(),
    }
    m["_fds"] = fds
    return m


measure.threads = 1


def grown(found, n, kind=None, per=400):
    """What has grown in both halves. per: bytes of Python memory that an iteration may keep"""
    a, b, d = found
    for what, slack in {**SLACK, **SLACKS.get(kind, {})}.items():
        up = [b[what] - a[what], d[what] - b[what]]
        # something is kept by every twelfth operation or more
        if min(up) >= max(slack, n // 12):
            yield what, f"{what} grow: {a[what]}, {b[what]}, {d[what]}"
    up = [b["python"] - a["python"], d["python"] - b["python"]]
    if min(up) > max(per * n, 64 << 10):
        yield "memory", f"Python memory grows by {up} in {n} iterations"
    up = [b["rss"] - a["rss"], d["rss"] - b["rss"]]
    if min(up) > max(12 << 20, 60000 * n):
        yield "rss", f"the resident memory grows by {up} in {n} iterations"


def repeat(make, seed, n, warm):
    """Runs in a child: make(rng) -> (operation(rng), directories)"""
    rng = random.Random(seed)
    tempfile.tempdir = fresh_dir("tmp")
    op, dirs = make(rng)
    errors = []
    ops = {}

    def one():
        try:
            what = op(rng)
            ops[what] = ops.get(what, 0) + 1
        except Exception as e:
            import traceback

            errors.append([f"{type(e).__name__}: {e}"[:300], traceback.format_exc()[-1500:]])

    tracemalloc.start(1)
    for _ in range(warm):
        one()
    measure.threads = threading.active_count()
    found = [measure(dirs)]
    for _ in range(2):
        for _ in range(n):
            one()
        found.append(measure(dirs))
        if len(errors) > 3:
            break
    growth = []
    if not errors and list(grown(found, n, make.__name__)):
        # where from
        snap = tracemalloc.take_snapshot()
        for _ in range(n):
            one()
        for s in tracemalloc.take_snapshot().compare_to(snap, "lineno")[:8]:
            growth.append(f"{s.size_diff:+d} {s.count_diff:+d} {s.traceback}")
    info = memory_cache_info()
    return {"found": found, "errors": errors[:3], "ops": ops, "growth": growth, "info": list(info)}


def judge(kind, seed, n, c):
    C.evaluate()
    case = dict(kind=kind, seed=seed, iterations=n)
    if c.error:
        C.violation(f"{kind}-fails", f"{'hangs' if c.hung else 'fails'}: {c.error}", trace=c.trace, **case)
        return
    r = c.result
    if not C.check(not r["errors"], f"{kind}-wrong", f"an operation of the workload is wrong: {r['errors'][:1]}", **case):
        return
    case.update(operations=r["ops"], growth=r["growth"], found=[{k: v for k, v in x.items() if k != "_fds"} for x in r["found"]])
    for what, text in grown(r["found"], n, kind):
        extra = {"files_open": sorted(r["found"][-1]["_fds"])[-20:]} if what == "files" else {}
        C.violation(f"{kind}-{what}", text, **case, **extra)
    C.count("measured", 3)
    C.count("kinds_" + kind)
    C.count("operations", sum(r["ops"].values()))
    C.nontrivial((kind, seed))
    C.sample({k: case[k] for k in ("kind", "found", "operations")}, limit=8)


def want(ok, what):
    if not ok:
        raise AssertionError(what)


# ------------------------------------------------------------------ precomputed weights


def inventory(rng, n=6):
    grids = [ll(10), ll(5), octahedral(8), octahedral(16), healpix(2, "ring"), healpix(4, "nested")]
    inv = Inventory(fresh_dir("inv"), rng.randrange(1 << 30))
    seen = []
    while len(seen) < n:
        t = (rng.choice(grids), rng.choice(grids), rng.choice(["linear", "nearest-neighbour"]))
        if t[0] != t[1] and t not in seen:
            seen.append(t)
            inv.add(*t)
    inv.write()
    return inv


def spoil(inv, rng):
    """Entries whose weights cannot be read"""
    broken = []
    for how in ("missing", "garbage", "half"):
        t = None
        while t is None or any((e.gin, e.gout, e.method) == t for e in inv.entries):
            t = (rng.choice([ll(10), ll(5), octahedral(8)]), healpix(rng.choice([2, 4, 8]), "ring"), "linear")
        broken.append((inv.add(*t), how))
    inv.write()
    for e, how in broken:
        path = os.path.join(inv.path, e.path)
        if how == "missing":
            os.unlink(path)
        else:
            with open(path, "rb") as f:
                data = f.read()
            with open(path, "wb") as f:
                f.write(data[: len(data) // 2] if how == "half" else b"garbage")
    return [e for e, _ in broken]


def precomputed(rng, base=False):
    inv = inventory(rng)
    good = list(inv.entries)
    broken = spoil(inv, rng)
    mem = {}
    grids = [short(e.gin) for e in good]

    def fresh(r):
        mem.update(
            {
                "weights-memory-cache-policy": r.choice(["off", "lru", "largest", "unlimited"]),
                "maximum-weights-memory-cache-size": r.choice([1, 10000, 100000, 10 << 20]),
                "weights-memory-cache-strict-mode": False,
            }
        )
        config.set(mem)

    fresh(rng)

    def op(r):
        x = r.random()
        if x < 0.5:
            e = r.choice(good)
            v = np.random.default_rng(r.randrange(99)).random(size_of(e.gin))
            method = r.choice(ALIASES.get(e.method, [e.method]))
            if r.random() < 0.3:
                res = interpolate(v, short(e.gin), short(e.gout), matrix_source=inv.path, method=method)
            else:
                res, _ = array_regrid(v, short(e.gin), short(e.gout), interpolation=method, backend="precomputed", inventory=inv.path)
            want(same(res, *apply(e.w, v)), "not the result")
            return "regrid"
        if x < 0.6:
            e = r.choice(broken)
            _, error = outcome(array_regrid, np.zeros(size_of(e.gin)), short(e.gin), short(e.gout), interpolation="linear", backend="precomputed", inventory=inv.path)
            want(error is not None, "weights that cannot be read")
            return "broken"
        if x < 0.7:
            v = np.zeros(r.randint(1, 5000))
            g = r.choice([{"grid": [r.randint(1, 50) / 7, 3]}, {"grid": f"O{r.randint(500, 9000)}"}, {"grid": r.choice(["x", "H0", ""])}, {}])
            _, error = outcome(array_regrid, v, r.choice(grids), g, backend="precomputed", inventory=inv.path)
            want(error is not None, "no weights")
            return "unknown"
        if x < 0.75:
            _, error = outcome(array_regrid, np.zeros(7), short(good[0].gin), short(good[0].gout), interpolation=good[0].method, backend="precomputed", inventory=inv.path)
            want(error is not None, "wrong size")
            return "wrong size"
        if x < 0.8:
            _, error = outcome(array_regrid, np.zeros(7), {"grid": "O8"}, {"grid": "O8"}, backend="precomputed", inventory="/nonexistent")
            want(error is not None, "no inventory")
            return "no inventory"
        if x < 0.85:
            clear_memory_cache()
            return "clear"
        if x < 0.9:
            memory_cache_info()
            return "info"
        fresh(r)
        return "policy"

    def at_end(r):
        what = op(r)
        info = memory_cache_info()
        # what was evicted or cleared is not kept
        if r.random() < 0.1:
            gc.collect()
            want(matrices() <= info.count + extra, f"{matrices()} weights in memory, {info.count} in the cache")
        return what

    extra = matrices()
    # with base, without the comparison with the statistics, which other threads change
    return op if base else at_end, {"cached": [inv.path]}


def lookups(rng):
    """Requests that are all different, for weights that do not exist"""
    inv = inventory(rng)
    config.set({"weights-memory-cache-policy": rng.choice(["off", "lru", "unlimited"])})
    values = np.zeros(19 * 36)

    def op(r):
        d = r.randint(1, 10**6) / 1000
        grids = [{"grid": [10, 10]}, r.choice([{"grid": [d, d]}, {"grid": f"O{r.randint(100, 10**6)}"}, {"grid": [10, 10], "area": [80, 0, d / 100, 300]}])]
        if r.random() < 0.3:
            grids.reverse()
        method = r.choice(["linear", "nearest-neighbour", "nn", f"method-{d}"])
        if r.random() < 0.3:
            _, error = outcome(interpolate, values, *grids, matrix_source=inv.path, method=method)
        else:
            _, error = outcome(array_regrid, values, *grids, interpolation=method, backend="precomputed", inventory=inv.path)
        want(error is not None, "weights that do not exist")
        return "unknown"

    return op, {"cached": [inv.path]}


def threads(rng):
    op, dirs = precomputed(rng, base=True)

    def job(r):
        errors = []

        def go(seed):
            q = random.Random(seed)
            try:
                for _ in range(3):
                    op(q)
            except Exception as e:
                errors.append(e)

        ts = [threading.Thread(target=go, args=(r.random(),)) for _ in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        if errors:
            raise errors[0]
        return "threads"

    return job, dirs


# ------------------------------------------------------------------ MIR


def mir_arrays(rng):
    grids = [
        ({"grid": [10, 10]}, 19 * 36),
        ({"grid": [5, 5]}, 37 * 72),
        ({"grid": "O16"}, mirtools.octahedral_size(16)),
        ({"grid": "N16"}, 1688),
        ({"grid": "H4", "order": "ring"}, 192),
    ]

    def op(r):
        (g, n), (out, size) = r.choice(grids), r.choice(grids)
        x = r.random()
        if x < 0.75:
            v = np.random.default_rng(r.randrange(99)).random(n)
            res, spec = array_regrid(v, g, out, interpolation=r.choice(["linear", "nearest-neighbour"]))
            want(res.size == size, "size")
            want(res.min() >= -1e-6 and res.max() <= 1 + 1e-6, "out of range")
            return "regrid"
        if x < 0.85:
            _, error = outcome(array_regrid, np.zeros(n + 1), g, out)
            want(error is not None, "wrong size")
            return "wrong size"
        # (the constructor of mir.ArrayInput itself leaks the array when it refuses the grid)
        _, error = outcome(array_regrid, np.zeros(n), g, {"grid": "O4"}, interpolation="nonsense")
        want(error is not None, "unknown method")
        return "unknown method"

    return op, {}


def objects(rng):
    """GRIB messages, fieldlists and xarray objects"""
    import earthkit.data
    import xarray as xr

    nrng = np.random.default_rng(rng.randrange(1 << 30))
    messages = []
    while len(messages) < 4:
        kind = rng.choice(gribtools.KINDS)
        messages.append(gribtools.message(kind, nrng.random(gribtools.size(kind)) + 1))
    path = os.path.join(fresh_dir("grib"), "data.grib")
    with open(path, "wb") as f:
        f.write(b"".join(messages))
    da = xr.DataArray(nrng.random((2, 19, 36)), dims=("t", "latitude", "longitude"), attrs={"gridspec": {"grid": [10, 10]}})

    for _ in range(4):
        # the threads of dask
        regrid(da.chunk({"t": 1}), grid={"grid": "O8"}).compute()

    def op(r):
        x = r.random()
        out = r.choice([{"grid": [20, 20]}, {"grid": [10, 10]}, {"grid": "O8"}])
        if x < 0.25:
            res = regrid(r.choice(messages), grid=out)
            want(res[:4] == b"GRIB", "no message")
            return "bytes"
        if x < 0.4:
            res = regrid(io.BytesIO(r.choice(messages)), grid=out)
            want(res[:4] == b"GRIB", "no message")
            return "stream"
        if x < 0.6:
            ds = earthkit.data.from_source("file", path)
            res = regrid(ds, grid=out)
            want(len(res) == 4, "not all of the fields")
            want(np.isfinite(res[0].values).all(), "values")
            return "fieldlist"
        if x < 0.85:
            res = regrid(da, grid=out)
            want(res.shape[0] == 2, "shape")
            return "xarray"
        if x < 0.95:
            res = regrid(da.chunk({"t": 1}), grid=out).compute()
            want(res.shape[0] == 2, "shape")
            return "dask"
        _, error = outcome(regrid, r.choice([da, messages[0], io.BytesIO(messages[0])]), grid={"grid": "O4"}, interpolation="nonsense")
        want(error is not None, "unknown method")
        return "error"

    return op, {}


# ------------------------------------------------------------------ configuration and disk cache


def manager():
    from earthkit.regrid.utils import caching

    return caching.CACHE._manager


class Boom(Exception):
    pass


def configuration(rng):
    root = fresh_dir("root")
    dirs = [os.path.join(root, f"c{i}") for i in range(3)]
    roots = [os.path.join(root, f"t{i}") for i in range(2)]
    calls = []
    config.on_change(lambda: calls.append(1))

    def settings(r):
        return r.choice(
            [
                {"cache-policy": "user", "user-cache-directory": r.choice(dirs)},
                {"cache-policy": "temporary", "temporary-cache-directory-root": r.choice([None, *roots])},
                {"cache-policy": "off", "temporary-directory-root": r.choice([None, *roots])},
                {"maximum-cache-size": r.choice([None, 1000, "10K"])},
                {"weights-memory-cache-policy": r.choice(["off", "lru", "unlimited"])},
                {"maximum-weights-memory-cache-size": r.randint(1, 100) << 10},
                {"url-download-timeout": r.randint(1, 30)},
            ]
        )

    def use(r):
        if config.get("cache-policy") != "off" and r.random() < 0.5:
            cache_file("x", lambda p, a: open(p, "w").close(), [r.randrange(5)])
            cache.size()
            cache.entries()
            manager()._repr_html_()
        cache.directory()

    def op(r):
        x = r.random()
        del calls[:]
        if x < 0.35:
            config.set(settings(r))
            use(r)
            want(len(calls) == 1, f"an observer was called {len(calls)} times for one change")
            return "set"
        if x < 0.5:
            with config.temporary(settings(r)):
                use(r)
                with config.temporary():
                    config.set(settings(r))
            return "temporary"
        if x < 0.65:
            try:
                with config.temporary(settings(r)):
                    use(r)
                    raise Boom()
            except Boom:
                pass
            return "exception"
        if x < 0.8:
            bad = r.choice([{"cache-policy": "bad"}, {"unknown": 1}, {"maximum-cache-size": "x"}, {"weights-memory-cache-policy": "lru", "maximum-weights-memory-cache-size": 0}])
            if r.random() < 0.5:
                _, error = outcome(config.set, bad)
            else:

                def enter():
                    with config.temporary(bad):
                        pass

                _, error = outcome(enter)
            want(error is not None, f"accepted {bad}")
            return "rejected"
        if x < 0.85:
            config.reset(r.choice([None, "cache-policy", "maximum-cache-size"]))
            config.set(settings(r))
            return "reset"
        if x < 0.9:
            config.temporary(settings(r))  # never entered
            with config.temporary():
                pass
            return "not entered"
        with temp_file() as path:
            want(os.path.exists(path), "no temporary file")
        with temp_directory() as path:
            want(os.path.isdir(path), "no temporary directory")
        f, d = temp_file(), temp_directory()
        want(os.path.exists(f.path) and os.path.isdir(d.path), "no temporary file")
        return "temporary files"

    return op, {"temporary": roots}


def disk(rng):
    d = fresh_dir("disk")
    log = os.path.join(fresh_dir("log"), "log")
    config.set({"cache-policy": "user", "user-cache-directory": d, "maximum-cache-size": None})
    maker = Maker(log, seed=rng.random())

    def failing(path, args):
        with open(path, "w") as f:
            f.write("part")
        raise Boom()

    def op(r):
        if os.path.exists(log):
            os.unlink(log)
        x = r.random()
        k = f"k{r.randrange(12)}"
        if x < 0.5:
            cache_file("leak", maker(k, size=300, directory=k in ("k1", "k2")), {"key": k}, extension=".dat", force=r.random() < 0.2)
            return "request"
        if x < 0.65:
            _, error = outcome(cache_file, "leak", failing, {"key": r.randrange(12), "fails": 1}, extension=".dat")
            want(isinstance(error, Boom), "not reported")
            return "failure"
        if x < 0.8:
            config.set("maximum-cache-size", r.choice([None, 500, 2000]))
            want(cache.size() <= 10**6, "size")
            return "limit"
        if x < 0.9:
            cache.entries()
            cache.summary_dump_database()
            manager()._repr_html_()
            cache.check_size()
            return "look"
        if x < 0.95:
            cache.purge(matcher=lambda e: r.random() < 0.5)
            return "purge some"
        cache.purge()
        want(not cache.entries(), "entries after a purge")
        want(not [n for n in os.listdir(d) if is_entry(n)], "files after a purge")
        return "purge"

    return op, {"cached": [d]}


def remote(rng):
    import gzip
    import hashlib
    import json

    import multiurl.retry

    multiurl.retry._logged_sleep = lambda *args, **kwargs: None
    root = fresh_dir("www")
    server = Server(root)
    inv = Inventory(os.path.join(root, "inv"), rng.randrange(1 << 30))
    os.makedirs(inv.path, exist_ok=True)
    for t in ((ll(10), octahedral(8), "linear"), (ll(10), healpix(2, "ring"), "linear"), (octahedral(8), ll(10), "linear")):
        inv.write_matrix(inv.add(*t))
    text = json.dumps({"version": 1, "matrix": {e.name: e.raw() for e in inv.entries}}).encode()
    for name, data in (("index.json.gz", gzip.compress(text)), ("index.json.sha256", hashlib.sha256(text).hexdigest().encode())):
        with open(os.path.join(inv.path, name), "wb") as f:
            f.write(data)
    url = server.url + "inv"
    d = fresh_dir("remote")
    config.set({"cache-policy": "user", "user-cache-directory": d, "weights-memory-cache-policy": "off", "url-download-timeout": "2s"})

    def op(r):
        e = r.choice(inv.entries)
        v = np.random.default_rng(r.randrange(99)).random(size_of(e.gin))
        what = r.random()
        faults = {}
        if what < 0.5:
            # weights are downloaded again
            name = f"/inv/{e.path}"
            faults[name] = [{"kind": r.choice(["status", "close", "truncate", "garbage"]), "part": 0.5, "code": r.choice([404, 500]), "reset": False}]
            if r.random() < 0.3:
                faults[name][-1]["sticky"] = True
        server.faults(faults)
        res, error = outcome(array_regrid, v, short(e.gin), short(e.gout), interpolation=e.method, backend="precomputed", inventory=url)
        server.faults({})
        server.take()
        if error is None:
            want(same(res[0], *apply(e.w, v)), "not the result")
        else:
            want(faults, f"failed without a fault: {error!r}")
        if r.random() < 0.3:
            cache.purge(matcher=lambda x: x["path"].endswith(".npz"))
        return "right" if error is None else "failed"

    return op, {"cached": [d]}


def forks(rng):
    """Child processes end and leave nothing"""
    op, dirs = disk(rng)

    def both(r):
        if r.random() < 0.3:
            c = Child(lambda: [op(r), cache.size()])
            wait([c], 30)
            want(c.error is None, f"a child process fails: {c.error}")
            return "child"
        return op(r)

    return both, dirs


KINDS = {
    # name: (maker, iterations in each half, warm-up)
    "precomputed": (precomputed, 300, 150),
    "lookups": (lookups, 1000, 300),
    "threads": (threads, 60, 30),
    "mir": (mir_arrays, 250, 150),
    "objects": (objects, 80, 60),
    "configuration": (configuration, 500, 150),
    "disk": (disk, 400, 150),
    "remote": (remote, 90, 40),
    "forks": (forks, 80, 40),
}


def rounds():
    rng = C.rng("rounds")
    turns = pick(1, 8)
    jobs = [(k, rng.random()) for _ in range(turns) for k in KINDS]
    scale = pick(1, 3)
    running = []
    while jobs or running:
        while jobs and len(running) < 6:
            kind, seed = jobs.pop(0)
            make, n, warm = KINDS[kind]
            running.append((kind, seed, n * scale, Child(repeat, make, seed, n * scale, warm), time.time()))
        for one in list(running):
            kind, seed, n, c, t0 = one
            if c.poll() or time.time() - t0 > pick(120, 400):
                if c.status is None:
                    c.hung = True
                    c.kill()
                judge(kind, seed, n, c)
                running.remove(one)
        time.sleep(0.02)


C.require(measured=3 * len(KINDS), operations=1000, **{f"kinds_{k}": 1 for k in KINDS})
sys.setswitchinterval(1e-3)
assert SCRATCH
main(C, rounds)
