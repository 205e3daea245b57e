"""C28: regrids of any kind of input at the same time."""

import os
import pickle
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor
from io import BytesIO

import earthkit.data
import gribtools
import mirtools
import numpy as np
import xarray as xr
from earthkit.data import from_source
from harness import SCRATCH
from harness import Check
from harness import fresh_dir
from harness import main
from harness import pick
from inventory import METHODS
from inventory import Inventory
from inventory import ll
from inventory import octahedral
from inventory import short
from inventory import size_of
from inventory import spelled
from memhist import MAX
from memhist import POLICY
from mirtools import INTERPOLATIONS
from monitor import switch_interval
from procs import Child
from procs import wait
from stress import Delays
from stress import Team
from stress import preempted

from earthkit.regrid import clear_memory_cache  # noqa: E402
from earthkit.regrid import config  # noqa: E402
from earthkit.regrid import interpolate  # noqa: E402
from earthkit.regrid import regrid  # noqa: E402
from earthkit.regrid.array import regrid as array_regrid  # noqa: E402

config.autosave = False

C = Check(
    "C28",
    "exploration",
    "Random calls on arrays, GRIB messages, fields, fieldlists and xarray objects, through both backends and interpolate(), made at the "
    "same time by threads with delays injected at random source lines, by a second thread at each source line of a call, by the "
    "schedulers of dask and by forked processes; each result compared bit for bit with that of the same call alone; non-trivial: "
    "distinct (call, call that it overlapped with).",
    ["MIR, ecCodes and xarray as installed", "interleavings are those that were produced"],
)

MIR_GRIDS = [g for g in mirtools.GRIDS if mirtools.size(g[1]) < 2000]


def in_memory(m):
    """The fields are read at once: ecCodes holds a lock while it reads a Python stream, which needs the
    interpreter lock, and MIR keeps the interpreter lock while it waits for that lock"""
    fl = from_source("memory", m)
    len(fl), list(fl)
    return fl


def attributes(x):
    return repr(sorted((str(k), repr(v)) for k, v in x.attrs.items()))


def canon(r, attrs=True):
    """The result in a form that can be compared"""
    if isinstance(r, tuple):
        return ("tuple",) + tuple(canon(x) for x in r)
    if isinstance(r, np.ndarray):
        return ("array", r.dtype.str, r.shape, r.tobytes())
    if isinstance(r, bytes):
        return ("bytes", r)
    if isinstance(r, xr.DataArray):
        coords = tuple(sorted((str(k), c.dims, np.asarray(c.values).tobytes()) for k, c in r.coords.items()))
        return ("dataarray", r.name, r.dims, canon(np.asarray(r.values)), coords) + ((attributes(r),) if attrs else ())
    if isinstance(r, xr.Dataset):
        return ("dataset",) + tuple((str(k), canon(v)) for k, v in r.data_vars.items())
    if isinstance(r, earthkit.data.FieldList):
        return ("fieldlist",) + tuple(canon(f) for f in r)
    if isinstance(r, earthkit.data.Field):
        md = r.metadata()
        keys = tuple((k, md.get(k, None)) for k in ("shortName", "level", "step", "dataDate"))
        return ("field", r.to_numpy(flatten=True).tobytes(), tuple(r.shape), keys)
    return (type(r).__name__, repr(r))


def run(job):
    try:
        return canon(job.func())
    except Exception as e:
        return ("error", type(e).__name__)


class Job:
    def __init__(self, what, func):
        self.what = what
        self.func = func
        self.ref = None


def lazy(func, delays=None, workers=3):
    """Computes a lazy object with worker threads that have delays"""
    trace = None if delays is None else (lambda: sys.settrace(delays))

    def go():
        with ThreadPoolExecutor(workers, initializer=trace) as pool:
            return func().compute(scheduler="threads", pool=pool)

    return go


class World:
    """Inputs, inventories and calls; the inputs are shared by the calls"""

    def __init__(self, label):
        rng = self.rng = C.rng("world", label)
        nrng = self.nrng = np.random.default_rng(rng.randrange(1 << 30))
        self.dir = fresh_dir("world")
        self.pool = [ll(10), ll(5), octahedral(8), octahedral(16)]
        self.invs = []
        for i in range(2):
            inv = Inventory(os.path.join(self.dir, f"inv{i}"), rng.randrange(1 << 30))
            for gin in self.pool:
                for gout in self.pool:
                    if gin is not gout:
                        for m in rng.sample(METHODS, 2):
                            inv.add(gin, gout, m)
            inv.write()
            self.invs.append(inv)
        self.jobs = []
        for i in range(40):
            what = rng.choice(
                ["array-mir", "array-weights", "interpolate", "bytes", "stream", "field", "fieldlist", "fieldlist-weights"]
                + ["dataarray", "dataarray-weights", "lazy", "lazy-weights", "dataset", "refused"]
            )
            self.jobs.append(Job(what, getattr(self, what.replace("-", "_"))(rng, nrng)))

    # ---- the calls
    def mir_grid(self, rng):
        g = dict(rng.choice(MIR_GRIDS)[0])
        if mirtools.is_ll(g) and rng.random() < 0.3:
            dx, dy = g["grid"]
            g["area"] = [dy * 2, dx, -dy, dx * 5]
        return g

    def array_mir(self, rng, nrng):
        gin, sin = rng.choice(MIR_GRIDS)
        v = nrng.normal(size=sin) + 5
        gout, inter = self.mir_grid(rng), rng.choice(INTERPOLATIONS)
        return lambda: array_regrid(v, gin, gout, interpolation=inter)

    def entry(self, rng, inputs=None, outputs=None):
        inv = rng.choice(self.invs)
        es = [e for e in inv.entries if (inputs is None or e.gin in inputs) and (outputs is None or e.gout in outputs)]
        e = rng.choice(es)
        return e, dict(backend="precomputed", inventory=inv.path, interpolation=spelled(e.method, rng))

    def array_weights(self, rng, nrng):
        e, kw = self.entry(rng)
        v = nrng.normal(size=size_of(e.gin))
        return lambda: array_regrid(v, short(e.gin), short(e.gout), **kw)

    def interpolate(self, rng, nrng):
        e, kw = self.entry(rng, outputs=self.pool[:2])
        kw = dict(method=kw["interpolation"], matrix_source=kw["inventory"])
        if rng.random() < 0.5:
            v = nrng.normal(size=size_of(e.gin))
            return lambda: interpolate(v, in_grid=short(e.gin), out_grid=short(e.gout), **kw)
        fl = in_memory(self.messages(rng, nrng, e.gin, 2))
        return lambda: interpolate(fl, out_grid=short(e.gout), **kw)

    @staticmethod
    def kind(g):
        return ("ll", tuple(g["grid"])) if isinstance(g["grid"], list) else (g["grid"][0], int(g["grid"][1:]))

    def messages(self, rng, nrng, gin=None, n=None):
        r = []
        for _ in range(n or rng.randint(1, 3)):
            kind = self.kind(gin) if gin else rng.choice(gribtools.KINDS)
            if kind == ("ll", (5, 5)):
                kind = ("ll", (10, 10))
            edition = 2 if kind[0] == "H" else rng.choice([1, 2])
            v = nrng.normal(size=gribtools.size(kind)) + 280
            r.append(gribtools.message(kind, v, edition, 24, gribtools.random_keys(rng, edition)))
        return b"".join(r)

    def bytes(self, rng, nrng):
        m = self.messages(rng, nrng, n=1)
        gout, inter = self.mir_grid(rng), rng.choice(INTERPOLATIONS)
        return lambda: regrid(m, grid=gout, interpolation=inter)

    def stream(self, rng, nrng):
        s = BytesIO(self.messages(rng, nrng, n=1))
        gout = self.mir_grid(rng)
        return lambda: regrid(s, grid=gout)

    def fields(self, rng, nrng, gin=None):
        m = self.messages(rng, nrng, gin)
        if rng.random() < 0.5:
            path = os.path.join(self.dir, f"{rng.randrange(1 << 40)}.grib")
            with open(path, "wb") as f:
                f.write(m)
            return lambda: from_source("file", path)
        fl = in_memory(m)
        return lambda: fl

    def field(self, rng, nrng):
        f = in_memory(self.messages(rng, nrng, n=1))[0]
        gout, inter = self.mir_grid(rng), rng.choice(INTERPOLATIONS)
        return lambda: regrid(f, grid=gout, interpolation=inter)

    def fieldlist(self, rng, nrng):
        make = self.fields(rng, nrng)
        gout, inter = self.mir_grid(rng), rng.choice(INTERPOLATIONS)
        return lambda: regrid(make(), grid=gout, interpolation=inter)

    def fieldlist_weights(self, rng, nrng):
        e, kw = self.entry(rng, inputs=[self.pool[0], self.pool[2], self.pool[3]], outputs=self.pool[:2])
        make = self.fields(rng, nrng, e.gin)
        return lambda: regrid(make(), grid=short(e.gout), **kw)

    def array(self, rng, nrng, shape, spec):
        shape = tuple(shape)
        dims = ["latitude", "longitude"] if len(shape) == 2 else ["values"]
        v = nrng.normal(size=(rng.randint(2, 6),) + shape)
        return xr.DataArray(v, dims=["step", *dims], coords={"step": np.arange(len(v)) * 6}, attrs={"gridspec": spec}, name="t")

    def dataarray(self, rng, nrng, wrap=lambda x: x):
        gin, sin = rng.choice(MIR_GRIDS)
        da = wrap(self.array(rng, nrng, sin, dict(gin)))
        gout, inter = self.mir_grid(rng), rng.choice(INTERPOLATIONS)
        return lambda: regrid(da, grid=gout, interpolation=inter)

    def dataarray_weights(self, rng, nrng, wrap=lambda x: x):
        e, kw = self.entry(rng)
        da = wrap(self.array(rng, nrng, e.gin["shape"], short(e.gin)))
        return lambda: regrid(da, grid=short(e.gout), **kw)

    def lazy(self, rng, nrng):
        return lazy(self.dataarray(rng, nrng, lambda x: x.chunk({"step": 1})), self.delays(rng))

    def lazy_weights(self, rng, nrng):
        return lazy(self.dataarray_weights(rng, nrng, lambda x: x.chunk({"step": 1})), self.delays(rng))

    def delays(self, rng):
        return Delays(rng.randrange(1 << 30), p_sleep=0.005, longest=0.001) if rng.random() < 0.5 else None

    def dataset(self, rng, nrng):
        def wrap(x):
            return xr.Dataset({"a": x, "b": x * 2}, attrs=dict(x.attrs))

        return rng.choice([self.dataarray, self.dataarray_weights])(rng, nrng, wrap)

    def refused(self, rng, nrng):
        e, kw = self.entry(rng)
        v = nrng.normal(size=size_of(e.gin))
        m = self.messages(rng, nrng, n=1)
        return rng.choice(
            [
                lambda: array_regrid(v, short(e.gin), {"grid": [3, 3]}, **kw),
                lambda: array_regrid(v[:-1], short(e.gin), short(e.gout), **kw),
                lambda: regrid(m, grid=short(e.gout), **kw),
                lambda: regrid([1, 2], grid={"grid": [10, 10]}),
                lambda: array_regrid(v[:-1], short(e.gin), {"grid": [10, 10]}),
                lambda: regrid(xr.DataArray(v, dims="q"), grid={"grid": [10, 10]}),
            ]
        )

    def references(self):
        for j in self.jobs:
            j.ref = run(j)
            C.count("refused_alone" if j.ref[0] == "error" else "alone")
            C.count("calls_" + j.what)
            again = run(j)
            C.check(again == j.ref, "not-repeatable", f"{j.what}: two calls alone give different results", what=j.what)


def describe(x):
    return str(x)[:200]


def judge(job, got, how, others):
    C.evaluate()
    C.count("compared_" + how)
    C.count("compared_kind_" + job.what)
    C.check(
        got == job.ref,
        f"{how}-differs",
        f"{job.what}: at the same time as others {describe(got)} instead of {describe(job.ref)}",
        what=job.what,
        others=others,
    )


def policy(rng):
    config.reset()
    config.set(POLICY, rng.choice(["off", "unlimited", "largest", "lru", "lru"]))
    config.set(MAX, rng.choice([1, 20_000, 1 << 20, 1 << 30]))


def threads():
    n = 0
    while n < pick(6, 500) and C.elapsed() < pick(35, 330):
        n += 1
        w = World(f"threads{n}")
        rng = w.rng
        policy(rng)
        w.references()
        for _ in range(pick(2, 4)):
            policy(rng)
            if rng.random() < 0.5:
                clear_memory_cache()
            team = Team()
            active, lock = {}, threading.Lock()

            def go(seed, count):
                r = __import__("random").Random(seed)
                me = threading.get_ident()
                for _ in range(count):
                    j = r.choice(w.jobs)
                    with lock:
                        active[me] = j
                        others = sorted({x.what for k, x in active.items() if k != me and x is not None})
                    got = run(j)
                    with lock:
                        active[me] = None
                    for o in others:
                        C.nontrivial(("threads", j.what, o))
                    judge(j, got, "threads", others)

            k = rng.randint(3, 8)
            for _ in range(k):
                d = Delays(rng.randrange(1 << 30), rng.choice([0.02, 0.2]), rng.choice([0, 0.005]), 0.001) if rng.random() < 0.6 else None
                team.add(go, rng.randrange(1 << 30), pick(12, 25), delays=d)
            with switch_interval(rng.choice([1e-6, 1e-4, 5e-3])):
                done = team.run(120)
            C.check(done, "threads-blocked", "threads that do not end", stacks=team.stacks() if not done else None)
            for e, tb in team.errors:
                raise RuntimeError(f"in a thread of the check: {tb}")
            C.count("teams")


def at_each_line():
    """A second call in another thread at each of some lines of the first"""
    n = 0
    while n < pick(12, 2000) and C.elapsed() < pick(65, 520):
        n += 1
        w = World(f"lines{n}")
        rng = w.rng
        policy(rng)
        chosen = rng.sample(w.jobs, 2)
        for j in w.jobs:
            if j in chosen:
                j.ref = run(j)
        first, second = chosen
        # also the same call twice, with fresh weights
        if rng.random() < 0.3:
            second = first
        k, step = 1, None
        while C.elapsed() < pick(65, 520):
            if rng.random() < 0.5:
                clear_memory_cache()
            lines, where, a, b, stuck = preempted(lambda: run(first), lambda: run(second), k, patience=1.0)
            if stuck:
                C.violation("lines-blocked", f"{first.what} and {second.what} at {where}", where=where)
                break
            if where is None:
                break
            C.count("preemptions")
            for job, r, o in ((first, a, second), (second, b, first)):
                if r[1] is not None:
                    raise r[1]
                judge(job, r[0], "lines", [o.what, where])
            C.nontrivial(("lines", first.what, second.what, where))
            step = step or max(1, lines // pick(12, 60))
            k += rng.randint(1, 2 * step - 1) if step > 1 else 1


def compute(da, kwargs, scheduler, context):
    d = fresh_dir("dask")
    src, dst = os.path.join(d, "in"), os.path.join(d, "out")
    with open(src, "wb") as f:
        pickle.dump((da, kwargs, scheduler, context), f)
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "dask_job.py")
    p = subprocess.run([sys.executable, here, src, dst], timeout=200, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if not os.path.exists(dst):
        raise RuntimeError(f"dask_job: {p.stderr[-1500:]!r}")
    with open(dst, "rb") as f:
        return pickle.load(f)


def schedulers():
    """Lazy objects computed by the schedulers of dask, also in other processes"""
    config.reset()
    w = World("schedulers")
    rng, nrng = w.rng, w.nrng
    os.chdir(w.dir)
    for n in range(pick(6, 40)):
        if C.elapsed() > pick(110, 630):
            break
        scheduler, context = [("processes", "spawn"), ("processes", "fork"), ("processes", "forkserver"), ("threads", None), ("sync", None)][n % 5]
        if n % 2 == 0:
            e, kw = w.entry(rng)
            da = w.array(rng, nrng, e.gin["shape"], short(e.gin))
            kw["grid"] = short(e.gout)
            if rng.random() < 0.5:
                kw["inventory"] = os.path.relpath(kw["inventory"])
        else:
            gin, sin = rng.choice(MIR_GRIDS)
            da = w.array(rng, nrng, sin, dict(gin))
            kw = dict(grid=dict(rng.choice(MIR_GRIDS)[0]), interpolation=rng.choice(INTERPOLATIONS))
        # the grid in the attributes of a lazy object is the one asked for
        ref = canon(regrid(da, **kw), attrs=False)
        lazy, attrs = da.chunk({"step": 1}), da.attrs
        C.evaluate()
        got, err = compute(lazy, kw, scheduler, context)
        case = dict(scheduler=scheduler, context=context, attrs=attrs, kwargs=kw)
        C.sample(case)
        if err is not None:
            C.violation("scheduler-failed", err, **case)
            continue
        C.count("schedulers")
        C.nontrivial(("scheduler", scheduler, context, n % 2))
        C.check(canon(got, attrs=False) == ref, "scheduler-differs", f"{scheduler} {context}: not the result of the same call without dask", **case)
    os.chdir(SCRATCH)


def processes():
    """Forked processes that start with what the parent has in memory"""
    for n in range(pick(2, 12)):
        if C.elapsed() > pick(130, 710):
            break
        w = World(f"processes{n}")
        rng = w.rng
        policy(rng)
        clear_memory_cache()
        w.references()
        plain = [j for j in w.jobs if not j.what.startswith("lazy")]

        def child(seed):
            r = __import__("random").Random(seed)
            bad = []
            for _ in range(20):
                j = r.choice(plain)
                got = run(j)
                bad.append((plain.index(j), got == j.ref, describe(got)))
            return bad

        kids = [Child(child, rng.randrange(1 << 30)) for _ in range(6)]
        if not wait(kids, 120):
            C.violation("processes-blocked", "a forked process does not end")
            continue
        for c in kids:
            if c.error:
                C.violation("process-failed", f"{c.error} {c.trace}")
                continue
            for i, ok, text in c.result:
                C.evaluate()
                C.count("compared_processes")
                C.nontrivial(("process", plain[i].what))
                C.check(ok, "processes-differs", f"{plain[i].what}: {text} instead of {describe(plain[i].ref)}", what=plain[i].what)


C.require(teams=6, compared_threads=400, preemptions=60, schedulers=4, compared_processes=100)
main(C, threads, at_each_line, schedulers, processes)
