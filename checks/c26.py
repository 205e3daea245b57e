"""C26: weights made from grids and points."""

import os
import resource
import shutil
import signal
import struct
import tempfile
import time

import matfile
import numpy as np
import procs
from harness import SCRATCH
from harness import Check
from harness import fresh_dir
from harness import main
from harness import outcome
from harness import pick
from scipy.sparse import coo_array
from scipy.sparse import load_npz

C = Check(
    "C26",
    "exploration",
    "Lists of coordinates (long, nearly equal, permuted, of several types) written as grid definitions and decoded independently; histories "
    "of calls in several processes sharing the cache of MIR, some killed or out of space while they write, some at the same time, with a "
    "monitor on what MIR is given, whose weights are compared with those that MIR, driven directly in a cache of its own, computes for "
    "the same points, with its results, and with the geometry. Non-trivial: distinct coordinate lists and distinct weights compared.",
    ["the independent decoder", "MIR computes the same weights for the same request in every process"],
)


# ---- grid definitions


def encode(lat, lon):
    b = [struct.pack("!BL", 10, 1), struct.pack("!BL", 10, len(lat))]
    for x in np.stack([lat, lon], axis=1).ravel():
        high, low = struct.unpack("!LL", struct.pack("!d", x))
        b.append(struct.pack("!BLL", 14, low, high))
    return b"".join(b)


def decode(b):
    """(lat, lon), or the reason why this is no grid definition"""
    if len(b) < 10:
        return "too short"
    tag1, version, tag2, count = struct.unpack_from("!BLBL", b)
    if (tag1, version, tag2) != (10, 1, 10):
        return f"starts with {tag1, version, tag2}"
    if len(b) != 10 + 18 * count:
        return f"{len(b)} bytes for {count} points"
    a = np.frombuffer(b, dtype=np.dtype([("t", "u1"), ("low", ">u4"), ("high", ">u4")]), offset=10)
    if not (a["t"] == 14).all():
        return "a value is no double"
    x = ((a["high"].astype(np.uint64) << np.uint64(32)) | a["low"]).view(np.float64)
    return x[0::2].copy(), x[1::2].copy()


def exact(x):
    return np.asarray([float(v) for v in x], dtype=np.float64)


def key(lat, lon):
    return exact(lat).tobytes() + b"/" + exact(lon).tobytes()


def read(path):
    with open(path, "rb") as f:
        return f.read()


def points(rng, nrng, n=None):
    if n is None:
        n = rng.choice([rng.randint(4, 12), rng.randint(12, 200), rng.randint(200, 900), rng.randint(1100, 2500)])
    kind = rng.choice(["sphere", "sphere", "even", "region", "rounded", "poles"])
    if kind == "region":
        s, w = rng.uniform(-80, 40), rng.uniform(-180, 300)
        lat, lon = nrng.uniform(s, s + 40, n), nrng.uniform(w, w + 60, n)
    elif kind == "even":
        i = np.arange(n) + 0.5
        lat = np.degrees(np.arcsin(1 - 2 * i / n))
        lon = (i * 180 * (1 + 5**0.5)) % 360
    else:
        lat = np.degrees(np.arcsin(nrng.uniform(-1, 1, n)))
        lon = nrng.uniform(0, 360, n) - rng.choice([0, 0, 180])
    if kind == "rounded":
        lat, lon = np.round(lat, 2), np.round(lon, 2)
    if kind == "poles":
        lat[0], lat[-1] = 90.0, -90.0
    return kind, lat, lon


def variant(rng, nrng, lat, lon):
    """Other points, hardly different"""
    lat, lon = lat.copy(), lon.copy()
    n = len(lat)
    i = rng.choice([n // 2, n // 2, rng.randrange(n), 0, n - 1])
    kind = rng.choice(["moved", "a little", "one bit", "swapped", "reversed", "fewer", "more", "float32", "rounded", "both", "turn", "lon"])
    if kind == "moved":
        lat[i] = lat[i] / 2 + 1
    elif kind == "lon":
        lon[i] += 1.5
    elif kind == "a little":
        lat[i] += (1 if lat[i] < 0 else -1) * 10.0 ** rng.randint(-10, -4)
    elif kind == "one bit":
        if rng.random() < 0.5:
            lon[i] = np.nextafter(lon[i], 400)
        else:
            lat[i] = np.nextafter(lat[i], 0)
    elif kind == "swapped":
        j = (i + 1) % n
        lat[[i, j]], lon[[i, j]] = lat[[j, i]], lon[[j, i]]
    elif kind == "reversed":
        lat, lon = lat[::-1].copy(), lon[::-1].copy()
    elif kind == "fewer":
        lat, lon = np.delete(lat, i), np.delete(lon, i)
    elif kind == "more":
        lat, lon = np.append(lat, rng.uniform(-80, 80)), np.append(lon, rng.uniform(0, 180))
    elif kind == "float32":
        lat, lon = exact(lat.astype(np.float32)), exact(lon.astype(np.float32))
    elif kind == "rounded":
        lat, lon = np.round(lat, 7), np.round(lon, 7)
    elif kind == "both":
        # the same set of values, in other points
        lat[[0, -1]] = lat[[-1, 0]]
    elif kind == "turn":
        lon[i] += 360
    return kind, lat, lon


def typed(rng, x):
    kinds = ["array", "array", "list", "tuple", "numpy list"]
    if np.array_equal(x, x.astype(np.float32)):
        kinds += ["float32"] * 4
    if np.array_equal(x, np.round(x)):
        kinds += ["int"] * 4
    k = rng.choice(kinds)
    if k == "list":
        return [float(v) for v in x]
    if k == "tuple":
        return tuple(float(v) for v in x)
    if k == "numpy list":
        return list(x)
    if k == "float32":
        return x.astype(np.float32)
    if k == "int":
        return [int(v) for v in x]
    if rng.random() < 0.3:
        return np.repeat(x, 2)[::2]
    return x.copy()


def definitions():
    from earthkit.regrid.utils.mir import mir_write_latlon_to_griddef

    rng = C.rng("definitions")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    p = os.path.join(fresh_dir("def"), "x.griddef")
    for i in range(pick(150, 1500)):
        kind, lat, lon = points(rng, nrng, rng.choice([None, None, 1, 2, 3]))
        if rng.random() < 0.3:
            lat, lon = np.round(lat), np.round(lon)
        if rng.random() < 0.3:
            lat, lon = exact(lat.astype(np.float32)), exact(lon.astype(np.float32))
        if rng.random() < 0.3:
            for v in (0.0, -0.0, 5e-324, -1e-300, 1 / 3, 89.99999999999999):
                (lat if rng.random() < 0.5 else lon)[rng.randrange(len(lat))] = v
        C.evaluate()
        a, b = typed(rng, lat), typed(rng, lon)
        case = dict(kind=kind, n=len(lat), types=(type(a).__name__, type(b).__name__))
        _, err = outcome(mir_write_latlon_to_griddef, p, a, b)
        if err is not None:
            C.violation("not-written", f"{err!r}", **case)
            continue
        got = decode(read(p))
        if isinstance(a, list) and all(isinstance(v, int) for v in a):
            lat = lat + 0.0  # -0.0 is no integer
        if isinstance(b, list) and all(isinstance(v, int) for v in b):
            lon = lon + 0.0
        if isinstance(got, str):
            C.violation("no-definition", got, **case)
            continue
        ok = got[0].tobytes() == lat.tobytes() and got[1].tobytes() == lon.tobytes()
        C.check(ok, "other-points", "the definition does not hold the given coordinates", **case)
        C.count("definitions")
        C.nontrivial(("definition", hash(key(lat, lon))))
    for a, b in (([], []), ([1.0], []), ([], [1.0]), ([1.0, 2.0], [1.0]), (np.zeros(0), np.zeros(0)), (np.zeros(5), [1.0] * 6)):
        _, err = outcome(mir_write_latlon_to_griddef, p, a, b)
        C.evaluate()
        C.check(err is not None, "inconsistent-accepted", f"{len(a)} latitudes and {len(b)} longitudes are written")
        C.count("definitions_refused")


# ---- MIR, watched


class Watch:
    """What MIR is given. Installed in child processes only."""

    def __init__(self, run=True):
        import mir

        watch = self
        self.seen, self.executed = [], 0
        Job, GriddefInput = mir.Job, mir.GriddefInput

        class WatchedJob:
            def __init__(self, *args, **kwargs):
                self.job = Job(*args, **kwargs)
                self.files = []

            def set(self, k, v):
                if k == "griddef":
                    self.files.append(("out", v))
                self.job.set(k, v)
                return self

            def execute(self, inp, out):
                watch.executed += 1
                files = self.files + ([("in", watch.inputs[id(inp)][1])] if id(inp) in watch.inputs else [])
                watch.seen.append({side: os.fspath(p) for side, p in files})
                watch.now = {}
                for side, p in files:
                    got = decode(read(p))
                    watch.now[side] = got
                if not run:
                    return
                return self.job.execute(inp, out)

            def __getattr__(self, name):
                return getattr(self.job, name)

        self.inputs = {}
        self.now = None

        def griddef_input(path, *args, **kwargs):
            x = GriddefInput(path, *args, **kwargs)
            self.inputs[id(x)] = (x, path)
            return x

        mir.Job, mir.GriddefInput = WatchedJob, griddef_input


def grid_args(case):
    """The arguments, and the points as they must arrive"""
    args = {}
    for side in ("in", "out"):
        g = case[side]
        if isinstance(g, dict):
            args[f"{side}_grid"] = g
        else:
            args[f"{side}_lat"], args[f"{side}_lon"] = g
    return args


def save(path, z):
    c = z.tocoo()
    r, k = c.coords if hasattr(c, "coords") else (c.row, c.col)
    np.savez(path, shape=z.shape, r=r, c=k, v=c.data)


def load(path):
    with np.load(path) as f:
        return coo_array((f["v"], (f["r"], f["c"])), shape=tuple(f["shape"]))


def make(cases, cache, out, barrier=None):
    """Makes the weights of the cases with the code under test. Returns a report for each."""
    os.environ["MIR_CACHE_PATH"] = cache
    from earthkit.regrid.utils.mir import mir_make_matrix

    watch = Watch()
    reports = []
    if barrier is not None:
        while not os.path.exists(barrier):
            time.sleep(0.0005)
    for i, case in enumerate(cases):
        ext = case["output"]
        d = case.get("dir") or out
        target = None if ext is None else os.path.join(d, f"w{os.getpid()}-{i}{ext}")
        if case.get("existing") and target:
            with open(target, "wb") as f:
                f.write(b"x" * 5000000)
        given = target
        if target and case.get("path"):
            import pathlib

            given = pathlib.Path(target)
        elif target and case.get("relative"):
            os.chdir(d)
            given = os.path.basename(target)
        watch.now = None
        r = {}
        res, err = outcome(mir_make_matrix, output=given, **grid_args(case), **case["options"])
        if err is not None:
            r["error"] = f"{type(err).__name__}: {err}"[:400]
            r["left"] = bool(target) and os.path.exists(target)
        else:
            path = os.path.join(out, f"got{os.getpid()}-{i}.npz")
            try:
                if target is None:
                    z = res
                elif ext == ".npz":
                    z = load_npz(target)
                else:
                    shape, rr, cc, vv = matfile.decode(read(target))
                    z = coo_array((vv, (rr, cc)), shape=shape)
                save(path, z)
                r["path"] = path
            except Exception as e:
                r["error"] = f"the output is not readable: {type(e).__name__}: {e}"[:400]
        if target and os.path.exists(target):
            os.unlink(target)
        r["given"] = {}
        for side in ("in", "out"):
            if not isinstance(case[side], dict):
                got = (watch.now or {}).get(side)
                want = key(*case[side])
                r["given"][side] = got if got is None or isinstance(got, str) else key(*got) == want
        reports.append(r)
    return reports


def reference(cases, cache, out):
    """The weights of the cases from MIR itself, and its results for a field"""
    os.environ["MIR_CACHE_PATH"] = cache
    import json

    import mir

    reports = []
    for i, case in enumerate(cases):
        r = {}
        try:
            job = mir.Job()
            for k, v in case["options"].items():
                job.set(k, v)
            gin, gout = case["in"], case["out"]
            if isinstance(gout, dict):
                job.set("grid", dict(gout))
            else:
                p = os.path.join(out, f"out{i}.def")
                with open(p, "wb") as f:
                    f.write(encode(*map(exact, gout)))
                job.set("griddef", p)
            mat = os.path.join(out, f"ref{i}.mat")
            job.set("interpolation-matrix", mat)
            if isinstance(gin, dict):
                g = dict(gin)
                if "area" in g:
                    g["area"] = "/".join(str(x) for x in g["area"])
                n = len(mir.Grid(**g).to_latlons()[0])
                values = np.random.default_rng(n).normal(size=n)
                array = mir.ArrayOutput()
                if "area" in gin:
                    job.execute(mir.GridSpecInput(json.dumps(gin)), mir.EmptyOutput())
                else:
                    job.execute(mir.ArrayInput(values, dict(gin)), array)
                    r["values"] = os.path.join(out, f"values{i}.npy")
                    np.save(r["values"], np.array(array.values()))
            else:
                p = os.path.join(out, f"in{i}.def")
                with open(p, "wb") as f:
                    f.write(encode(*map(exact, gin)))
                job.execute(mir.GriddefInput(p), mir.EmptyOutput())
            if os.path.exists(mat):
                r["path"] = mat
            else:
                r["unknown"] = True
        except Exception as e:
            r["error"] = f"{type(e).__name__}: {e}"[:400]
        reports.append(r)
    return reports


def grid_points(grids):
    import mirtools

    res = []
    for g in grids:
        lat, lon, _ = mirtools.points(g)
        res.append((lat.tolist(), lon.tolist()))
    return res


def xyz(lat, lon):
    a, o = np.radians(lat), np.radians(lon)
    return np.stack([np.cos(a) * np.cos(o), np.cos(a) * np.sin(o), np.sin(a)], axis=1)


GRIDS = [
    {"grid": [10, 10]},
    {"grid": [15, 20]},
    {"grid": [7.5, 7.5]},
    {"grid": "O8"},
    {"grid": "O16"},
    {"grid": "N16"},
    {"grid": "H4"},
    {"grid": "H4", "order": "nested"},
    {"grid": "H8", "order": "nested"},
    {"grid": "F8"},
]
AREAS = [{"grid": [10, 10], "area": [60, 0, 20, 80]}, {"grid": [5, 5], "area": [80, 10, -20, 60]}]
OPTIONS = [
    {"interpolation": "linear"},
    {"interpolation": "linear"},
    {"interpolation": "nearest-neighbour"},
    {"interpolation": "nearest-neighbour"},
    {"interpolation": "bilinear"},
    {"interpolation": "k-nearest", "nearest-method": "nclosest", "nclosest": 3},
    {"interpolation": "k-nearest", "nearest-method": "distance", "distance": 2500000.0},
    {},
]
KNOWN = {}


def geometry(case, z, bad):
    """The weights against the positions of the points"""
    sides = {}
    for side in ("in", "out"):
        g = case[side]
        sides[side] = KNOWN[repr(g)] if isinstance(g, dict) else tuple(map(exact, g))
    if z.shape[1] != len(sides["in"][0]) or z.shape[0] != len(sides["out"][0]):
        C.check(isinstance(case["out"], dict) and not isinstance(case["in"], dict), *bad("shape", f"{z.shape}"))
        return
    a, b = xyz(*sides["in"]), xyz(*sides["out"])
    m = case["options"].get("interpolation")
    if m == "nearest-neighbour":
        z = z.tocsr()
        ok = bool((np.diff(z.indptr) == 1).all() and (z.data == 1).all())
        if C.check(ok, *bad("nearest-weights", "not one value of weight 1 for each point")):
            d = np.linalg.norm(b[:, None] - a[None], axis=2) if len(a) * len(b) < 2000000 else None
            if d is not None:
                got = np.linalg.norm(a[z.indices] - b, axis=1)
                C.check((got <= d.min(axis=1) + 1e-6).all(), *bad("not-nearest", "a nearer point exists"))
                C.count("geometry_nearest")
    elif m == "linear" and len(a) >= 50:
        z = z.tocsr()
        rows = np.flatnonzero((np.diff(z.indptr) > 0) & (abs(sides["out"][0]) < 75))
        if len(rows) < 50:
            return
        s = np.asarray(z.sum(axis=1)).ravel()[rows]
        C.check(np.allclose(s, 1, atol=1e-6), *bad("weights-sum", f"{s.min()} {s.max()}"))
        r = (z @ a)[rows]
        norm = np.linalg.norm(r, axis=1, keepdims=True)
        ok = (norm[:, 0] > 1e-3) & (np.linalg.norm(r / np.maximum(norm, 1e-9) - b[rows], axis=1) < 0.02)
        C.check(np.mean(ok) > 0.98, *bad("other-positions", f"{np.mean(ok)} of the weights are those of the position"))
        C.count("geometry_linear")


def judge(cases, got, ref, label):
    """got and ref: the reports for the cases"""
    for case, g, r in zip(cases, got, ref):
        C.evaluate()
        brief = {
            s: case[s] if isinstance(case[s], dict) else f"{len(case[s][0])} points ({case['what']}) {type(case[s][0]).__name__}"
            for s in ("in", "out")
        }
        brief.update(options=case["options"], output=case["output"], history=label)

        def bad(k, text):
            return k, f"{text} {brief}"

        for side, x in g["given"].items():
            if x is None:
                if g.get("error") is None:
                    C.check(False, *bad("not-observed", f"MIR is not given the {side} points"))
                continue
            C.count("watched")
            if isinstance(x, str):
                C.violation(*bad("no-definition", f"MIR is given a file which is no definition: {x}"))
            else:
                C.check(x, *bad("other-points", f"MIR is given other {side} points"))
        if "error" in r:
            C.count("mir_refused")
            C.check("error" in g, *bad("accepted", f"MIR refuses: {r['error']}"))
            if g.get("left"):
                C.check(case.get("existing"), *bad("output-left", "an output of weights that could not be made"))
            continue
        if "unknown" in r:
            C.count("kept_in_memory")
            continue
        if "error" in g:
            C.violation(*bad("fails", g["error"]))
            continue
        want = matfile.elements(*matfile.decode(read(r["path"])))
        z = load(g["path"])
        os.unlink(g["path"])
        have = matfile.elements_of(z)
        C.count("compared")
        if not C.check(have == want, *bad("wrong-weights", f"{have[0]} instead of {want[0]}")):
            continue
        C.count("compared_" + "".join("g" if isinstance(case[s], dict) else "p" for s in ("in", "out")))
        C.count(f"output_{case['output']}")
        C.nontrivial(("weights", hash((want[0], want[3], str(want[2])))))
        C.sample(brief)
        if "values" in r:
            v = np.load(r["values"]).ravel()
            n = z.shape[1]
            res = z @ np.random.default_rng(n).normal(size=n)
            C.check(np.shape(v) == np.shape(res) and np.allclose(v, res, rtol=1e-9, atol=1e-9, equal_nan=True), *bad("unlike-mir", "the product is not the result of MIR"))
            C.count("results_compared")
        if case.get("geometry", True) and not any("area" in case[s] for s in ("in", "out") if isinstance(case[s], dict)):
            geometry(case, z, bad)


def new_case(rng, gin, gout, what, other=None):
    output = rng.choice([None, ".npz", ".npz", ".mat"])
    return {
        "in": gin,
        "out": gout,
        "what": what,
        "options": dict(rng.choice(OPTIONS)),
        "output": output,
        "existing": rng.random() < 0.2,
        "path": rng.random() < 0.4,
        "relative": rng.random() < 0.3,
        "dir": other if rng.random() < 0.3 else None,
    }


def ident(case):
    return tuple(
        [repr(case[s]) if isinstance(case[s], dict) else key(*case[s]) for s in ("in", "out")] + [repr(case["options"] or OPTIONS[0])]  # linear is what MIR does by default
    )


def other_device():
    d = "/dev/shm"
    try:
        if os.stat(d).st_dev != os.stat(SCRATCH).st_dev:
            return tempfile.mkdtemp(prefix="verif-c26-", dir=d)
    except OSError:
        pass
    return None


def family(rng, nrng, n):
    kind, lat, lon = points(rng, nrng)
    lists = [(kind, lat, lon)]
    seen = {key(lat, lon)}
    while len(lists) < n:
        _, a, b = rng.choice(lists)
        k, a, b = variant(rng, nrng, a, b)
        if key(a, b) in seen:
            k = "again"
            if rng.random() < 0.7:
                continue
        seen.add(key(a, b))
        lists.append((k, a, b))
    return lists


def cases_of(rng, nrng, n, other):
    """Calls with few, hardly different, lists of points"""
    lists = family(rng, nrng, max(3, n // 2))
    fixed = dict(rng.choice(OPTIONS))
    grid = rng.choice(GRIDS)
    cases, seen = [], set()
    for i in range(n * 3):
        if len(cases) >= n:
            break
        k, a, b = rng.choice(lists)
        p = (typed(rng, a), typed(rng, b))
        g = grid if rng.random() < 0.6 else rng.choice(GRIDS + AREAS)
        x = rng.random()
        if x < 0.4:
            case = new_case(rng, g, p, k, other)
        elif x < 0.7:
            case = new_case(rng, p, g, k, other)
        elif x < 0.85:
            k2, a2, b2 = rng.choice(lists)
            case = new_case(rng, p, (typed(rng, a2), typed(rng, b2)), f"{k}, {k2}", other)
        else:
            case = new_case(rng, g, rng.choice(GRIDS + AREAS), "", other)
            if rng.random() < 0.3 and not any("area" in case[s] for s in ("in", "out")):
                # (with sub-areas, these depend on how MIR is told the grid)
                case["options"] = {"interpolation": "grid-box-average"}
        if rng.random() < 0.6 and "" != case["what"]:
            case["options"] = dict(fixed)
        if ident(case) in seen or (isinstance(case["in"], dict) and case["in"] == case["out"]):
            continue
        seen.add(ident(case))
        cases.append(case)
    return cases


def run(jobs, timeout=200):
    """Child processes, a few at a time; their results in order"""
    res = [None] * len(jobs)
    left = list(enumerate(jobs))
    active = []
    end = time.time() + timeout
    while left or active:
        while left and len(active) < 7:
            i, (f, *args) = left.pop(0)
            active.append((i, procs.Child(f, *args)))
        for i, c in list(active):
            if c.poll():
                res[i] = c
                active.remove((i, c))
            elif time.time() > end:
                c.hung = True
                c.kill()
                res[i] = c
                active.remove((i, c))
        time.sleep(0.002)
    return res


def definitions_in(cache, allowed, label):
    """The grid definitions left in the cache"""
    for root, _, names in os.walk(cache):
        for f in names:
            if f.endswith(".griddef"):
                got = decode(read(os.path.join(root, f)))
                C.count("definitions_kept")
                if isinstance(got, str):
                    C.violation("damaged-definition", f"a definition in the cache: {got}", history=label)
                else:
                    C.check(key(*got) in allowed, "unknown-definition", "a definition in the cache is not that of points used", history=label)


def keys(cases):
    return {key(*c[s]) for c in cases for s in ("in", "out") if not isinstance(c[s], dict)}


def known_grids():
    c = procs.call(grid_points, GRIDS + AREAS)
    assert c.result, (c.error, c.trace)
    for g, p in zip(GRIDS + AREAS, c.result):
        KNOWN[repr(g)] = tuple(np.array(x) for x in p)


def histories():
    """Calls in processes after each other, sharing the cache"""
    rng = C.rng("histories")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    known_grids()
    other = other_device()
    t0 = C.elapsed()
    try:
        plans = []
        for i in range(pick(40, 600)):
            cases = cases_of(rng, nrng, rng.randint(4, 12), other)
            d = fresh_dir("hist")
            cache = os.path.join(d, "cache")
            if other and i % 4 == 1:
                # the cache, and not the temporary directory, is on another device
                cache = tempfile.mkdtemp(prefix="cache", dir=other)
                C.count("cache_elsewhere")
            plans.append((cases, d, cache))
        batch = 40
        for k in range(0, len(plans), batch):
            if C.elapsed() - t0 > pick(60, 300):
                break
            part = plans[k : k + batch]
            jobs = []
            for cases, d, cache in part:
                for sub in ("cache", "refcache", "out", "ref"):
                    os.makedirs(os.path.join(d, sub))
                jobs.append((reference, cases, os.path.join(d, "refcache"), os.path.join(d, "ref")))
                jobs.append((sequence, cases, cache, os.path.join(d, "out"), rng.random()))
            done = run(jobs)
            for j, (cases, d, cache) in enumerate(part):
                r, g = done[2 * j], done[2 * j + 1]
                assert r.result is not None, (r.error, r.trace)
                if g.result is None:
                    C.violation("process-ends", f"the process making weights: {g.error} {g.trace}")
                    continue
                for n, reports in enumerate(g.result):
                    judge(cases, reports, r.result, f"history, process {n}")
                C.count("histories")
                definitions_in(cache, keys(cases), "history")
    finally:
        if other:
            C.count("other_device")
            shutil.rmtree(other)


def sequence(cases, cache, out, seed):
    """The same calls in two or three new processes after each other, in another order"""
    import random

    rng = random.Random(seed)
    res = []
    for n in range(rng.choice([1, 2, 2, 3])):
        order = list(range(len(cases)))
        if n:
            rng.shuffle(order)
        c = procs.call(make, [cases[i] for i in order], cache, out, timeout=150)
        if c.result is None:
            raise RuntimeError(f"{c.error} {c.trace}")
        reports = [None] * len(cases)
        for i, r in zip(order, c.result):
            reports[i] = r
        res.append(reports)
    return res


# ---- interrupted and simultaneous processes


def interrupted(case, cache, out, limit, kill):
    """Ends, or fails, when a file grows beyond the limit"""
    os.environ["MIR_CACHE_PATH"] = cache
    from earthkit.regrid.utils.mir import mir_make_matrix

    import mir

    mir.cache()
    Watch(run=False)
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
    try:
        _, err = outcome(mir_make_matrix, **grid_args(case), **case["options"])
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
    return type(err).__name__


def faults():
    rng = C.rng("faults")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    t0 = C.elapsed()
    for i in range(pick(14, 200)):
        if C.elapsed() - t0 > pick(40, 150):
            break
        d = fresh_dir("fault")
        for sub in ("cache", "refcache", "out", "ref"):
            os.makedirs(os.path.join(d, sub))
        cases = cases_of(rng, nrng, rng.randint(3, 6), None)
        cache = os.path.join(d, "cache")
        for case in cases:
            for side in ("in", "out"):
                if isinstance(case[side], dict):
                    continue
                size = 10 + 18 * len(case[side][0])
                limit = rng.choice([0, 1, 10, 28, size // 2, size // 2 + 7, size - 18, size - 1, rng.randrange(size)])
                kill = rng.random() < 0.5
                c = procs.call(interrupted, case, cache, d, limit, kill, timeout=60)
                if c.status == -signal.SIGXFSZ:
                    C.count("killed_writing")
                elif c.result == "OSError":
                    C.count("disk_full")
                else:
                    C.count("not_interrupted")
                definitions_in(cache, keys(cases), f"interrupted after {limit} bytes, killed: {kill}")
        r, g = run([(reference, cases, os.path.join(d, "refcache"), os.path.join(d, "ref")), (make, cases, cache, os.path.join(d, "out"))])
        assert r.result is not None, (r.error, r.trace)
        if g.result is None:
            C.violation("process-ends", f"the process making weights: {g.error} {g.trace}")
            continue
        judge(cases, g.result, r.result, "after an interruption")
        C.count("fault_histories")


def together():
    """Processes making weights for the same points at the same time"""
    rng = C.rng("together")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    t0 = C.elapsed()
    for i in range(pick(6, 60)):
        if C.elapsed() - t0 > pick(40, 150):
            break
        d = fresh_dir("together")
        for sub in ("cache", "refcache", "out", "ref"):
            os.makedirs(os.path.join(d, sub))
        kind, lat, lon = points(rng, nrng, rng.choice([500, 3000, 8000]))
        p, q = (lat, lon), variant(rng, nrng, lat, lon)[1:]
        g = rng.choice(GRIDS)
        cases = []
        for pts in (p, q):
            cases.append(new_case(rng, g, pts, kind))
            cases[-1]["options"] = {"interpolation": rng.choice(["linear", "nearest-neighbour"])}
            cases[-1]["geometry"] = False
        cache = os.path.join(d, "cache")
        r = run([(reference, cases, os.path.join(d, "refcache"), os.path.join(d, "ref"))])[0]
        assert r.result is not None, (r.error, r.trace)
        barrier = os.path.join(d, "go")
        children = [procs.Child(make, cases if n % 2 else cases[::-1], cache, os.path.join(d, "out"), barrier) for n in range(6)]
        time.sleep(0.3)
        with open(barrier, "w"):
            pass
        procs.wait(children, 120)
        for n, c in enumerate(children):
            if c.result is None:
                C.violation("process-ends", f"the process making weights: {c.error} {c.trace}")
                continue
            judge(cases, c.result if n % 2 else c.result[::-1], r.result, "processes at the same time")
            C.count("simultaneous")
        definitions_in(cache, keys(cases), "processes at the same time")


# ---- refusals


def refused(cache, d):
    """Requests that make no sense. Returns the accepted ones."""
    os.environ["MIR_CACHE_PATH"] = cache
    from earthkit.regrid.utils.mir import mir_make_matrix

    watch = Watch()
    nrng = np.random.default_rng(3)
    lat, lon = points(__import__("random").Random(2), nrng, 60)[1:]
    grid = {"grid": [10, 10]}
    ok = {"in": [("grid", grid), ("points", (lat, lon))], "out": [("grid", {"grid": "O8"}), ("points", (lat[::-1].copy(), lon))]}
    wrong = {
        "nothing": (None, None, None),
        "no longitudes": (None, lat, None),
        "no latitudes": (None, None, lon),
        "grid and points": (grid, lat, lon),
        "grid and latitudes": (grid, lat, None),
        "grid and longitudes": (grid, None, lon),
        "one latitude missing": (None, lat[1:], lon),
        "one longitude missing": (None, lat, lon[:-1]),
        "lists, one missing": (None, list(lat), list(lon)[1:]),
        "one latitude": (None, lat[:1], lon),
        "one longitude": (None, lat, [5.0]),
        "empty": (None, [], []),
        "empty arrays": (None, lat[:0], lon[:0]),
        "no latitude": (None, [], lon),
        "twice": (None, np.concatenate([lat, lat]), lon),
    }
    accepted, n = [], 0

    def attempt(what, target, **args):
        nonlocal n
        n += 1
        before = watch.executed
        res, err = outcome(mir_make_matrix, output=target, interpolation="linear", **args)
        if err is None:
            accepted.append(f"{what}: {type(res).__name__}")
        elif watch.executed != before:
            accepted.append(f"{what}: MIR is asked all the same")
        elif target and os.path.exists(target):
            accepted.append(f"{what}: an output is written")

    for side in ("in", "out"):
        other = "out" if side == "in" else "in"
        for name, (g, a, o) in wrong.items():
            for kind, x in ok[other]:
                args = {f"{side}_grid": g, f"{side}_lat": a, f"{side}_lon": o}
                if kind == "grid":
                    args[f"{other}_grid"] = x
                else:
                    args[f"{other}_lat"], args[f"{other}_lon"] = x
                for target in (None, os.path.join(d, "x.npz"), os.path.join(d, "x.mat")):
                    attempt(f"{side}: {name}, {other}: {kind}", target, **args)
    for name in ("x", "x.txt", "x.npz.bak", "x.mat.gz", "x.np", "npz", ".npz ", "x.matrix"):
        attempt(f"output {name}", os.path.join(d, name), in_grid=grid, out_grid={"grid": "O8"})
    z, err = outcome(mir_make_matrix, in_grid=grid, out_grid={"grid": "O8"}, interpolation="linear")
    if err is not None:
        accepted.append(f"a good request fails: {err!r}")
    left = sorted(os.listdir(d))
    if left:
        accepted.append(f"left: {left}")
    return dict(accepted=accepted, n=n, good=err is None)


def refusals():
    d, cache = fresh_dir("refused"), fresh_dir("cache")
    c = procs.call(refused, cache, d, timeout=100)
    if c.result is None:
        C.violation("process-ends", f"{c.error} {c.trace}")
        return
    C.evaluate(c.result["n"])
    C.count("refusals", c.result["n"] - len(c.result["accepted"]))
    for x in c.result["accepted"]:
        C.violation("accepted", x)
    for root, _, names in os.walk(cache):
        for f in names:
            if f.endswith(".griddef"):
                got = decode(read(os.path.join(root, f)))
                C.check(not isinstance(got, str), "damaged-definition", f"after a refusal: {got}")


C.require(
    definitions=100,
    definitions_refused=4,
    histories=15,
    watched=80,
    compared=80,
    compared_gp=20,
    compared_pg=15,
    compared_pp=5,
    compared_gg=3,
    results_compared=15,
    geometry_nearest=10,
    geometry_linear=10,
    output_None=8,
    **{"output_.npz": 8, "output_.mat": 8},
    killed_writing=5,
    disk_full=5,
    fault_histories=5,
    simultaneous=12,
    refusals=100,
)
main(C, refusals, definitions, histories, faults, together)
