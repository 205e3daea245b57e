"""C25: weight files of MIR, and inventories built from them."""

import contextlib
import io
import json
import os
import resource
import signal

import matfile
import mir
import mirtools
import numpy as np
from harness import Check
from harness import fresh_dir
from harness import main
from harness import outcome
from harness import pick
from inventory import GRIDBOX_DEFAULT
from inventory import apply
from inventory import classic
from inventory import grid_pool
from inventory import healpix
from inventory import ll
from inventory import octahedral
from inventory import random_weights
from inventory import same
from inventory import short
from inventory import size_of
from inventory import spelled
from scipy.sparse import csr_matrix
from scipy.sparse import load_npz
from scipy.sparse import save_npz

from earthkit.regrid import clear_memory_cache
from earthkit.regrid import config
from earthkit.regrid.array import regrid
from earthkit.regrid.utils.builder import make_matrix
from earthkit.regrid.utils.mir import mir_cached_matrix_to_array
from earthkit.regrid.utils.mir import mir_cached_matrix_to_file

config.autosave = False

C = Check(
    "C25",
    "exploration",
    "Random matrices in every byte order and value size, and weight files of MIR, converted in memory and to files and compared with an "
    "independent decoding; the files truncated at each byte and made inconsistent in many ways; histories of additions to an inventory "
    "(new, repeated, with other settings, failing, with a full disk), after each of which the index, the files and the results are judged; "
    "and weights of MIR added to an inventory compared with MIR. Non-trivial: distinct matrices, malformed files, additions and results compared.",
    ["the independent decoder", "numpy arithmetic", "the description of the weights has the form of the current builder"],
)


def quiet(f, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return outcome(f, *args, **kwargs)


def random_matrix(rng, nrng):
    kind = rng.choice(["plain", "plain", "plain", "empty", "no rows", "one", "big", "full", "wide", "tall"])
    rows, cols = rng.randint(1, 40), rng.randint(1, 40)
    density = rng.random()
    if kind == "empty":
        density = 0
    elif kind == "no rows":
        rows = 0
    elif kind == "one":
        rows = cols = 1
    elif kind == "big":
        rows, cols, density = rng.randint(1000, 3000), rng.randint(1000, 70000), 2.5 / 1000
        m = random_weights(nrng, rows, cols)
        return kind, m.shape, m.indptr, m.indices, m.data
    elif kind == "full":
        density = 1
    elif kind == "wide":
        rows, cols = rng.randint(1, 3), rng.randint(200, 70000)
        density = 300 / cols if cols > 300 else 1
    elif kind == "tall":
        rows, cols = rng.randint(200, 3000), rng.randint(1, 3)
    mask = nrng.random((rows, cols)) < density
    counts = mask.sum(axis=1) if rows else np.zeros(0, int)
    indptr = np.concatenate([[0], np.cumsum(counts)]).astype(int)
    indices = np.nonzero(mask)[1]
    if rng.random() < 0.4:
        # the columns of a row need not be in order
        for r in range(rows):
            nrng.shuffle(indices[indptr[r] : indptr[r + 1]])
    data = nrng.normal(size=len(indices)) * 10.0 ** nrng.integers(-8, 9, size=len(indices))
    special = rng.choice(["none", "none", "special", "ints"])
    if special == "special" and len(data):
        for x in (np.nan, np.inf, -np.inf, 5e-324, 1e-45, 1e308, 0.0, -0.0, 1.0, 1 / 3):
            data[nrng.integers(0, len(data))] = x
    elif special == "ints":
        data = np.round(data)
    return kind, (rows, cols), indptr, indices, data


def write(path, b):
    with open(path, "wb") as f:
        f.write(b)
    return path


def decoding():
    rng = C.rng("decoding")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    d = fresh_dir("mat")
    t0 = C.elapsed()
    for i in range(pick(500, 20000)):
        if C.elapsed() - t0 > pick(6, 150):
            break
        kind, shape, indptr, indices, data = random_matrix(rng, nrng)
        little, scalar = rng.random() < 0.5, rng.choice([8, 8, 4])
        with np.errstate(all="ignore"):
            b = matfile.encode(shape, indptr, indices, data, little=little, scalar=scalar, size_size=rng.choice([4, 8]))
        if little and rng.random() < 0.3:
            b = matfile.encode(shape, indptr, indices, data, little=True, scalar=scalar, little_flag=rng.choice([1, 255, 1 << 24]))
        want = matfile.elements(*matfile.decode(b))
        case = dict(kind=kind, shape=shape, nnz=len(data), little=little, scalar=scalar)
        judge_file(d, b, want, case)


OPERATIONS = {
    "product": lambda z, v: z @ v,
    "sums": lambda z, v: z.sum(axis=1),
    "transpose": lambda z, v: z.T @ np.ones(z.shape[0]),
    "scaled": lambda z, v: (2 * z) @ v,
    "columns": lambda z, v: z.tocsc() @ v,
    "rows": lambda z, v: z[::-1] @ v,
    "copy": lambda z, v: z.copy() @ v,
    "sorted": lambda z, v: (z.sort_indices(), z @ v)[1],
}


def usable(z, want, case):
    """A matrix in memory can be used as any other"""
    shape, rows, cols, values = want
    values = np.frombuffer(values)
    if not np.isfinite(values).all() or (abs(values) > 1e200).any():
        return
    ref = csr_matrix((values, (rows, cols)), shape=shape)
    v = np.arange(1.0, shape[1] + 1)
    for name, f in OPERATIONS.items():
        got, err = outcome(f, z, v)
        if err is not None:
            C.violation("not-usable", f"{name} of the matrix in memory: {err!r}", **case)
            continue
        a, b = np.asarray(got).ravel(), np.asarray(f(ref, v)).ravel()
        size = np.asarray(f(abs(ref), v)).ravel()
        ok = a.shape == b.shape and (abs(a - b) <= 1e-4 * size).all()
        C.check(ok, "wrong-operation", f"{name} of the matrix in memory is wrong", **case)
        C.count("operations")


def judge_file(d, b, want, case):
    C.evaluate()
    p, target = os.path.join(d, "m.mat"), os.path.join(d, "m.npz")
    write(p, b)
    z, err = outcome(mir_cached_matrix_to_array, p)
    if err is not None:
        return C.violation("not-decoded", f"{err!r}", **case)
    got, err = outcome(matfile.elements_of, z)
    C.check(got == want, "wrong-weights", f"the matrix is not the encoded one {err or ''}", **case, how="memory")
    usable(z, want, case)
    _, err = outcome(mir_cached_matrix_to_file, p, target)
    if err is not None:
        return C.violation("not-converted", f"{err!r}", **case)
    y, err = outcome(load_npz, target)
    if err is not None:
        return C.violation("not-converted", f"the file cannot be read: {err!r}", **case)
    C.check(matfile.elements_of(y) == want, "wrong-weights", "the matrix is not the encoded one", **case, how="file")
    os.unlink(target)
    # the weights are usable
    v = np.arange(1.0, y.shape[1] + 1)
    if np.isfinite(np.frombuffer(want[3])).all():
        got, err = outcome(lambda: y @ v)
        ok = err is None and same(got, *apply(csr_matrix((np.frombuffer(want[3]), (want[1], want[2])), shape=want[0]), v), rtol=1e-5)
        C.check(ok, "wrong-product", f"the product with the matrix is wrong: {err!r}", **case)
    C.count("decoded")
    C.count("decoded_little" if case.get("little", True) else "decoded_big")
    C.nontrivial(("matrix", str(want)[:300]))


def mir_files():
    """What MIR itself writes"""
    rng = C.rng("mir")
    d = fresh_dir("mir")
    grids = [g for g, _ in mirtools.GRIDS]
    for i in range(pick(20, 150)):
        gin, gout = rng.choice(grids), rng.choice(grids)
        method = rng.choice(["linear", "nearest-neighbour", "k-nearest", "grid-box-average"])
        p = os.path.join(d, f"x{i}.mat")
        job = mir.Job()
        job.set("grid", dict(gout))
        job.set("interpolation", method)
        job.set("interpolation-matrix", p)
        _, err = outcome(lambda: job.execute(mir.GridSpecInput(json.dumps(gin)), mir.EmptyOutput()))
        if err is not None or not os.path.exists(p):
            C.count("mir_refused")
            continue
        with open(p, "rb") as f:
            b = f.read()
        os.unlink(p)
        C.count("mir_files")
        judge_file(d, b, matfile.elements(*matfile.decode(b)), dict(gin=gin, gout=gout, method=method))


def large_files():
    """Matrices of the sizes used in practice"""
    rng = C.rng("large")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    d = fresh_dir("large")
    for i in range(pick(3, 20)):
        shape = rng.choice([(rng.randint(150000, 300000), rng.randint(500, 200000)), (rng.randint(70000, 150000), rng.randint(200000, 2000000))])
        m = random_weights(nrng, *shape)
        little, scalar = i % 2 == 0, [8, 4, 8][i % 3]
        b = matfile.encode(m.shape, m.indptr, m.indices, m.data, little=little, scalar=scalar)
        case = dict(kind="large", shape=shape, nnz=int(m.nnz), little=little, scalar=scalar)
        judge_file(d, b, matfile.elements(*matfile.decode(b)), case)
        C.count("large_matrices")
    for gin, gout in [({"grid": [1, 1]}, {"grid": [0.5, 0.5]}), ({"grid": "O160"}, {"grid": [1, 1]})]:
        p = os.path.join(d, "x.mat")
        job = mir.Job()
        job.set("grid", dict(gout))
        job.set("interpolation", "linear")
        job.set("interpolation-matrix", p)
        _, err = outcome(lambda: job.execute(mir.GridSpecInput(json.dumps(gin)), mir.EmptyOutput()))
        if err is not None or not os.path.exists(p):
            C.count("mir_refused")
            continue
        with open(p, "rb") as f:
            b = f.read()
        os.unlink(p)
        C.count("large_mir_files")
        judge_file(d, b, matfile.elements(*matfile.decode(b)), dict(gin=gin, gout=gout, method="linear"))


# ---- malformed files


def refused(d, b, key, **case):
    C.evaluate()
    p, target = os.path.join(d, "bad.mat"), os.path.join(d, "bad.npz")
    write(p, b)
    z, err = outcome(mir_cached_matrix_to_array, p)
    C.count("malformed")
    C.check(err is not None, key, "the file is accepted", **case)
    _, err = outcome(mir_cached_matrix_to_file, p, target)
    ok = C.check(err is not None, key, "the file is converted", **case)
    C.check(not ok or not os.path.exists(target), "file-written", "a malformed file is refused, but there is an output", **case)
    if os.path.exists(target):
        os.unlink(target)
    C.nontrivial(("malformed", key, str(case)))


def malformed():
    rng = C.rng("malformed")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    d = fresh_dir("bad")
    t0 = C.elapsed()
    for i in range(pick(60, 2000)):
        if C.elapsed() - t0 > pick(5, 150):
            break
        while True:
            kind, shape, indptr, indices, data = random_matrix(rng, nrng)
            if kind != "big" and 2 <= len(data) < 400 and shape[0] >= 2:
                break
        little, scalar = rng.random() < 0.5, rng.choice([8, 4])
        with np.errstate(all="ignore"):

            def enc(shape=shape, indptr=indptr, indices=indices, data=data, **kwargs):
                return matfile.encode(shape, indptr, indices, data, little=little, scalar=scalar, **kwargs)

            b = enc()
            case = dict(shape=shape, nnz=len(data), little=little, scalar=scalar)
            cuts = range(len(b)) if len(b) < 600 else sorted(rng.sample(range(len(b)), 150)) + [len(b) - 1, len(b) - scalar, len(b) - 4]
            for n in cuts:
                refused(d, b[:n], "truncated-accepted", **case, length=n, of=len(b))

            nnz = len(data)
            for n in {0, nnz - 1, nnz + 1, 2 * nnz}:
                refused(d, enc(nnz=n), "inconsistent-accepted", **case, header_nnz=n)
            for rows in {0, shape[0] - 1, shape[0] + 1, 2 * shape[0]}:
                refused(d, enc(rows=rows), "inconsistent-accepted", **case, header_rows=rows)
            top = int(np.max(indices))
            for cols in {0, top}:
                refused(d, enc(cols=cols), "out-of-range-accepted", **case, header_cols=cols, largest=top)
            for bad in (shape[1], shape[1] + 1, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1):
                x = np.array(indices, dtype=np.int64)
                x[rng.randrange(len(x))] = bad
                refused(d, enc(indices=x), "out-of-range-accepted", **case, index=bad)
            p = np.array(indptr, dtype=np.int64)
            for at, v in ((0, 1), (len(p) - 1, nnz - 1), (len(p) - 1, nnz + 1), (len(p) - 1, (1 << 32) - 1)):
                x = p.copy()
                x[at] = v
                refused(d, enc(indptr=x), "bad-offsets-accepted", **case, at=at, value=v)
            x = p.copy()
            x[-1] = nnz - 1
            x = np.minimum(x, nnz - 1)
            refused(d, enc(indptr=x, nnz=nnz - 1), "inconsistent-accepted", **case, what="a value more than the offsets tell")
            inner = [k for k in range(1, len(p) - 1) if p[k - 1] > 0]
            if inner:
                k = rng.choice(inner)
                x = p.copy()
                x[k] = x[k - 1] - 1
                refused(d, enc(indptr=x), "bad-offsets-accepted", **case, at=k, value=int(x[k]))
            refused(d, enc(indices=indices[:-1]), "inconsistent-accepted", **case, what="an index less")
            refused(d, enc(data=data[:-1]), "inconsistent-accepted", **case, what="a value less")
            refused(d, enc(data=data[:-1], nnz=nnz), "inconsistent-accepted", **case, what="a value less than told")
            for s in (0, 1, 2, 3, 16, 12 - scalar):
                refused(d, enc(scalar_size=s), "inconsistent-accepted", **case, scalar_size=s)
            for s in (0, 1, 2, 3, 8):
                refused(d, enc(index_size=s), "inconsistent-accepted", **case, index_size=s)
            for pos in range(0, 35, 5):
                x = bytearray(b)
                x[pos] = rng.choice([t for t in range(256) if t not in (x[pos], 2)])
                refused(d, bytes(x), "bad-tag-accepted", **case, at=pos, tag=x[pos])
            refused(d, rng.choice([b"", b"PK\3\4", b[35:], b"\0" * 100, b"GRIB" + bytes(40), b[5:]]), "not-a-matrix-accepted", **case)
    # where to write
    good = write(os.path.join(d, "good.mat"), matfile.of(random_weights(nrng, 3, 3)))
    for name in ("x", "x.mat", "x.npy", "x.npz.bak"):
        _, err = outcome(mir_cached_matrix_to_file, good, os.path.join(d, name))
        C.check(isinstance(err, ValueError), "target-accepted", f"{name}: {err!r}")
    _, err = outcome(mir_cached_matrix_to_array, os.path.join(d, "missing.mat"))
    C.check(err is not None, "missing-accepted", "no file but a result")


# ---- inventories


def classic_pl(n):
    pl = [20 + 7 * i for i in range(n)]
    rest = size_of(classic(n)) - 2 * sum(pl[:-1])
    pl[-1] = rest // 2
    return pl + pl[::-1]


def octahedral_pl(n):
    pl = [20 + 4 * i for i in range(n)]
    return pl + pl[::-1]


def describe(grid, tell_global):
    """As MIR describes the grid"""
    g = grid["grid"]
    if isinstance(g, list):
        n, w, s, e = grid["area"]
        d = {
            "type": "regular_ll",
            "bbox": {"north": n, "west": w, "south": s, "east": e},
            "increments": {"west_east": g[0], "south_north": g[1]},
            "ni": grid["shape"][1],
            "nj": grid["shape"][0],
        }
    elif g[0] in "ON" and g[1:].isdigit():
        n, w, s, e = grid["area"]
        k = int(g[1:])
        d = {
            "type": "reduced_gg",
            "N": k,
            "pl": octahedral_pl(k) if g[0] == "O" else classic_pl(k),
            "bbox": {"north": n, "west": w, "south": s, "east": e},
        }
    elif g[0] == "H":
        return {"type": "healpix", "grid": g, "order": grid["order"]}
    else:
        name, sub = g.rsplit("_", 1)
        return {"type": "orca", "unstructuredGridType": name, "unstructuredGridSubtype": sub}
    if tell_global:
        d["global"] = grid.get("global", 0)
    return d


def regional(rng):
    dx, dy = rng.choice([5, 10, 2.5]), rng.choice([5, 10, 2.5])
    n, w = rng.randint(-20, 70) // dy * dy, rng.randint(-40, 300) // dx * dx
    ny, nx = rng.randint(2, 8), rng.randint(2, 10)
    if rng.random() < 0.5:
        # from pole to pole
        dy, n, w = dx, 90, 0
        ny = int(180 / dy) + 1
    return {"grid": [dx, dy], "shape": [ny, nx], "area": [n, w, n - dy * (ny - 1), w + dx * (nx - 1)], "global": 0}


def query(grid):
    r = short(grid)
    if grid.get("global") == 0:
        r["area"] = list(grid["area"])
    return r


SETTINGS = {
    "linear": [
        "linear",
        {"type": "linear", "poleDisplacement": 0.1},
        {"type": "linear", "poleDisplacement": 0.2},
    ],
    "nearest-neighbour": ["nearest-neighbour", {"type": "nearest-neighbour", "epsilon": 1}],
    "grid-box-average": [
        "grid-box-average",
        dict(GRIDBOX_DEFAULT),
        dict(GRIDBOX_DEFAULT, cropping=True),
        dict(GRIDBOX_DEFAULT, pruneEpsilon=1e-8),
    ],
}


class Build:
    """An inventory that grows"""

    def __init__(self, rng, nrng):
        self.rng = rng
        self.nrng = nrng
        self.dir = fresh_dir("built")
        self.out = os.path.join(self.dir, "db")
        self.index_file = os.path.join(self.out, "index.json")
        self.told = None
        if rng.random() < 0.4:
            self.told = self.index_file = os.path.join(self.out, "index.json")
        self.entries = {}  # key -> dict(gin, gout, method, w, raw, npz)
        self.described = {}  # the description -> key
        self.steps = []
        self.pool = grid_pool()

    def index(self):
        if not os.path.exists(self.index_file):
            return {"version": 1, "matrix": {}}
        with open(self.index_file) as f:
            return json.load(f)

    def files(self):
        r = {}
        for d, _, names in os.walk(self.out):
            for n in names:
                if n.endswith(".npz"):
                    with open(os.path.join(d, n), "rb") as f:
                        r[os.path.relpath(os.path.join(d, n), self.out)] = f.read()
        return r

    def stored(self, files):
        """The weights of the entries, an addition may replace files that belong to none"""
        mine = {f"mir_{e['version']}_{e['method']}/{k}.npz" for k, e in self.entries.items()}
        return {p: d for p, d in files.items() if p in mine}

    def everything(self):
        r = []
        for d, _, names in os.walk(self.dir):
            r += [os.path.relpath(os.path.join(d, n), self.dir) for n in names]
        return sorted(x for x in r if x.startswith("db" + os.sep))

    def request(self, base=None):
        rng = self.rng
        if base is None:
            while True:
                gin, gout = rng.choice(self.pool), rng.choice(self.pool)
                if rng.random() < 0.2:
                    gout = regional(rng)
                if rng.random() < 0.1:
                    gin = regional(rng)
                if query(gin) != query(gout):
                    break
            method = rng.choice(list(SETTINGS))
            setting = rng.choice(SETTINGS[method][:2] if method == "grid-box-average" else SETTINGS[method][:1])
        else:
            gin, gout, method = base["gin"], base["gout"], base["method"]
            setting = rng.choice(SETTINGS[method])
        return gin, gout, method, setting

    def describe(self, gin, gout, setting, mat, version=16, tell=None, **extra):
        tell = self.rng.random() < 0.5 if tell is None else tell
        return {
            "input": describe(gin, tell),
            "output": describe(gout, tell),
            "interpolation": {"engine": "mir", "version": version, "method": setting, **extra},
            "matrix": {"cache_file": mat, "nnz": 0},
        }

    def call(self, desc, gin, gout):
        path = os.path.join(self.dir, "desc.json")
        with open(path, "w") as f:
            json.dump(desc, f)
        kwargs = {}
        if self.told:
            kwargs["index_file"] = self.told
        # what the description does not tell
        for name, g in (("input", gin), ("output", gout)):
            if "global" in desc.get(name, ()) and self.rng.random() < 0.5:
                C.count("additions_global_described")
            else:
                kwargs["global_" + name] = bool(g.get("global", 1))
        return quiet(make_matrix, path, self.out, **kwargs)[1]

    def weights(self, gin, gout):
        w = random_weights(self.nrng, size_of(gout), size_of(gin))
        scalar = self.rng.choice([8, 8, 8, 4])
        b = matfile.of(w, little=self.rng.random() < 0.7, scalar=scalar)
        if scalar == 4:
            w = csr_matrix((w.data.astype(np.float32).astype(float), w.indices, w.indptr), shape=w.shape)
        return w, b

    def step(self, what=None):
        rng = self.rng
        what = what or rng.choice(["new", "new", "new", "settings", "again", "bad", "full"])
        if not self.entries and what not in ("new", "bad"):
            what = "new"
        base = rng.choice(list(self.entries.values())) if self.entries and (what in ("settings", "again") or (what in ("full", "bad") and rng.random() < 0.5)) else None
        gin, gout, method, setting = self.request(base)
        version = rng.choice([16, 16, 17])
        tell = None
        if what == "again" or (what in ("full", "bad") and base):
            setting, version, tell = base["setting"], base["version"], base["tell"]
        elif tell is None:
            tell = rng.random() < 0.5
        w, b = self.weights(gin, gout)
        mat = write(os.path.join(self.dir, "w.mat"), b)
        desc = self.describe(gin, gout, setting, mat, version=version, tell=tell)
        desc["matrix"]["nnz"] = int(w.nnz)
        ident = json.dumps([desc["input"], desc["output"], desc["interpolation"]], sort_keys=True)
        self.steps.append((what, repr(gin["grid"]), repr(gout["grid"]), method))
        before, files, names = self.index(), self.files(), self.everything()
        case = dict(steps=self.steps[-6:], what=what)
        C.evaluate()
        C.count("additions_" + what)
        if what == "bad":
            C.count("additions_bad_again", bool(base))
            return self.bad(desc, b, gin, gout, before, files, case)
        if what == "full":
            return self.full(desc, gin, gout, before, files, names, ident, case)
        err = self.call(desc, gin, gout)
        if err is not None:
            return C.violation("addition-fails", f"{err!r}", **case)
        self.judge(ident, dict(gin=gin, gout=gout, method=method, w=w, setting=setting, version=version, tell=tell), before, files, case)

    def judge(self, ident, new, before, files, case):
        index, now = self.index(), self.files()
        C.check(index.get("version") == 1, "wrong-version", f"{index.get('version')}", **case)
        known = self.described.get(ident)
        added = set(index["matrix"]) - set(before["matrix"])
        C.check(len(added) == (0 if known else 1), "wrong-number-of-entries", f"{len(added)} entries were added", **case, known=bool(known))
        C.check(set(before["matrix"]) <= set(index["matrix"]), "entry-lost", "an entry has gone", **case)
        key = known or (added.pop() if len(added) == 1 else None)
        if key is None:
            return
        for k, raw in before["matrix"].items():
            C.check(k == key or index["matrix"].get(k) == raw, "entry-changed", "another entry has changed", **case)
        path = f"mir_{new['version']}_{new['method']}/{key}.npz"
        C.check(set(now) == set(files) | {path}, "wrong-files", f"{sorted(set(now) ^ set(files))}", **case, expected=path)
        for p, data in files.items():
            C.check(p == path or now.get(p) == data, "weights-overwritten", "the weights of another entry have changed", **case)
        if path in now:
            z = load_npz(os.path.join(self.out, path))
            c = new["w"].tocoo()
            C.check(
                matfile.elements_of(z) == matfile.elements(c.shape, c.row, c.col, c.data), "wrong-weights", "other weights are stored", **case
            )
            raw = index["matrix"][key]
            size = z.data.nbytes + z.indices.nbytes + z.indptr.nbytes
            C.check(raw.get("memory") == size, "wrong-size", f"{raw.get('memory')} instead of {size}", **case)
            C.check(raw.get("nnz") == new["w"].nnz, "wrong-nnz", f"{raw.get('nnz')} instead of {new['w'].nnz}", **case)
        self.described[ident] = key
        self.entries[key] = new
        C.count("additions")
        C.nontrivial(("addition", ident))

    def bad(self, desc, b, gin, gout, before, files, case):
        rng = self.rng
        how = rng.choice(["truncated", "junk", "missing file", "type", "no grid", "version", "version", "no nnz"])
        mat = desc["matrix"]["cache_file"]
        if how == "truncated":
            write(mat, b[: rng.randrange(len(b))])
        elif how == "junk":
            write(mat, os.urandom(100))
        elif how == "missing file":
            os.unlink(mat)
        elif how == "type":
            desc[rng.choice(["input", "output"])] = {"type": "unheard_of", "bbox": {}}
        elif how == "no grid":
            del desc[rng.choice(["input", "output"])]
        elif how == "no nnz":
            del desc["matrix"]["nnz"]
        elif how == "version":
            os.makedirs(self.out, exist_ok=True)
            other = dict(before, version=rng.choice([0, 2, None, "1"]))
            with open(self.index_file, "w") as f:
                json.dump(other, f)
        text = None
        if os.path.exists(self.index_file):
            with open(self.index_file) as f:
                text = f.read()
        err = self.call(desc, gin, gout)
        C.count("additions_refused")
        case = dict(case, how=how)
        C.check(err is not None, "bad-addition-accepted", how, **case)
        after = None
        if os.path.exists(self.index_file):
            with open(self.index_file) as f:
                after = f.read()
        C.check(after == text, "index-changed", "the addition failed, but the index is not as it was", **case)
        now = self.files()
        C.check(all(now.get(p) == d for p, d in self.stored(files).items()), "weights-overwritten", "the addition failed, but weights have changed", **case)
        if how == "version" and (before["matrix"] or text):
            with open(self.index_file, "w") as f:
                json.dump(before, f)

    def full(self, desc, gin, gout, before, files, names, ident, case):
        """The disk gets full during the addition"""
        own = None
        if ident in self.described:
            e = self.entries[self.described[ident]]
            own = f"mir_{e['version']}_{e['method']}/{self.described[ident]}.npz"
            C.count("additions_disk_full_again")
        size = os.path.getsize(self.index_file)
        # few weights in a small file, so that the index may be what does not fit
        w = random_weights(self.nrng, size_of(gout), size_of(gin), nnz=4)
        b = matfile.of(w)
        write(desc["matrix"]["cache_file"], b)
        desc["matrix"]["nnz"] = 4
        limit = self.rng.choice([self.rng.randrange(20, 1200), self.rng.randrange(1, 3 * size), self.rng.randrange(size // 2, size), size, size + 10, size + 300])
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        handler = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        path = os.path.join(self.dir, "desc.json")
        with open(path, "w") as f:
            json.dump(desc, f)
        try:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
            err = quiet(make_matrix, path, self.out, index_file=self.told, global_input=bool(gin.get("global", 1)), global_output=bool(gout.get("global", 1)))[1]
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
            signal.signal(signal.SIGXFSZ, handler)
        case = dict(case, limit=limit)
        after, aerr = outcome(self.index)
        if aerr is not None:
            return C.violation("index-damaged", f"the disk was full, the index is not readable: {aerr!r}", **case)
        now = self.files()
        for p, d in self.stored(files).items():
            if p == own and err is None:
                # entirely the new ones
                z, zerr = outcome(load_npz, os.path.join(self.out, p))
                c = w.tocoo()
                ok = zerr is None and matfile.elements_of(z) == matfile.elements(c.shape, c.row, c.col, c.data)
                C.check(ok, "weights-damaged", f"the weights are incomplete: {zerr!r}", **case)
                self.entries[self.described[ident]]["w"] = w
            else:
                C.check(now.get(p) == d, "weights-overwritten", "the disk was full, weights have changed", **case)
        if err is not None:
            C.count("additions_disk_full")
            room = io.BytesIO()
            save_npz(room, csr_matrix(w))
            C.count("additions_disk_full_index" if limit >= len(room.getvalue()) else "additions_disk_full_weights")
            C.check(after == before, "index-changed", "the addition failed, but the index is not as it was", **case)
        else:
            # as the original: it had enough room
            with open(self.index_file, "w") as f:
                json.dump(before, f)

    def results(self, n):
        """Some of the entries give the results of their weights"""
        clear_memory_cache()
        distinct = {}
        for k, e in self.entries.items():
            distinct.setdefault(json.dumps([query(e["gin"]), query(e["gout"]), e["method"]]), []).append(e)
        alone = [v[0] for v in distinct.values() if len(v) == 1]
        for e in self.rng.sample(alone, min(n, len(alone))):
            C.evaluate()
            v = self.nrng.normal(size=size_of(e["gin"]))
            res, err = outcome(
                regrid, v, query(e["gin"]), query(e["gout"]), interpolation=spelled(e["method"], self.rng), backend="precomputed", inventory=self.out
            )
            case = dict(gin=e["gin"], gout=e["gout"], method=e["method"], told=e["tell"], steps=self.steps[-6:])
            if err is not None:
                C.violation("entry-not-available", f"{err!r}", **case)
                continue
            C.count("results_compared")
            shape = tuple(e["gout"].get("shape", [e["w"].shape[0]]))
            ok = same(res[0], *apply(e["w"], v)) and np.shape(res[0]) == shape
            C.check(ok, "wrong-result", "the result is not that of the weights that were added", **case)
        self.not_global()

    def not_global(self):
        """A regional grid is not the global one"""
        have = {json.dumps([query(e["gin"]), query(e["gout"]), e["method"]]) for e in self.entries.values()}
        for e in self.entries.values():
            for side in ("gin", "gout"):
                if e[side].get("global") != 0:
                    continue
                q = {"gin": query(e["gin"]), "gout": query(e["gout"])}
                del q[side]["area"]
                if json.dumps([q["gin"], q["gout"], e["method"]]) in have:
                    continue
                C.evaluate()
                C.count("regional_asked_as_global")
                v = self.nrng.normal(size=size_of(e["gin"]))
                res, err = outcome(regrid, v, q["gin"], q["gout"], interpolation=e["method"], backend="precomputed", inventory=self.out)
                C.check(err is not None, "regional-as-global", "weights of a region are used for the whole globe", **{**q, "method": e["method"]})


def inventories():
    rng = C.rng("inventories")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    t0 = C.elapsed()
    for i in range(pick(30, 1500)):
        if C.elapsed() - t0 > pick(9, 250):
            break
        b = Build(rng, nrng)
        C.count("inventories")
        for _ in range(rng.choice([1, 4, 8, 14])):
            b.step()
            if rng.random() < 0.4:
                b.results(2)
        b.results(4)
    # a long one
    b = Build(rng, nrng)
    b.pool = [g for g in b.pool if size_of(g) < 3000]
    for _ in range(45):
        b.step("new")
    b.results(6)


def many_additions():
    """An inventory of hundreds of entries"""
    rng = C.rng("many")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    b = Build(rng, nrng)
    b.told = None
    todo = {}
    methods = [m for v in SETTINGS.values() for m in v[:1]]
    while len(todo) < pick(300, 1500):
        gin, gout, method = rng.choice([octahedral(8), healpix(2, "ring"), ll(10)]), regional(rng), rng.choice(methods)
        todo[json.dumps([query(gin), query(gout), method])] = (gin, gout, method)
    kept = []
    for i, (gin, gout, method) in enumerate(todo.values()):
        w = csr_matrix(([float(i + 1), 0.5], ([0, 1], [1, 0])), shape=(size_of(gout), size_of(gin)))
        mat = write(os.path.join(b.dir, "w.mat"), matfile.of(w))
        desc = b.describe(gin, gout, method, mat, tell=True)
        err = b.call(desc, gin, gout)
        if not C.check(err is None, "addition-fails", f"{err!r} for the entry {i}"):
            return
        kept.append((gin, gout, method, w))
        C.count("many_additions")
    C.evaluate()
    n = len(b.index()["matrix"])
    C.check(n == len(kept), "entry-lost", f"{n} entries after {len(kept)} additions")
    n = len(b.files())
    C.check(n == len(kept), "wrong-files", f"{n} files after {len(kept)} additions")
    clear_memory_cache()
    for gin, gout, method, w in [kept[0], kept[-1], *rng.sample(kept, 40)]:
        v = nrng.normal(size=size_of(gin))
        args = (v, query(gin), query(gout))
        res, err = outcome(regrid, *args, interpolation=spelled(method, rng), backend="precomputed", inventory=b.out)
        case = dict(gin=query(gin), gout=query(gout), method=method, entries=len(kept))
        if not C.check(err is None, "entry-not-available", f"{err!r}", **case):
            return
        C.check(same(res[0], *apply(w, v)), "wrong-result", "the result is not that of the weights that were added", **case)
    C.nontrivial(("many", len(kept)))


def end_to_end():
    """MIR writes the weights, and is compared with"""
    rng = C.rng("e2e")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    grids = [ll(10), ll(5), octahedral(8), octahedral(16), healpix(4, "ring"), healpix(4, "nested"), healpix(8, "nested")]
    b = Build(rng, nrng)
    for i in range(pick(25, 150)):
        gin, gout = rng.choice(grids), rng.choice(grids)
        method = rng.choice(list(SETTINGS))
        if gin is gout:
            continue
        mat = os.path.join(b.dir, "mir.mat")
        job = mir.Job()
        job.set("grid", short(gout))
        job.set("interpolation", method)
        job.set("interpolation-matrix", mat)
        v = nrng.normal(size=size_of(gin))
        _, err = outcome(lambda: job.execute(mir.GridSpecInput(json.dumps(short(gin))), mir.EmptyOutput()))
        ref, rerr = outcome(mirtools.direct, v, short(gin), short(gout), interpolation=method)
        if err is not None or rerr is not None or not os.path.exists(mat):
            # MIR does not write again what it has in memory
            continue
        C.evaluate()
        desc = b.describe(gin, gout, dict(GRIDBOX_DEFAULT) if method == "grid-box-average" else method, mat)
        err = b.call(desc, gin, gout)
        case = dict(gin=gin["grid"], gout=gout["grid"], method=method)
        if err is not None:
            C.violation("addition-fails", f"{err!r}", **case)
            continue
        os.unlink(mat)
        res, err = outcome(regrid, v, short(gin), short(gout), interpolation=method, backend="precomputed", inventory=b.out)
        if err is not None:
            C.violation("entry-not-available", f"{err!r}", **case)
            continue
        C.count("mir_compared")
        ok = np.shape(res[0]) == ref[0].shape and np.allclose(res[0], ref[0], rtol=1e-9, atol=1e-9)
        C.check(ok, "unlike-mir", "the result is not that of MIR", **case)


C.require(
    decoded=200,
    decoded_little=60,
    decoded_big=60,
    operations=800,
    mir_files=5,
    malformed=700,
    inventories=5,
    additions=25,
    additions_settings=4,
    additions_again=4,
    additions_refused=4,
    additions_bad_again=2,
    additions_disk_full=4,
    additions_disk_full_index=1,
    regional_asked_as_global=3,
    results_compared=15,
    mir_compared=4,
)
C.require(many_additions=200, large_matrices=3, large_mir_files=1)
main(C, decoding, end_to_end, mir_files, large_files, malformed, inventories, many_additions)
