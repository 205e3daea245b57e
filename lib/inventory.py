"""Synthetic inventories of precomputed weights, and their reference semantics.

An inventory is a directory with index.json (version 1) and one
{engine}_{version}_{method}/{name}.npz file per entry. The weights are random and unique,
so a result identifies the weights it was computed with.
"""

import functools
import gzip
import hashlib
import json
import os

import numpy as np
from scipy.sparse import csr_array
from scipy.sparse import csr_matrix
from scipy.sparse import save_npz

METHODS = ["linear", "nearest-neighbour", "grid-box-average"]
ALIASES = {"nearest-neighbour": ["nn", "nearest-neighbor", "nearest-neighbour"]}

GRIDBOX_DEFAULT = {
    "type": "grid-box-average",
    "nonLinear": [{"type": "missing-if-heaviest-missing"}],
    "solver": {"type": "multiply"},
    "cropping": False,
    "lsmWeightAdjustment": 0.2,
    "pruneEpsilon": 1e-10,
    "poleDisplacement": 0,
}

# increment -> area of the global grid, as ECMWF defines it
LL_AREAS = {
    0.25: [90, 0, -90, 359.75],
    0.5: [90, 0, -90, 359.5],
    0.75: [90, 0, -90, 359.25],
    1: [90, 0, -90, 359],
    1.2: [90, 0, -90, 358.8],
    1.25: [90, 0, -90, 358.75],
    1.4: [89.6, 0, -89.6, 359.8],
    1.5: [90, 0, -90, 358.5],
    1.6: [89.6, 0, -89.6, 358.4],
    1.8: [90, 0, -90, 358.2],
    2: [90, 0, -90, 358],
    2.5: [90, 0, -90, 357.5],
    5: [90, 0, -90, 355],
    10: [90, 0, -90, 350],
}


def spelled(method, rng):
    return rng.choice(ALIASES.get(method, [method]))


def ll(d):
    n, w, s, e = LL_AREAS[d]
    shape = [int(round((n - s) / d)) + 1, int(round((e - w) / d)) + 1]
    return {"grid": [d, d], "shape": shape, "area": list(LL_AREAS[d]), "global": 1}


@functools.lru_cache(None)
def first_gaussian_latitude(n):
    if n > 400:
        # asymptotic, good to 1e-6 degrees
        return round(float(90 - np.degrees(2.404825557695773 / (2 * n + 0.5))), 4)
    x, _ = np.polynomial.legendre.leggauss(2 * n)
    return round(float(np.degrees(np.arcsin(x.max()))), 4)


def octahedral(n):
    lat = first_gaussian_latitude(n)
    size = 2 * sum(4 * i + 16 for i in range(1, n + 1))
    return {
        "grid": f"O{n}",
        "shape": [size],
        "area": [lat, 0, -lat, round(360 - 360 / (4 * n + 16), 3)],
        "global": 1,
    }


def classic(n):
    # the number of points is not that of the real grid, which needs the table of the pl
    lat = first_gaussian_latitude(n)
    return {
        "grid": f"N{n}",
        "shape": [6 * n * n - 30],
        "area": [lat, 0, -lat, round(360 - 360 / (4 * n), 3)],
        "global": 1,
    }


def healpix(n, order):
    return {"grid": f"H{n}", "order": order}


def orca(name):
    size = 1500 + sum(map(ord, name)) % 700
    return {"grid": name, "shape": [size], "global": 1}


def size_of(grid):
    if "shape" in grid:
        return int(np.prod(grid["shape"]))
    return 12 * int(grid["grid"][1:]) ** 2


def grid_pool(big=False):
    r = [ll(d) for d in ([10, 5, 2.5] + ([2, 1.6, 1.4, 1.25] if big else []))]
    r += [octahedral(n) for n in (8, 16, 24, 32)]
    r += [classic(n) for n in (8, 16, 32)]
    r += [healpix(n, o) for n in (2, 4, 8) for o in ("ring", "nested")]
    r += [orca(x) for x in ("eORCA025_T", "eORCA025_U", "eORCA025_V", "ORCA1_T", "eORCA12_T", "eORCA025_W")]
    return r


def large_pool():
    """Grids of 10^5 to 10^6 points"""
    r = [ll(0.25), ll(0.5), ll(0.75), octahedral(200), octahedral(320), classic(160), classic(320)]
    return r + [healpix(128, "ring"), healpix(256, "nested")]


def short(grid):
    """The way users write the grid."""
    r = {"grid": grid["grid"]}
    if "order" in grid:
        r["order"] = grid["order"]
    return r


def numpy_numbers(grid, rng):
    """The same grid with numbers as they come from arrays"""

    def number(x):
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            return x
        kinds = [np.float64]
        if int(x) == x:
            kinds += [np.int64, np.int32, np.float32]
        return rng.choice(kinds)(x)

    if rng.random() < 0.8:
        return grid
    return {k: [number(x) for x in v] if isinstance(v, list) and k != "shape" else v for k, v in grid.items()}


def random_weights(nrng, rows, cols, nnz=None, empty=0.02):
    if nnz is None:
        counts = nrng.integers(1, 5, size=rows)
        counts[nrng.random(rows) < empty] = 0
        counts = np.minimum(counts, cols)
    else:
        counts = np.full(rows, nnz // rows)
        counts[: nnz - counts.sum()] += 1
    indptr = np.concatenate([[0], np.cumsum(counts)]).astype(np.int32)
    total = int(indptr[-1])
    start = nrng.integers(0, cols, size=rows)
    offset = np.arange(total) - np.repeat(indptr[:-1], counts)
    indices = ((np.repeat(start, counts) + offset) % cols).astype(np.int32)
    data = nrng.random(total) + 0.01
    m = csr_matrix((data, indices, indptr), shape=(rows, cols))
    m.sort_indices()
    return m


def apply(w, v):
    """Reference product, and the scale to judge the difference with."""
    v = np.asarray(v).ravel().astype(float)
    coo = w.tocoo()
    with np.errstate(all="ignore"):
        prod = coo.data * v[coo.col]
        ref = np.bincount(coo.row, weights=prod, minlength=w.shape[0])
        scale = np.bincount(coo.row, weights=np.abs(np.nan_to_num(prod)), minlength=w.shape[0])
    return ref, scale


def same(res, ref, scale, rtol=1e-12):
    """res is ref up to the rounding of the sums"""
    res = np.asarray(res).ravel()
    if res.shape != ref.shape:
        return False
    nan = np.isnan(ref)
    if not np.array_equal(np.isnan(res), nan):
        return False
    with np.errstate(all="ignore"):
        eq = (res == ref) | nan | (np.abs(res - ref) <= rtol * scale)
    return bool(eq.all())


def nbytes(m):
    return int(m.data.nbytes + m.indptr.nbytes + m.indices.nbytes)


class Entry:
    def __init__(self, name, gin, gout, method, w, engine="mir", version=16, method_repr=None):
        self.name = name
        self.gin = gin
        self.gout = gout
        self.method = method
        self.w = w
        self.engine = engine
        self.version = version
        self.method_repr = method if method_repr is None else method_repr
        self.size = nbytes(w)

    @property
    def shape(self):
        return tuple(self.gout["shape"]) if "shape" in self.gout else (self.w.shape[0],)

    @property
    def path(self):
        return f"{self.engine}_{self.version}_{self.method}/{self.name}.npz"

    def raw(self, memory=True):
        r = {
            "input": self.gin,
            "output": self.gout,
            "interpolation": {"engine": self.engine, "version": self.version, "method": self.method_repr},
            "nnz": int(self.w.nnz),
        }
        if memory:
            r["memory"] = self.size
        return r

    def __repr__(self):
        return f"Entry({self.name[:6]},{self.gin['grid']},{self.gout['grid']},{self.method})"


class Inventory:
    def __init__(self, path, seed, memory=True):
        self.path = path
        self.nrng = np.random.default_rng(seed)
        self.seed = seed
        self.entries = []
        self.extra = {}  # unsupported entries, as is
        self.version = 1
        self.memory = memory

    def add(self, gin, gout, method, nnz=None, method_repr=None, name=None, engine="mir", version=16, rows=None):
        rows = size_of(gout) if rows is None else rows
        w = random_weights(self.nrng, rows, size_of(gin), nnz=nnz)
        if name is None:
            key = json.dumps([gin, gout, method, str(self.seed) if self.seed % 2 else ""], sort_keys=True)
            name = hashlib.sha256(key.encode()).hexdigest()
        if method == "grid-box-average" and method_repr is None and self.nrng.random() < 0.5:
            method_repr = dict(GRIDBOX_DEFAULT)
        e = Entry(name, gin, gout, method, w, engine, version, method_repr)
        self.entries.append(e)
        return e

    def index(self):
        m = {e.name: e.raw(self.memory) for e in self.entries}
        m.update(self.extra)
        return {"version": self.version, "matrix": m}

    def write_matrix(self, e, path=None):
        path = os.path.join(path or self.path, e.path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        save_npz(path, e.w, compressed=False)

    def write(self, path=None):
        path = path or self.path
        os.makedirs(path, exist_ok=True)
        for e in self.entries:
            self.write_matrix(e, path)
        self.write_index(path)

    def write_index(self, path=None, remote=False, sha=None):
        path = path or self.path
        os.makedirs(path, exist_ok=True)
        text = json.dumps(self.index(), indent=1)
        with open(os.path.join(path, "index.json"), "w") as f:
            f.write(text)
        if remote:
            with gzip.open(os.path.join(path, "index.json.gz"), "wb") as f:
                f.write(text.encode())
            with open(os.path.join(path, "index.json.sha256"), "w") as f:
                f.write(sha or hashlib.sha256(text.encode()).hexdigest() + "\n")


def random_inventory(path, rng, n=8, big=False, memory=True, pool=None):
    """An inventory with n entries for distinct (input, output, method)."""
    inv = Inventory(path, rng.randrange(1 << 30), memory=memory)
    pool = pool or grid_pool(big)
    seen = set()
    while len(inv.entries) < n:
        if inv.entries and rng.random() < 0.4:
            # same grids with another method, or one of the grids only
            e = rng.choice(inv.entries)
            gin = e.gin if rng.random() < 0.7 else rng.choice(pool)
            gout = e.gout if rng.random() < 0.7 else rng.choice(pool)
        else:
            gin, gout = rng.choice(pool), rng.choice(pool)
        method = rng.choice(METHODS)
        key = json.dumps([short(gin), short(gout), method])
        if key in seen or short(gin) == short(gout):
            continue
        seen.add(key)
        inv.add(gin, gout, method)
    return inv
