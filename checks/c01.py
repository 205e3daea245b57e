"""C01: a precomputed regrid applies exactly the weights the named inventory holds."""

import os
import zipfile

import numpy as np
from harness import REPO
from harness import Check
from harness import fresh_dir
from harness import main
from harness import outcome
from harness import pick
from inventory import apply
from inventory import grid_pool
from inventory import large_pool
from inventory import random_inventory
from inventory import same
from inventory import short
from inventory import size_of
from inventory import spelled
from monitor import WeightLoads

loads = WeightLoads()

from earthkit.regrid import config  # noqa: E402
from earthkit.regrid.array import regrid  # noqa: E402

config.autosave = False

C = Check(
    "C01",
    "exploration",
    "Random inventories of random sparse weights (2-4 at a time, sharing grids and entry names) queried with "
    "random fields (NaN/inf, dtypes, layouts) and spellings; non-trivial: a regrid whose result was compared "
    "with the reference product, or a query without weights that was refused.",
    ["numpy arithmetic", "scipy reads and writes .npz files correctly"],
)


def field(rng, nrng, n, shape):
    v = nrng.normal(size=n) * 10.0 ** nrng.integers(-3, 6)
    kind = rng.choice(["plain", "plain", "nan", "inf", "int", "f4", "const", "zero"])
    if kind == "nan":
        v[nrng.random(n) < rng.choice([0.01, 0.3, 1.0])] = np.nan
    elif kind == "inf":
        v[nrng.integers(0, n)] = np.inf
    elif kind == "int":
        v = nrng.integers(-1000, 1000, size=n)
    elif kind == "f4":
        v = v.astype(np.float32)
    elif kind == "const":
        v = np.full(n, 3.5)
    elif kind == "zero":
        v = np.zeros(n)

    layout = rng.choice(["1d", "shape", "strided", "readonly", "fortran", "reversed", "column", "big-endian"])
    w = v
    if layout in ("shape", "fortran") and len(shape) == 2:
        w = v.reshape(shape)
        if layout == "fortran":
            w = np.asfortranarray(w)
    elif layout == "strided":
        b = np.zeros(2 * n, dtype=v.dtype)
        b[::2] = v
        w = b[::2]
    elif layout == "readonly":
        w = v.copy()
        w.flags.writeable = False
    elif layout == "reversed":
        w = v[::-1].copy()[::-1]
    elif layout == "column":
        w = v.reshape(-1, 1)
    elif layout == "big-endian":
        w = v.astype(v.dtype.newbyteorder(">"))
    return v, w, kind, layout


def inventories():
    rng = C.rng("inventories")
    rounds = pick(12, 60)
    large = {3, 8} if rounds < 20 else set(range(3, rounds, 6))
    for r in range(rounds):
        nrng = np.random.default_rng(rng.randrange(1 << 30))
        config.set("weights-memory-cache-policy", rng.choice(["largest", "lru", "unlimited", "off"]))
        config.set("maximum-weights-memory-cache-size", rng.choice(["500MB", "200K", "1"]))
        # pools overlap so the same pair of grids is in several inventories with other weights
        pool = rng.sample(large_pool(), 3) + rng.sample(grid_pool(), 1) if r in large else rng.sample(grid_pool(big=r % 3 == 0), 7)
        invs = []
        for _ in range(2 if r in large else rng.randint(2, 4)):
            n = 3 if r in large else rng.randint(4, 9)
            inv = random_inventory(os.path.join(fresh_dir("inv"), "data"), rng, n=n, pool=pool, memory=rng.random() < 0.8)
            inv.write()
            invs.append(inv)
        universe = {}
        for inv in invs:
            for e in inv.entries:
                universe[str((short(e.gin), short(e.gout), e.method))] = e
        for q in range(15 if r in large else pick(130, 220)):
            inv = rng.choice(invs)
            present = {str((short(e.gin), short(e.gout), e.method)): e for e in inv.entries}
            C.evaluate()
            if rng.random() < 0.7:
                e = rng.choice(inv.entries)
                gin, gout, method = e.gin, e.gout, e.method
            else:
                x = rng.choice(list(universe.values()))
                gin, gout, method = x.gin, x.gout, x.method
                if rng.random() < 0.3:
                    method = rng.choice(["linear", "nearest-neighbour", "grid-box-average", "bilinear", "linearx", "", "k-nearest"])
                if rng.random() < 0.2:
                    gin, gout = gout, gin
            e = present.get(str((short(gin), short(gout), method)))
            qin = rng.choice([gin, short(gin)])
            qout = rng.choice([gout, short(gout)])
            n = size_of(gin)
            v, w, kind, layout = field(rng, nrng, n, gin.get("shape", [n]))
            path = inv.path + rng.choice(["", "", "/"])
            if rng.random() < 0.3:
                # the same relative path is another inventory in another directory
                os.chdir(os.path.dirname(inv.path))
                path = rng.choice(["data", "data", "./data", os.path.join("..", os.path.relpath(inv.path, "..")) ])
                C.count("relative_paths")
            wrong = rng.random() < 0.06
            if wrong:
                w = v[: max(1, n // 2)] if rng.random() < 0.5 else np.concatenate([v, v])
            loads.take()
            name = spelled(method, rng)
            res, err = outcome(
                regrid, w, dict(qin), dict(qout), interpolation=name, backend="precomputed", inventory=path
            )
            case = dict(inventory=path, cwd=os.getcwd(), in_grid=qin, out_grid=qout, interpolation=name, field=kind, layout=layout)
            if e is None:
                C.count("no_weights")
                C.check(
                    isinstance(err, ValueError),
                    "no-weights-not-refused",
                    f"no weights in the inventory but result={res is not None} error={err!r}",
                    **case,
                )
                C.check(not loads.take(), "no-weights-loaded", "weights were read although there are none", **case)
                C.nontrivial(("refused", r, str(qin), str(qout), method, path))
                continue
            if wrong:
                C.count("wrong_size")
                C.check(err is not None, "wrong-size-accepted", f"{w.size} values for {n} points gave a result", **case)
                continue
            if err is not None:
                C.violation("regrid-failed", f"{err!r}", **case)
                continue
            C.count("compared")
            C.count("compared_" + kind)
            C.count("compared_large", n > 1 << 16 or e.w.shape[0] > 1 << 16)
            C.nontrivial(("applied", r, e.name, path, kind, layout))
            out, spec = res
            ref, scale = apply(e.w, w)
            C.check(isinstance(out, np.ndarray), "not-an-array", f"{type(out)}", **case)
            C.check(out.shape == e.shape, "wrong-shape", f"{out.shape} expected {e.shape}", **case)
            C.check(
                same(out, ref, scale),
                "wrong-values",
                "the result is not weights @ values",
                got=out,
                expected=ref,
                **case,
            )
            C.check(
                dict(spec) == dict(qout), "wrong-gridspec", f"returned gridspec {spec} expected {qout}", **case
            )
            C.sample(case)
    for name in ("maximum-weights-memory-cache-size", "weights-memory-cache-policy"):
        config.reset(name)


def read_npz(path):
    """Independent reader of a CSR matrix"""
    with zipfile.ZipFile(path) as z:
        arr = {}
        for n in z.namelist():
            with z.open(n) as f:
                arr[n[:-4]] = np.lib.format.read_array(f)
    return arr


def real_inventory():
    """The inventory that comes with the repository."""
    import json

    top = os.path.join(REPO, "tests", "data", "local", "db")
    if not os.path.exists(os.path.join(top, "index.json")):
        top = os.path.join(REPO, "tests", "data", "local")
    with open(os.path.join(top, "index.json")) as f:
        index = json.load(f)["matrix"]
    nrng = np.random.default_rng(C.rng("real").randrange(1 << 30))
    for name, e in index.items():
        inter = e["interpolation"]
        method = inter["method"] if isinstance(inter["method"], str) else inter["method"]["type"]
        path = os.path.join(top, f"{inter['engine']}_{inter['version']}_{method}", name + ".npz")
        if not os.path.exists(path):
            continue
        m = read_npz(path)
        rows, cols = m["shape"]
        v = nrng.normal(size=int(cols))
        row = np.repeat(np.arange(rows), np.diff(m["indptr"]))
        prod = m["data"] * v[m["indices"]]
        ref = np.bincount(row, weights=prod, minlength=rows)
        scale = np.bincount(row, weights=np.abs(prod), minlength=rows)
        gin = {k: x for k, x in e["input"].items() if k in ("grid", "order", "ordering")}
        gout = {k: x for k, x in e["output"].items() if k in ("grid", "order", "ordering")}
        C.evaluate()
        res, err = outcome(regrid, v, gin, gout, interpolation=method, backend="precomputed", inventory=top)
        case = dict(inventory=top, in_grid=gin, out_grid=gout, method=method)
        if err is not None:
            C.violation("regrid-failed", f"{err!r}", **case)
            continue
        C.count("real")
        C.nontrivial(("real", name))
        C.check(same(res[0], ref, scale), "wrong-values", "the result is not weights @ values", **case)
        C.check(list(res[0].shape) == e["output"].get("shape", [rows]), "wrong-shape", f"{res[0].shape}", **case)


C.require(compared_large=8, relative_paths=50, compared=200, no_weights=50, wrong_size=5, real=5, compared_nan=10)
main(C, inventories, real_inventory)
