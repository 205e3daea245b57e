"""C13: interpolate() agrees with regrid()."""

from io import BytesIO

import earthkit.data  # noqa: F401
import numpy as np
import xarray as xr
from earthkit.data import from_source
from gribtools import META
from gribtools import message
from gribtools import random_field
from harness import Check
from harness import fresh_dir
from harness import main
from harness import outcome
from harness import pick
from inventory import METHODS
from inventory import Inventory
from inventory import apply
from inventory import classic
from inventory import grid_pool
from inventory import healpix
from inventory import large_pool
from inventory import ll
from inventory import octahedral
from inventory import random_inventory
from inventory import same
from inventory import short
from inventory import size_of
from inventory import spelled
from memhist import MAX
from memhist import POLICY
from memhist import STRICT
from mirtools import identical

from earthkit.regrid import config  # noqa: E402
from earthkit.regrid import interpolate  # noqa: E402
from earthkit.regrid import regrid  # noqa: E402
from earthkit.regrid.array import regrid as array_regrid  # noqa: E402

config.autosave = False

C = Check(
    "C13",
    "exploration",
    "Random inventories, queries (present or not, in various spellings), fields and fieldlists through interpolate() and "
    "regrid(); non-trivial: distinct compared calls.",
    ["scipy"],
)


def random_config(rng):
    config.reset()
    config.set(POLICY, rng.choice(["off", "unlimited", "largest", "lru"]))
    if rng.random() < 0.2:
        config.set(MAX, rng.choice([1, 100]))
        config.set(STRICT, True)


def field(rng, nrng, n, shape):
    v = nrng.normal(size=n) * 10
    how = rng.choice(["flat", "shaped", "f4", "int", "fortran", "strided", "nan", "big"])
    if how == "shaped":
        v = v.reshape(shape)
    elif how == "f4":
        v = v.astype(np.float32)
    elif how == "int":
        v = v.astype(rng.choice([int, np.int16]))
    elif how == "fortran":
        v = np.asfortranarray(v.reshape(shape))
    elif how == "strided":
        v = np.repeat(v, 2)[::2]
    elif how == "nan":
        v[nrng.random(n) < 0.02] = np.nan
    elif how == "big":
        v = v.astype(">f8")
    return v, how


def arrays():
    rng = C.rng("arrays")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    n = 0
    while n < pick(150, 4000) and C.elapsed() < pick(20, 300):
        n += 1
        random_config(rng)
        pool = rng.sample(grid_pool(), 6)
        invs = [random_inventory(fresh_dir("inv"), rng, n=6, pool=pool) for _ in range(2)]
        for inv in invs:
            inv.write()
        for _ in range(20):
            inv = rng.choice(invs)
            e = rng.choice(rng.choice(invs).entries)  # of this inventory or of the other
            gin, gout, method = e.gin, e.gout, e.method
            if rng.random() < 0.2:
                gout = rng.choice(pool)
            if rng.random() < 0.1:
                gin, gout = gout, gin
            if rng.random() < 0.1:
                method = rng.choice(METHODS + ["nonsense"])
            found = [
                x for x in inv.entries if short(x.gin) == short(gin) and short(x.gout) == short(gout) and x.method == method
            ]
            v, how = field(rng, nrng, size_of(gin), gin.get("shape", [size_of(gin)]))
            if rng.random() < 0.05:
                v, how = v.ravel()[:-1], "wrong-size"
            m = spelled(method, rng)
            gi, go = rng.choice([dict(gin), short(gin)]), rng.choice([dict(gout), short(gout)])
            C.evaluate()
            a, ea = outcome(interpolate, v, in_grid=dict(gi), out_grid=dict(go), method=m, matrix_source=inv.path)
            b, eb = outcome(array_regrid, v, dict(gi), dict(go), interpolation=m, backend="precomputed", inventory=inv.path)
            case = dict(gin=gi, gout=go, method=m, how=how, found=len(found))
            C.sample(case)
            if ea is not None or eb is not None:
                C.count("refused")
                C.check(
                    (ea is None) == (eb is None), "refused-by-one", f"interpolate(): {ea!r}, regrid(): {eb!r}", **case
                )
                strict = config.get(STRICT) and config.get(POLICY) in ("largest", "lru")
                C.check(how == "wrong-size" or not found or strict, "refused", f"{ea!r}", **case)
                if not found:
                    C.check(isinstance(ea, ValueError), "not-refused", f"{ea!r}", **case)
                continue
            if not C.check(bool(found), "invented", "there are no such weights", **case):
                continue
            C.count("arrays_compared")
            C.nontrivial((n, e.name, m, how))
            C.check(identical(a, b[0]), "differs-from-regrid", "interpolate() and regrid() differ", got=a, expected=b[0], **case)
            ref, scale = apply(found[0].w, v)
            C.check(tuple(a.shape) == found[0].shape, "wrong-shape", f"{a.shape}", **case)
            C.check(same(a, ref, scale, 1e-6 if how == "f4" else 1e-12), "wrong-values", "not weights @ values", **case)
        # defaults of the arguments
        e = rng.choice([x for x in invs[0].entries])
        v = nrng.normal(size=size_of(e.gin))
        a, ea = outcome(interpolate, v, short(e.gin), short(e.gout), matrix_source=invs[0].path)
        b, eb = outcome(array_regrid, v, short(e.gin), short(e.gout), backend="precomputed", inventory=invs[0].path)
        C.check((ea is None) == (eb is None), "refused-by-one", f"interpolate(): {ea!r}, regrid(): {eb!r}, without a method")
        if ea is None and eb is None:
            C.count("defaults")
            C.check(identical(a, b[0]), "differs-from-regrid", "interpolate() and regrid() differ without a method")


def fieldlists():
    rng = C.rng("fieldlists")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    described = {
        ("ll", (10, 10)): ll(10),
        ("O", 8): octahedral(8),
        ("O", 16): octahedral(16),
        ("N", 32): classic(32),
        ("H", 4, "ring"): healpix(4, "ring"),
        ("H", 4, "nested"): healpix(4, "nested"),
    }
    n = 0
    while n < pick(40, 2500) and C.elapsed() < pick(40, 600):
        n += 1
        random_config(rng)
        inv = Inventory(fresh_dir("inv"), rng.randrange(1 << 30))
        gout = rng.choice([ll(10), ll(5), ll(2.5)])
        entries = {}
        for k, g in described.items():
            for m in METHODS:
                if short(g) != short(gout):
                    entries[k, m] = inv.add(g, gout, m)
        other = octahedral(24)
        inv.add(octahedral(8), other, "linear")
        inv.write()
        kinds = sorted({k for k, _ in entries}, key=str)
        method = rng.choice(METHODS)
        given = rng.random() < 0.3
        if given:
            kinds = [rng.choice(kinds)]
        fields = [random_field(rng, nrng, kinds) for _ in range(rng.randint(1, 4))]
        fl = from_source("memory", b"".join(f["message"] for f in fields))
        m = spelled(method, rng)
        kw = dict(out_grid=rng.choice([dict(gout), short(gout)]), method=m, matrix_source=inv.path)
        if given:
            kw["in_grid"] = short(described[kinds[0]])
        C.evaluate()
        a, ea = outcome(interpolate, fl, **kw)
        b, eb = outcome(regrid, fl, grid=short(gout), interpolation=m, backend="precomputed", inventory=inv.path)
        case = dict(gout=short(gout), method=m, fields=[(f["kind"], f["edition"]) for f in fields], given=given)
        if ea is not None or eb is not None:
            strict = config.get(STRICT) and config.get(POLICY) in ("largest", "lru")
            C.check((ea is None) == (eb is None), "refused-by-one", f"interpolate(): {ea!r}, regrid(): {eb!r}", **case)
            C.check(strict, "refused", f"{ea!r}", **case)
            continue
        if not C.check(isinstance(a, earthkit.data.FieldList) and len(a) == len(fields), "wrong-fieldlist", f"{a!r}", **case):
            continue
        for i, f in enumerate(fields):
            C.count("fields_compared")
            C.nontrivial(("field", n, i))
            e = entries[f["kind"], method]
            ref, scale = apply(e.w, fl[i].to_numpy(flatten=True))
            x = a[i].to_numpy()
            C.check(identical(x, b[i].to_numpy()), "differs-from-regrid", f"field {i}", got=x, expected=b[i].to_numpy(), **case)
            C.check(x.shape == e.shape and same(x, ref, scale, 1e-6), "wrong-values", f"field {i}", **case)
            for k in META[:-1]:
                p, q = fl[i].metadata(k, default=None), a[i].metadata(k, default=None)
                C.check(p == q, "metadata-changed", f"{k}: {p} became {q}", **case)
            g, h = a[i].metadata().gridspec, b[i].metadata().gridspec
            C.check(dict(g) == dict(h), "differs-from-regrid", f"gridspec of field {i}: {g}, {h}", **case)
        # refused by both
        for name, bad in (
            ("target", dict(kw, out_grid=short(other))),
            ("no-weights", dict(kw, out_grid={"grid": [1, 1]})),
            ("method", dict(kw, method="nonsense")),
        ):
            _, ea = outcome(interpolate, fl, **bad)
            args = dict(grid=bad["out_grid"], interpolation=bad["method"], backend="precomputed", inventory=inv.path)
            _, eb = outcome(regrid, fl, **args)
            C.count("refused_fieldlists")
            C.check(isinstance(ea, ValueError) and isinstance(eb, ValueError), "not-refused", f"{name}: {ea!r} {eb!r}", **case)


def unsupported():
    """Kinds of input that are not for interpolate(), and the backend, which cannot be chosen"""
    inv = Inventory(fresh_dir("inv"), 3)
    e = inv.add(ll(10), ll(5), "linear")
    inv.write()
    v = np.ones(size_of(e.gin))
    kw = dict(out_grid=short(e.gout), method="linear", matrix_source=inv.path)
    for x in ([1.0, 2.0], 1.0, None, "x", b"GRIB", BytesIO(b"GRIB"), xr.DataArray(v)):
        C.evaluate()
        C.count("unsupported")
        err = outcome(interpolate, x, in_grid=short(e.gin), **kw)[1]
        C.check(isinstance(err, ValueError), "kind-accepted", f"{type(x)}: {err!r}")
    for b in ("mir", "precomputed"):
        err = outcome(interpolate, v, in_grid=short(e.gin), backend=b, **kw)[1]
        C.check(isinstance(err, ValueError), "backend-accepted", f"{err!r}")


def large():
    """Large grids, and lists of more fields than a few"""
    rng = C.rng("large")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    config.reset()
    inv = Inventory(fresh_dir("inv"), rng.randrange(1 << 30))
    pool = large_pool()
    if pick(True, False):
        pool = [ll(0.5), octahedral(200)] + rng.sample(pool, 2)
    for g in pool:
        if not any(short(e.gin) == short(g) for e in inv.entries):
            inv.add(g, ll(10), "linear")
            inv.add(ll(10), g, "nearest-neighbour")
    few = inv.add(octahedral(8), ll(5), "linear")
    inv.write()
    for e in inv.entries[:-1]:
        v = nrng.normal(size=size_of(e.gin)) * 10
        if rng.random() < 0.3:
            v = v.astype(np.float32)
        C.evaluate()
        C.count("large_arrays")
        a, ea = outcome(interpolate, v, short(e.gin), short(e.gout), method=e.method, matrix_source=inv.path)
        kw = dict(interpolation=e.method, backend="precomputed", inventory=inv.path)
        b, eb = outcome(array_regrid, v, short(e.gin), short(e.gout), **kw)
        case = dict(gin=short(e.gin), gout=short(e.gout))
        if not C.check(ea is None and eb is None, "refused", f"interpolate(): {ea!r}, regrid(): {eb!r}", **case):
            continue
        C.nontrivial(("large", repr(case)))
        C.check(identical(a, b[0]), "differs-from-regrid", "interpolate() and regrid() differ on a large grid", **case)
        ref, scale = apply(e.w, v)
        C.check(tuple(a.shape) == e.shape, "wrong-shape", f"{a.shape}", **case)
        C.check(same(a, ref, scale, 1e-6 if v.dtype == np.float32 else 1e-12), "wrong-values", "not weights @ values", **case)
    for _ in range(pick(2, 20)):
        m = rng.randint(70, 200)
        values = [nrng.normal(size=size_of(few.gin)) + 10 * i for i in range(m)]
        fl = from_source("memory", b"".join(message(("O", 8), v, 2, 24, {"level": i + 1}) for i, v in enumerate(values)))
        C.evaluate()
        C.count("long_lists")
        a, ea = outcome(interpolate, fl, out_grid=short(few.gout), method="linear", matrix_source=inv.path)
        b, eb = outcome(regrid, fl, grid=short(few.gout), interpolation="linear", backend="precomputed", inventory=inv.path)
        if not C.check(ea is None and eb is None, "refused", f"interpolate(): {ea!r}, regrid(): {eb!r}", fields=m):
            continue
        if not C.check(len(a) == len(b) == m, "wrong-fieldlist", f"{len(a)}, {len(b)} of {m} fields"):
            continue
        C.nontrivial(("list", m))
        for i in range(m):
            x = a[i].to_numpy()
            ref, scale = apply(few.w, fl[i].to_numpy(flatten=True))
            C.check(identical(x, b[i].to_numpy()), "differs-from-regrid", f"field {i} of {m}")
            C.check(same(x, ref, scale, 1e-6), "wrong-values", f"field {i} of {m}")
            C.check(a[i].metadata("level") == i + 1, "metadata-changed", f"field {i} of {m}")


C.require(large_arrays=6, long_lists=2)
C.require(arrays_compared=300, refused=80, fields_compared=40, refused_fieldlists=40, unsupported=7, defaults=5)
main(C, arrays, fieldlists, unsupported, large)
