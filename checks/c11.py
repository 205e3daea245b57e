"""C11: xarray objects."""

import json
import os

import earthkit.data  # noqa: F401
import gribtools
import mirtools
import numpy as np
import xarray as xr
from earthkit.data import from_source
from harness import Check
from harness import fresh_dir
from harness import main
from harness import outcome
from harness import pick
from inventory import METHODS
from inventory import Inventory
from inventory import apply
from inventory import healpix
from inventory import ll
from inventory import octahedral
from inventory import short
from inventory import size_of
from inventory import spelled
from mirtools import GRIDS
from mirtools import INTERPOLATIONS
from mirtools import is_ll

from earthkit.regrid import config  # noqa: E402
from earthkit.regrid import regrid  # noqa: E402
from earthkit.regrid.array import regrid as array_regrid  # noqa: E402

config.autosave = False

C = Check(
    "C11",
    "exploration",
    "Random DataArrays and Datasets (dimensions, coordinates, dtypes, chunks, grids) through both backends; every output "
    "slice compared with the array interface or the weights; non-trivial: distinct objects that were compared.",
    ["MIR", "xarray"],
)

NAMES = ["step", "level", "number", "time", "y2"]


def hdims(shape):
    return ["latitude", "longitude"] if len(shape) == 2 else ["values"]


def make(rng, nrng, spec, shape, dtype=float, sizes=None, with_attr=True, values=None):
    """A DataArray with random other dimensions and coordinates"""
    if sizes is None:
        sizes = {k: rng.randint(1, 3) for k in rng.sample(NAMES, rng.choice([0, 1, 1, 2, 2, 3]))}
    full = tuple(sizes.values()) + tuple(shape)
    if values is None:
        v = nrng.normal(size=full) * rng.choice([1, 100]) + rng.choice([0, 280])
        v = (v * 3).astype(dtype) if np.dtype(dtype).kind in "iu" else v.astype(dtype)
    else:
        v = np.broadcast_to(values.reshape(shape), full) * 1.0
    da = xr.DataArray(v, dims=list(sizes) + hdims(shape), name=rng.choice(["t", "2t", None]))
    for k, n in sizes.items():
        c = rng.random()
        if c < 0.4:
            da.coords[k] = nrng.permutation(n) * 6 + 1
        elif c < 0.6:
            da.coords[k] = [f"{k}{i}" for i in nrng.permutation(n)]
        elif c < 0.8:
            da.coords[k] = np.datetime64("2020-01-01T00:00:00", "ns") + np.arange(n) * np.timedelta64(6, "h")
    if sizes and rng.random() < 0.5:
        dims = rng.sample(list(sizes), rng.randint(1, len(sizes)))
        da.coords["aux"] = (dims, nrng.normal(size=[sizes[k] for k in dims]))
    if rng.random() < 0.5:
        da.coords["scalar"] = 7
    if rng.random() < 0.5:
        # the coordinates of the input points, to be replaced
        lat, lon, sh = mirtools.points(spec)
        if len(shape) == 1:
            da.coords["latitude"] = ("values", lat)
            da.coords["longitude"] = ("values", lon)
        elif tuple(sh) == tuple(shape):
            da.coords["latitude"] = lat.reshape(sh)[:, 0]
            da.coords["longitude"] = lon.reshape(sh)[0]
    da.attrs["units"] = "K"
    if with_attr:
        da.attrs["gridspec"] = dict(spec)
    return da, sizes


def chunked(rng, da, sizes):
    chunks = {k: rng.randint(1, n) for k, n in sizes.items() if rng.random() < 0.7}
    if rng.random() < 0.3:
        k = [d for d in da.sizes if d not in sizes][-1]
        chunks[k] = max(1, da.sizes[k] // rng.randint(1, 3))
    return da.chunk(chunks)


def judge_coords(res, src, sizes, spec, case, tol=1e-9):
    """Other coordinates are those of the input, the horizontal ones those of the grid"""
    for k in src.coords:
        if k in ("latitude", "longitude"):
            continue
        ok = C.check(k in res.coords, "coordinate-lost", f"{k}", **case)
        if ok:
            same = set(res.coords[k].dims) == set(src.coords[k].dims)
            C.check(
                same and np.array_equal(res.coords[k].transpose(*src.coords[k].dims).values, src.coords[k].values),
                "coordinate-changed",
                f"{k}: {src.coords[k].values} became {res.coords[k].values}",
                **case,
            )
    extra = set(map(str, res.coords)) - set(map(str, src.coords)) - {"latitude", "longitude"}
    C.check(not extra, "coordinate-invented", f"{extra}", **case)
    lat, lon, shape = mirtools.points(spec)
    if not C.check("latitude" in res.coords and "longitude" in res.coords, "no-points", f"{list(res.coords)}", **case):
        return
    a, b = res.coords["latitude"], res.coords["longitude"]
    if len(shape) == 2:
        ok = a.dims == ("latitude",) and b.dims == ("longitude",)
        if ok:
            la, lo = np.meshgrid(a.values, b.values, indexing="ij")
    else:
        ok = a.dims == ("values",) and b.dims == ("values",)
        la, lo = a.values, b.values
    if C.check(ok, "wrong-points", f"dimensions {a.dims} and {b.dims}", **case):
        ok = la.size == lat.size and np.abs(la.ravel() - lat).max() < tol
        ok = ok and np.abs((lo.ravel() - lon + 180) % 360 - 180).max() < tol
        C.check(ok, "wrong-points", "the latitudes or longitudes are not those of the points", got=la, expected=lat, **case)
        C.count("points_compared")


def judge_values(res, src, sizes, shape, reference, case):
    """reference(slice) for each combination of the other dimensions"""
    want = tuple(src.sizes[k] for k in sizes) + tuple(shape)
    dims = tuple(sizes) + tuple(hdims(shape))
    C.check(res.dims == dims, "wrong-dimensions", f"{res.dims} instead of {dims}", **case)
    if not C.check(res.shape == want, "wrong-shape", f"{res.shape} instead of {want}", **case):
        return
    got = np.asarray(res.values)
    C.check(got.dtype.kind == "f", "wrong-dtype", f"{got.dtype} from {src.dtype}", **case)
    single = got.dtype == np.float32
    C.check(not single or src.dtype == np.float32, "wrong-dtype", f"{got.dtype} from {src.dtype}", **case)
    # core dimensions last
    h = [d for d in src.dims if d not in sizes]
    vals = src.transpose(*sizes, *h).values
    for i in np.ndindex(*want[: len(sizes)]):
        ref, scale = reference(vals[i])
        ref = np.asarray(ref).reshape(shape)
        C.count("slices_compared")
        tol = 1e-12 * scale if not single else 1e-6 * scale
        x = got[i]
        with np.errstate(invalid="ignore"):
            ok = bool(((np.abs(x - ref) <= tol) | (np.isnan(x) & np.isnan(ref)) | (x == ref)).all())
        if not C.check(ok, "wrong-values", f"slice {i} is not what the array interface returns", got=x, expected=ref, **case):
            return


def gridspec_attr(res, spec, case):
    """The grid in the attributes is the one of the values"""
    g = res.attrs.get("gridspec")
    if not C.check(g is not None, "no-gridspec", "the gridspec attribute is lost", **case):
        return
    p, err = outcome(mirtools.points, g)
    q = mirtools.points(spec)
    ok = err is None and p[0].shape == q[0].shape and np.allclose(p[0], q[0]) and np.allclose(p[1], q[1])
    C.check(ok, "wrong-gridspec", f"the gridspec attribute is {g}", **case)
    C.count("gridspecs_compared")


def area_of(rng, spec, least=0):
    """A sub-area on the points that MIR is able to cut out. MIR aborts the process for the grid
    box averages of a single row or column."""
    dx, dy = spec["grid"]
    n, w = dy * rng.randint(1, int(50 // dy) + 1), dx * rng.randint(0, 3)
    area = [n, w, n - dy * rng.randint(least, 4), w + dx * rng.randint(least, 4)]
    return dict(spec, area=area), (int(round((area[0] - area[2]) / dy)) + 1, int(round((area[3] - area[1]) / dx)) + 1)


def with_mir():
    rng = C.rng("mir")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    small = [g for g in GRIDS if mirtools.size(g[1]) < 3500]
    n = 0
    while n < pick(150, 8000) and C.elapsed() < pick(25, 330):
        n += 1
        gin, sin = rng.choice(small)
        gout, sout = rng.choice(small)
        dtype = rng.choice([float, float, np.float32])
        inter = rng.choice(INTERPOLATIONS)
        if is_ll(gout) and rng.random() < 0.3:
            gout, sout = area_of(rng, gout, 1 if inter == "grid-box-average" else 0)
        attr = rng.random() < 0.75
        da, sizes = make(rng, nrng, gin, sin, dtype, with_attr=attr)
        kw = dict(grid=dict(gout), interpolation=inter)
        if not attr:
            kw["grid_spec"] = dict(gin)
        case = dict(gin=gin, gout=gout, interpolation=inter, dtype=np.dtype(dtype).name, dims=dict(da.sizes), attr=attr)

        def ref(v):
            x, err = outcome(array_regrid, np.ascontiguousarray(v), dict(gin), dict(gout), interpolation=inter)
            if err is not None:
                raise err
            return x[0], np.abs(v).max()

        _, refused = outcome(ref, np.zeros(sin, dtype=dtype))
        how = rng.choice(["dataarray", "dataarray", "dask", "dataset", "dask-dataset", "transposed"])
        case["how"] = how
        C.evaluate()
        if how in ("dataset", "dask-dataset"):
            others = rng.choice([sizes, {}, {"extra": 2, **sizes}])
            other, _ = make(rng, nrng, gin, sin, dtype, sizes=others, with_attr=attr)
            for k in list(other.coords):
                other = other.drop_vars(k)
            x = xr.Dataset({"a": da, "b": other} if rng.random() < 0.5 else {"b": other, "a": da})
            x.attrs["title"] = "x"
            if attr:
                x.attrs["gridspec"] = dict(gin)
            if how == "dask-dataset":
                x = chunked(rng, x, sizes)
            try_in = x
        elif how == "dask":
            try_in = chunked(rng, da, sizes)
        elif how == "transposed" and sizes:
            h = hdims(sin)
            try_in = da.transpose(*h, *sizes)
            kw["in_dims"] = h[0] if len(h) == 1 and rng.random() < 0.5 else h
            if rng.random() < 0.5:
                # in dimensions with other names
                names = dict(zip(h, ["cell"] if len(h) == 1 else ["j", "i"]))
                try_in = try_in.drop_vars([k for k in h + ["latitude", "longitude"] if k in try_in.coords]).rename(names)
                kw["in_dims"] = list(names.values())
        else:
            try_in = da
        res, err = outcome(regrid, try_in, **kw)
        if err is None and how.startswith("dask"):
            res, err = outcome(res.compute)
        if refused is not None:
            C.count("refused_by_mir")
            C.check(err is not None, "fails-unlike-array", f"array: {refused!r} but a result", **case)
            continue
        if err is not None:
            C.violation("fails-unlike-array", f"{err!r}", **case)
            continue
        C.count("objects")
        C.count("objects_" + how)
        C.nontrivial(json.dumps(case, default=str))
        C.sample(case)
        if how in ("dataset", "dask-dataset"):
            C.check(isinstance(res, xr.Dataset), "wrong-kind", f"{type(res)}", **case)
            if not C.check(set(res.data_vars) == {"a", "b"}, "wrong-variables", f"{list(res.data_vars)}", **case):
                continue
            judge_values(res["a"], da, sizes, sout, ref, case)
            judge_values(res["b"], other, others, sout, ref, case)
            judge_coords(res, da, sizes, gout, case)
            if attr and "area" not in gout:
                gridspec_attr(res["a"], gout, case)
                gridspec_attr(res["b"], gout, case)
        else:
            C.check(isinstance(res, xr.DataArray), "wrong-kind", f"{type(res)}", **case)
            judge_values(res, try_in, sizes, sout, ref, case)
            judge_coords(res, da, sizes, gout, case)
            if attr and "area" not in gout:
                gridspec_attr(res, gout, case)


def analytic():
    """The coordinates belong to the values: a smooth field is reproduced at the points"""
    rng = C.rng("analytic")
    nrng = np.random.default_rng(1)
    fine = [({"grid": "O32"}, None), ({"grid": [5, 5]}, None), ({"grid": "H16"}, None), ({"grid": "H16", "order": "nested"}, None)]
    for _ in range(pick(40, 600)):
        gin = rng.choice(fine)[0]
        lat, lon, sin = mirtools.points(gin)
        v = mirtools.smooth(lat, lon)
        gout, sout = rng.choice(GRIDS)
        if is_ll(gout) and rng.random() < 0.6:
            gout, sout = area_of(rng, gout)
        da, sizes = make(rng, nrng, gin, sin, sizes={"step": 1}, values=v)
        lazy = rng.random() < 0.5
        C.evaluate()
        res, err = outcome(lambda: regrid(da.chunk() if lazy else da, grid=dict(gout)).compute())
        _, refused = outcome(array_regrid, v, dict(gin), dict(gout))
        case = dict(gin=gin, gout=gout, lazy=lazy)
        if refused is not None:
            C.check(err is not None, "fails-unlike-array", f"array: {refused!r} but a result", **case)
            continue
        if not C.check(err is None, "fails-unlike-array", f"{err!r}", **case):
            continue
        a, o = res.coords["latitude"], res.coords["longitude"]
        if len(sout) == 2:
            a, o = np.meshgrid(a.values, o.values, indexing="ij")
        else:
            a, o = a.values, o.values
        x = res.values[0]
        if C.check(x.shape == a.shape, "wrong-shape", f"{x.shape} for {a.shape} points", **case):
            e = np.abs(x - mirtools.smooth(a, o)).max()
            C.check(e < 0.12, "wrong-points", f"the values differ by {e} from the field at the coordinates", **case)
            C.count("analytic")


def from_grib():
    """Objects that earthkit-data makes of GRIB fields, whose grid comes from the accessor"""
    rng = C.rng("grib")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    for _ in range(pick(12, 200)):
        kind = rng.choice(gribtools.KINDS)
        msgs, fields = b"", []
        levels = rng.sample([1000, 850, 500, 300], rng.randint(1, 3))
        keys = dict(dataDate=20200101, dataTime=0, step=0)
        for lev in levels:
            v = nrng.normal(size=gribtools.size(kind)) + 270
            k = dict(keys, typeOfLevel="isobaricInhPa", level=lev, shortName="t")
            fields.append(gribtools.message(kind, v, 2, 24, k))
            msgs += fields[-1]
        ds, err = outcome(lambda: from_source("memory", msgs).to_xarray())
        if err is not None:
            continue
        gout, sout = rng.choice(GRIDS[:8])
        x = ds["t"] if rng.random() < 0.5 else ds
        C.evaluate()
        res, err = outcome(regrid, x, grid=dict(gout))
        case = dict(kind=kind, gout=gout, levels=levels)
        if not C.check(err is None, "fails-unlike-array", f"{err!r}", **case):
            continue
        if isinstance(x, xr.Dataset):
            res = res["t"]
        src = ds["t"]
        C.count("from_grib")
        sizes = [d for d in src.dims if d not in ("latitude", "longitude", "values")]
        C.check(res.dims == tuple(sizes + hdims(sout)), "wrong-dimensions", f"{res.dims} from {src.dims}", **case)
        for d in sizes:
            C.check(
                d in res.coords and np.array_equal(res.coords[d].values, src.coords[d].values), "coordinate-changed", d, **case
            )
        got = res.values.reshape((-1,) + tuple(sout))
        vals = src.values.reshape((len(got), -1))
        for i in range(len(got)):
            ref = array_regrid(np.ascontiguousarray(vals[i]), gribtools.gridspec(kind), dict(gout))[0]
            C.check(np.allclose(got[i], ref, rtol=1e-6, atol=1e-9), "wrong-values", f"slice {i}", **case)


def with_weights():
    rng = C.rng("weights")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    pool = [ll(10), ll(5), octahedral(8), octahedral(16), healpix(4, "ring"), healpix(4, "nested"), healpix(2, "nested")]
    n = 0
    while n < pick(60, 4000) and C.elapsed() < pick(60, 540):
        n += 1
        inv = Inventory(fresh_dir("inv"), rng.randrange(1 << 30))
        gin, gout = rng.sample(pool, 2)
        method = rng.choice(METHODS)
        e = inv.add(gin, gout, method)
        inv.add(gin, gout, rng.choice([m for m in METHODS if m != method]))
        for g in pool:
            if g is not gin and g is not gout:
                inv.add(g, gout, method)
        inv.write()
        sin = tuple(gin.get("shape", [size_of(gin)]))
        sout = tuple(gout.get("shape", [size_of(gout)]))
        dtype = rng.choice([float, np.float32, int, np.int16, np.uint8, bool])
        da, sizes = make(rng, nrng, short(gin), sin, float if dtype is bool else dtype)
        if dtype is bool:
            da = (da > da.mean()).assign_attrs(da.attrs)
        how = rng.choice(["dataarray", "dask", "dataset"])
        x = da
        if how == "dask":
            x = chunked(rng, da, sizes)
        elif how == "dataset":
            x = xr.Dataset({"a": da, "b": da}, attrs={"gridspec": short(gin)})
        kw = dict(backend="precomputed", inventory=inv.path, interpolation=spelled(method, rng))
        case = dict(gin=short(gin), gout=short(gout), method=method, dtype=np.dtype(dtype).name, how=how, dims=dict(da.sizes))
        C.evaluate()
        if rng.random() < 0.3:
            # a relative path, and a lazy result computed in another directory with an inventory of that name
            case["relative"] = True
            here = os.getcwd()
            os.chdir(os.path.dirname(inv.path))
            kw["inventory"] = os.path.basename(inv.path)
            lazy, err = outcome(regrid, x, grid=short(gout), **kw)
            os.chdir(here)
            kw["inventory"] = inv.path
            if err is None:
                decoy = fresh_dir("decoy")
                bad = Inventory(os.path.join(decoy, os.path.basename(inv.path)), rng.randrange(1 << 30))
                bad.add(gin, gout, method)
                bad.write()
                os.chdir(decoy)
                res, err = outcome(lazy.compute)
                os.chdir(here)
                C.count("relative_paths")
        else:
            res, err = outcome(lambda: regrid(x, grid=short(gout), **kw).compute())
        if err is not None:
            C.violation("fails-unlike-array", f"{err!r}", **case)
            continue
        C.count("objects_weights")
        C.nontrivial(json.dumps(case, default=str))

        def ref(v):
            r, scale = apply(e.w, v)
            return r, scale.reshape(sout) + 1e-300

        for r in [res["a"], res["b"]] if how == "dataset" else [res]:
            judge_values(r, da, sizes, sout, ref, case)
            if np.dtype(dtype).kind in "iub":
                C.count("integers_compared")
                C.check(r.dtype == np.float64, "wrong-dtype", f"{r.dtype} from {dtype}", **case)
            judge_coords(r, da, sizes, short(gout), case, tol=1e-3)
        # not in the inventory
        res, err = outcome(lambda: regrid(x, grid={"grid": [2, 2]}, **kw).compute())
        C.check(isinstance(err, ValueError), "no-weights-accepted", f"{err!r}", **case)


def refused():
    rng = C.rng("refused")
    nrng = np.random.default_rng(1)
    for _ in range(pick(10, 100)):
        gin, sin = rng.choice(GRIDS[:8])
        da, sizes = make(rng, nrng, gin, sin, with_attr=False, sizes={"step": 2})
        C.evaluate()
        # no grid, in the attributes nor as an option
        C.check(isinstance(outcome(regrid, da, grid={"grid": [10, 10]})[1], ValueError), "no-grid-accepted", f"{gin}")
        # the horizontal dimensions cannot be told
        x = da.rename({hdims(sin)[0]: "q"}) if len(sin) == 1 else da.transpose("longitude", "latitude", "step")
        if "q" in x.dims:
            x = x.drop_vars([c for c in x.coords if c in ("latitude", "longitude")])
        r, err = outcome(regrid, x, grid={"grid": [10, 10]}, grid_spec=gin)
        C.check(err is not None, "unknown-dimensions-accepted", f"{x.dims}")
        # other sizes than those of the grid
        r, err = outcome(regrid, da[..., :-1], grid={"grid": [10, 10]}, grid_spec=gin)
        C.check(err is not None, "wrong-size-accepted", f"{da.shape}")
        r, err = outcome(regrid, da, grid_spec=gin)
        C.check(err is not None, "no-target-accepted", f"{err!r}")
        C.count("refused", 4)


def many_slices():
    """More slices, chunks and variables than a few, each in its place"""
    rng = C.rng("many")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    inv = Inventory(fresh_dir("inv"), rng.randrange(1 << 30))
    gin, gout = octahedral(8), ll(10)
    e = inv.add(gin, gout, "linear")
    inv.write()
    sin, sout = (size_of(gin),), tuple(gout["shape"])

    def ref(v):
        r, scale = apply(e.w, v)
        return r, scale.reshape(sout) + 1e-300

    for i in range(pick(4, 40)):
        if C.elapsed() > pick(100, 660):
            break
        sizes = rng.choice([{"time": 400}, {"time": 21, "level": 17}, {"number": 51, "step": 11}])
        how = ["dask", "dataset", "dataarray", "dask"][i % 4]
        case = dict(how=how, sizes=sizes)
        if how == "dataset":
            sizes = {"step": 3}
            names = [f"v{k}" for k in nrng.permutation(70)]
            das = {k: make(rng, nrng, short(gin), sin, float, sizes=sizes, with_attr=False)[0] for k in names}
            das = {k: v.drop_vars(list(v.coords)) for k, v in das.items()}
            x = xr.Dataset(das, attrs={"gridspec": short(gin)})
        else:
            da, _ = make(rng, nrng, short(gin), sin, float, sizes=sizes)
            x = da
        if how == "dask":
            x = da.chunk({k: rng.randint(1, 2) for k in sizes})
        C.evaluate()
        res, err = outcome(lambda: regrid(x, grid=short(gout), backend="precomputed", inventory=inv.path, interpolation="linear").compute())
        if not C.check(err is None, "fails-unlike-array", f"{err!r}", **case):
            continue
        if how == "dataset":
            if C.check(set(res.data_vars) == set(das), "wrong-variables", f"{len(res.data_vars)} for {len(das)}", **case):
                for k in das:
                    judge_values(res[k], das[k], sizes, sout, ref, dict(case, variable=k))
                C.count("many_variables", len(das))
        else:
            judge_values(res, da, sizes, sout, ref, case)
            judge_coords(res, da, sizes, short(gout), case, tol=1e-3)
            C.count("many_slices", int(np.prod(list(sizes.values()))))


def large_grids():
    """Fields of the sizes used in practice"""
    rng = C.rng("large")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    big = [({"grid": [0.5, 0.5]}, (361, 720)), ({"grid": "O160"}, (4 * 160 * 169,)), ({"grid": "H128", "order": "nested"}, (12 * 128**2,))]
    small = [g for g in GRIDS if mirtools.size(g[1]) < 3500]
    for i in range(pick(4, 40)):
        if C.elapsed() > pick(130, 740):
            break
        (gin, sin), (gout, sout) = [(rng.choice(big), rng.choice(small)), (rng.choice(small), rng.choice(big)), (rng.choice(big), rng.choice(big))][
            i % 3
        ]
        da, sizes = make(rng, nrng, gin, sin, rng.choice([float, np.float32]), sizes={"level": 2})
        x = chunked(rng, da, sizes) if rng.random() < 0.5 else da
        case = dict(gin=gin, gout=gout)
        C.evaluate()
        res, err = outcome(lambda: regrid(x, grid=dict(gout), interpolation="linear").compute())
        if not C.check(err is None, "fails-unlike-array", f"{err!r}", **case):
            continue

        def ref(v):
            r = array_regrid(np.ascontiguousarray(v), dict(gin), dict(gout), interpolation="linear")
            return r[0], np.abs(v).max()

        judge_values(res, da, sizes, sout, ref, case)
        judge_coords(res, da, sizes, gout, case)
        C.count("large_grids")


C.require(many_slices=300, many_variables=50, large_grids=3)
C.require(
    objects=80, slices_compared=300, points_compared=80, gridspecs_compared=30, analytic=20, objects_weights=30, integers_compared=10,
    from_grib=6, refused=20, relative_paths=8,
)  # fmt: skip
main(C, with_mir, analytic, from_grib, with_weights, refused, many_slices, large_grids)
