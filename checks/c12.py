"""C12: arguments are not modified, results are independent of internal state."""

import copy
import warnings

import earthkit.data  # noqa: F401
import gribtools
import mirtools
import numpy as np
import xarray as xr
from earthkit.data import from_source
from harness import Check
from harness import fresh_dir
from harness import main
from harness import outcome
from harness import pick
from inventory import METHODS
from inventory import Inventory
from inventory import healpix
from inventory import ll
from inventory import octahedral
from inventory import short
from inventory import size_of
from inventory import spelled
from memhist import POLICY

from earthkit.regrid import config  # noqa: E402
from earthkit.regrid import interpolate  # noqa: E402
from earthkit.regrid import regrid  # noqa: E402
from earthkit.regrid.array import regrid as array_regrid  # noqa: E402

config.autosave = False

C = Check(
    "C12",
    "exploration",
    "Random calls of all entry points with both backends, valid and failing; all arguments are fingerprinted before and after, "
    "then results and arguments are overwritten and the call repeated with copies; non-trivial: distinct calls that were repeated.",
    ["MIR", "ecCodes", "xarray"],
)


def print_of(o, deep=0):
    """A value that changes with anything that a call could change in o"""
    if isinstance(o, np.ndarray):
        return ("array", o.dtype.str, o.shape, o.strides, o.flags.writeable, o.tobytes())
    if isinstance(o, dict):
        return (type(o).__name__, [(k, print_of(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [print_of(v) for v in o])
    if isinstance(o, xr.Dataset):
        return ("dataset", str(o.sizes), print_of(o.attrs), [(k, print_of(o[k])) for k in o.data_vars])
    if isinstance(o, xr.DataArray):
        coords = [(k, v.dims, print_of(v.values), print_of(v.attrs)) for k, v in o.coords.items()]
        return ("dataarray", o.name, o.dims, print_of(np.asarray(o.values)), coords, print_of(o.attrs), repr(o.chunks))
    if isinstance(o, earthkit.data.FieldList):
        return ("fieldlist", [print_of(f) for f in o])
    if isinstance(o, earthkit.data.Field):
        md = {k: o.metadata(k, default=None) for k in gribtools.META}
        return ("field", print_of(o.to_numpy()), print_of(md), outcome(o.message)[0])
    if hasattr(o, "getvalue"):
        return ("stream", o.getvalue(), o.tell())
    return (type(o).__name__, repr(o))


def poison(o):
    """Overwrite everything that can be"""
    if isinstance(o, np.ndarray):
        if o.flags.writeable:
            o[...] = -12345
    elif isinstance(o, dict):
        for v in o.values():
            poison(v)
        o.clear()
        o["grid"] = "poisoned"
    elif isinstance(o, list):
        for v in o:
            poison(v)
        o[:] = [7.7] * len(o)
    elif isinstance(o, tuple):
        for v in o:
            poison(v)
    elif isinstance(o, xr.Dataset):
        for k in o.data_vars:
            poison(o[k])
        poison(o.attrs)
    elif isinstance(o, xr.DataArray):
        if o.chunks is None and o.values.flags.writeable:
            o.values[...] = -12345
        for v in o.coords.values():
            if v.values.flags.writeable and v.dtype.kind == "f":
                v.values[...] = -12345
        poison(o.attrs)
    elif isinstance(o, earthkit.data.FieldList):
        for f in o:
            poison(f)
    elif isinstance(o, earthkit.data.Field):
        v = o.to_numpy()
        if v.flags.writeable:
            v[...] = -12345


def tuples(rng, grid):
    """The grid with some of its lists as tuples"""
    return {k: tuple(v) if isinstance(v, list) and rng.random() < 0.4 else v for k, v in grid.items()}


class Call:
    """A call, whose arguments can be made any number of times"""

    def __init__(self, name, f, args, kwargs, loader=None):
        self.name = name
        self.f = f
        self.args = args
        self.kwargs = kwargs
        self.loader = loader or copy.deepcopy

    def arguments(self):
        return [self.loader(a) if i == 0 else copy.deepcopy(a) for i, a in enumerate(self.args)], copy.deepcopy(self.kwargs)

    def __repr__(self):
        return f"{self.name}({self.args[1:]}, {self.kwargs})"[:300]


def result_print(res):
    if isinstance(res, xr.DataArray):
        return ("dataarray", res.dims, print_of(np.asarray(res.values)), print_of(res.attrs), [(k, print_of(v.values)) for k, v in res.coords.items()])
    if isinstance(res, xr.Dataset):
        return [result_print(res[k]) for k in res.data_vars]
    if isinstance(res, tuple):
        return [result_print(x) for x in res]
    if isinstance(res, np.ndarray):
        return (res.dtype.str, res.shape, res.tobytes())
    return print_of(res)


def judge(call, must_fail, reference):
    """Make the call with watched arguments, spoil what it used and returned, and make it again"""
    C.evaluate()
    C.count("calls")
    C.count("calls_" + call.name)
    args, kwargs = call.arguments()
    before = print_of(args), print_of(kwargs)
    res, err = outcome(call.f, *args, **kwargs)
    case = dict(call=repr(call))
    if not C.check((print_of(args), print_of(kwargs)) == before, "argument-changed", f"an argument of {call.name} was modified", **case):
        return
    if must_fail:
        C.count("failing_calls")
        if err is None and isinstance(res, xr.DataArray):
            # lazy
            err = outcome(res.compute)[1]
        C.check(err is not None, "failure-expected", "the call did not fail", **case)
        return
    if not C.check(err is None, "failed", f"{err!r}", **case):
        return
    p = result_print(res)
    if reference is not None:
        C.check(p == reference, "depends-on-history", "the result differs from that of the first call", **case)
    # overwriting the arguments leaves the result
    lazy = any(isinstance(a, (xr.DataArray, xr.Dataset)) and a.chunks for a in args)
    views = isinstance(res, earthkit.data.FieldList) or isinstance(res, earthkit.data.Field)
    for a in args[0 if not lazy and not views else 1 :]:
        poison(a)
    # the attributes of a result may be those of the argument, and the returned gridspec is the one given
    q = result_print(res)
    C.check(values_of(q) == values_of(p), "aliases-argument", "the result changed with the arguments", **case)
    if "grid" in kwargs:
        poison(kwargs["grid"])
        q, err = outcome(result_print, res)
        C.check(err is None and values_of(q) == values_of(p), "aliases-argument", "the result changed with the grid", **case)
    poison(res)
    C.count("poisoned")
    C.nontrivial(repr(call))
    return p


def values_of(p):
    """The part of the print with the values"""
    if isinstance(p, tuple) and p and p[0] == "dataarray":
        return p[1:3]
    if isinstance(p, list) and len(p) == 2 and isinstance(p[0], tuple) and isinstance(p[1], tuple) and p[1][0] == "dict":
        return p[0]
    if isinstance(p, list):
        return [values_of(x) for x in p]
    return p


def layouts(rng, v, shape):
    how = rng.choice(["flat", "shaped", "readonly"])
    v = v.copy()
    if how == "shaped":
        v = v.reshape(shape)
    if how == "readonly":
        v.flags.writeable = False
    return v


def frozen(v):
    """deepcopy forgets that an array is read-only"""
    w = v.copy()
    w.flags.writeable = v.flags.writeable
    return w


def objects(rng, nrng, kind):
    """(name, first argument, loader) of inputs on the grid"""
    spec = gribtools.gridspec(kind)
    v = nrng.normal(size=gribtools.size(kind)) + 280
    shape = mirtools.points(spec)[2]
    what = rng.choice(["field", "fieldlist", "dataarray", "dataarray", "dask", "dataset"])
    if what.startswith("field"):
        n = rng.randint(1, 3) if what == "fieldlist" else 1
        edition = 2 if kind[0] == "H" else rng.choice([1, 2])
        data = b"".join(
            gribtools.message(kind, v + i, edition, 24, gribtools.random_keys(rng, edition)) for i in range(n)
        )

        def load(d):
            fl = from_source("memory", d)
            return fl if what == "fieldlist" else fl[0]

        return what, data, load
    dims = ["latitude", "longitude"] if len(shape) == 2 else ["values"]
    da = xr.DataArray(
        np.stack([v.reshape(shape), v.reshape(shape) * 2]), dims=["step"] + dims, name="t", attrs={"gridspec": spec, "x": [1, 2]}
    ).assign_coords(step=[0, 6], lead=("step", [1.5, 2.5]))
    if what == "dataset":
        da = xr.Dataset({"a": da, "b": da * 3}, attrs={"gridspec": spec})
        da["b"].attrs.update(gridspec=dict(spec))

    def load(x):
        x = x.copy(deep=True)
        return x.chunk(step=1) if what == "dask" else x

    return what, da, load


def lookup(kind):
    if kind[0] == "ll":
        return ll(kind[1][0])
    return healpix(kind[1], kind[2]) if kind[0] == "H" else octahedral(kind[1])


def random_calls(rng, nrng, n):
    kinds = [("ll", (10, 10)), ("O", 8), ("H", 4, "nested"), ("H", 4, "ring")]
    inv = Inventory(fresh_dir("inv"), rng.randrange(1 << 30))
    outs = [ll(10), ll(5), ll(2.5)]
    for k in kinds:
        for o in outs:
            if short(lookup(k)) != short(o):
                for m in METHODS:
                    inv.add(lookup(k), o, m)
    inv.write()
    calls = []
    while len(calls) < n:
        kind = rng.choice(kinds)
        gin = lookup(kind)
        gout = rng.choice([o for o in outs if short(o) != short(gin)])
        spec = gribtools.gridspec(kind)
        mirgrid = dict(rng.choice([{"grid": [10, 10]}, {"grid": [15, 10]}, {"grid": "O8"}, {"grid": "H4", "order": "nested"}]))
        if isinstance(mirgrid["grid"], list) and rng.random() < 0.6:
            mirgrid["area"] = [40, 0, 0, 60]
        backend = rng.choice(["mir", "precomputed", "interpolate"])
        method = rng.choice(METHODS)
        v = layouts(rng, nrng.normal(size=size_of(gin)), mirtools.points(spec)[2])
        entry = rng.choice([dict(gin), short(gin)]), rng.choice([dict(gout), short(gout)])
        arrays = rng.random() < 0.5
        if arrays:
            what, x, load = "array", v, frozen
        else:
            what, x, load = objects(rng, nrng, kind)
        fail = rng.random() < 0.25
        if backend == "mir":
            kw = dict(interpolation=rng.choice(mirtools.INTERPOLATIONS))
            if kw["interpolation"] == "nearest-neighbour" and rng.random() < 0.5:
                kw.update(nearest_method="nclosest", nclosest=2, distance=1)
            if what.startswith("field") or what == "array" and rng.random() < 0.3:
                mirgrid.pop("order", None)
                mirgrid = mirgrid if not str(mirgrid["grid"]).startswith("H") else {"grid": "O16"}
            if fail:
                how = rng.choice(["grid", "option", "method"])
                if how == "grid":
                    mirgrid = {"grid": "X9", "area": [1, 2]}
                elif how == "option":
                    kw["nonsense"] = [1, {"a": 2}]
                else:
                    kw["interpolation"] = "nonsense"
                    mirgrid = {"grid": [15, 10]}
            if arrays:
                calls.append((Call(what + "_mir", array_regrid, [x, spec, mirgrid], kw, load), fail))
            else:
                calls.append((Call(what + "_mir", regrid, [x], dict(kw, grid=mirgrid), load), fail))
        else:
            gi, go = [tuples(rng, x) for x in entry]
            m = spelled(method, rng)
            if fail:
                how = rng.choice(["grid", "method", "size"] if arrays else ["grid", "method"])
                if how == "grid":
                    go = {"grid": [3, 3], "area": [90, 0, -90, 357], "shape": [61, 120]}
                elif how == "method":
                    m = "nonsense"
                else:
                    x = x.ravel()[:-1]
            if backend == "interpolate":
                if what not in ("array", "fieldlist"):
                    continue
                if arrays:
                    calls.append((Call("array_interpolate", interpolate, [x, gi, go], dict(method=m, matrix_source=inv.path), load), fail))
                else:
                    c = Call("fieldlist_interpolate", interpolate, [x], dict(out_grid=go, method=m, matrix_source=inv.path), load)
                    calls.append((c, fail))
            else:
                kw = dict(interpolation=m, backend="precomputed", inventory=inv.path)
                if arrays:
                    calls.append((Call("array_precomputed", array_regrid, [x, gi, go], kw, load), fail))
                else:
                    if what.startswith("da"):
                        go = short(go)
                    calls.append((Call(what + "_precomputed", regrid, [x], dict(kw, grid=go), load), fail))
    return calls


def histories():
    warnings.simplefilter("ignore")
    rng = C.rng("histories")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    n = 0
    while n < pick(5, 200) and C.elapsed() < pick(40, 620):
        n += 1
        config.reset()
        config.set(POLICY, rng.choice(["unlimited", "largest", "lru", "off"]))
        calls = random_calls(rng, nrng, 45)
        references = {}
        for _ in range(3):
            order = list(range(len(calls)))
            rng.shuffle(order)
            for i in order:
                call, fail = calls[i]
                p = judge(call, fail, references.get(i))
                if p is not None:
                    references.setdefault(i, p)
        C.sample([repr(c) for c, _ in calls[:5]])


def lazy_grid():
    """A lazy result keeps the grid it was asked for"""
    rng = C.rng("lazy")
    for _ in range(pick(10, 60)):
        spec, shape = rng.choice(mirtools.GRIDS[:9])
        v = np.random.default_rng(rng.randrange(99)).normal(size=(2,) + tuple(shape))
        dims = ["latitude", "longitude"] if len(shape) == 2 else ["values"]
        da = xr.DataArray(v, dims=["step"] + dims, attrs={"gridspec": dict(spec)})
        grid = {"grid": [10, 10]}
        C.evaluate()
        ref = regrid(da, grid={"grid": [10, 10]}).values
        lazy = regrid(da.chunk(step=1), grid=grid)
        grid["grid"] = rng.choice(["O8", [20, 20]])
        grid["area"] = [50, 0, 0, 50]
        da.attrs["gridspec"]["grid"] = "H2"
        res, err = outcome(lambda: lazy.compute().values)
        C.check(err is None and np.array_equal(res, ref), "lazy-changed", f"{err!r}: the lazy result depends on later changes", spec=spec)
        C.count("lazy")


def large():
    """Arrays of 10^5 points and more"""
    warnings.simplefilter("ignore")
    rng = C.rng("large")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    inv = Inventory(fresh_dir("inv"), rng.randrange(1 << 30))
    pool = [ll(0.5), ll(0.75), octahedral(200), healpix(128, "ring"), healpix(128, "nested")]
    for g in pool:
        inv.add(g, ll(10), "linear")
    up = inv.add(ll(10), ll(0.5), "linear")
    inv.write()
    budget = C.elapsed() + pick(15, 120)
    rounds = 0
    while rounds < 1 or C.elapsed() < budget and rounds < 20:
        rounds += 1
        config.reset()
        config.set(POLICY, rng.choice(["unlimited", "largest", "lru", "off"]))
        calls = []
        for e in inv.entries:
            v = nrng.normal(size=size_of(e.gin)) + 280
            if rng.random() < 0.5:
                v[nrng.integers(0, v.size, 5)] = np.nan
            v = layouts(rng, v, e.gin.get("shape", v.shape)) if e.gin["grid"] != [0.5, 0.5] else v
            pair = [v, short(e.gin), short(e.gout)]
            calls.append(Call("array_interpolate", interpolate, pair, dict(method="linear", matrix_source=inv.path), frozen))
            kw = dict(interpolation="linear", backend="precomputed", inventory=inv.path)
            calls.append(Call("array_precomputed", array_regrid, pair, kw, frozen))
            if e is up:
                continue
            kw = dict(interpolation=rng.choice(mirtools.INTERPOLATIONS[:2]))
            calls.append(Call("array_mir", array_regrid, [v, short(e.gin), {"grid": [10, 10]}], kw, frozen))
            shape = mirtools.points(short(e.gin))[2]
            dims = ["latitude", "longitude"] if len(shape) == 2 else ["values"]
            da = xr.DataArray(v.reshape(shape), dims=dims, attrs={"gridspec": short(e.gin)})
            calls.append(Call("dataarray_mir", regrid, [da], dict(kw, grid={"grid": [10, 10]}), lambda x: x.copy(deep=True)))
        references = {}
        for _ in range(2):
            order = list(range(len(calls)))
            rng.shuffle(order)
            for i in order:
                p = judge(calls[i], False, references.get(i))
                C.count("large_calls")
                if p is not None:
                    references.setdefault(i, p)
    config.reset()


C.require(large_calls=20)
C.require(calls=300, failing_calls=60, poisoned=200, lazy=10)
main(C, histories, lazy_grid, large)
