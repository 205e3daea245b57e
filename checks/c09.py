"""C09: options of the MIR backend."""

from io import BytesIO

import earthkit.data  # noqa: F401
import gribtools
import mir
import mirtools
import numpy as np
import xarray as xr
from earthkit.data import from_source
from harness import Check
from harness import main
from harness import outcome
from harness import pick
from mirtools import NEAREST
from mirtools import direct
from mirtools import direct_grib
from mirtools import identical

from earthkit.regrid import config  # noqa: E402
from earthkit.regrid import regrid  # noqa: E402
from earthkit.regrid.array import regrid as array_regrid  # noqa: E402

config.autosave = False

C = Check(
    "C09",
    "exploration",
    "Random combinations of the documented options, given or not, for every kind of input; the options that the MIR jobs "
    "receive are recorded and the results compared with MIR driven directly; non-trivial: distinct calls that were compared.",
    ["MIR"],
)

RealJob = mir.Job
RECORD = []


class RecordingJob:
    """mir.Job that notes what it is told"""

    def __init__(self, *args, **kwargs):
        self.job = RealJob(*args, **kwargs)
        self.options = {}

    def set(self, key, value):
        self.options[str(key).replace("_", "-")] = value
        r = self.job.set(key, value)
        return self if r is self.job else r

    def execute(self, *args):
        RECORD.append(dict(self.options))
        return self.job.execute(*args)

    def __getattr__(self, name):
        return getattr(self.job, name)


def recorded(f, *args, **kwargs):
    del RECORD[:]
    mir.Job = RecordingJob
    try:
        return outcome(f, *args, **kwargs)
    finally:
        mir.Job = RealJob


def grids_equal(a, b):
    def norm(g):
        return {k: list(map(float, v)) if isinstance(v, (list, tuple)) else str(v) for k, v in dict(g).items()}

    return norm(a) == norm(b)


def numbers(area):
    try:
        return [float(x) for x in area.split("/")]
    except (AttributeError, ValueError):
        return area


def judge_record(options, grid, case):
    want_grid, want = mirtools.job_options(grid, options)
    want = {k.replace("_", "-"): v for k, v in want.items()}
    defaults = {k.replace("_", "-"): v for k, v in mirtools.DEFAULTS.items()}
    for got in RECORD:
        C.count("jobs_recorded")
        got = dict(got)
        g = got.pop("grid", None)
        if isinstance(g, dict):
            C.check(grids_equal(g, want_grid), "wrong-grid", f"MIR is asked for {g} instead of {want_grid}", **case)
        for k, v in want.items():
            if k not in got:
                C.check(v == defaults.get(k), "option-lost", f"MIR is not given {k}={v}", **case)
                continue
            x = got.pop(k)
            if isinstance(v, str):
                x = "/".join(map(str, x)) if isinstance(x, (list, tuple)) else x
            if k == "area":
                x, v = numbers(x), numbers(v)
            C.check(x == v, "option-changed", f"MIR is given {k}={x!r} instead of {v!r}", **case)
        C.check(not got, "option-invented", f"MIR is given {got}", **case)


def draw(rng):
    o = {}
    if rng.random() < 0.85:
        o["interpolation"] = rng.choice(
            ["linear", "nearest-neighbour", "nearest-neighbour", "nearest-neighbour", "k-nearest", "k-nearest", "grid-box-average"]
        )
    if rng.random() < 0.55:
        o["nearest_method"] = rng.choice(NEAREST + ["automatic"])
    if rng.random() < 0.5:
        o["distance"] = rng.choice([1, 1.0, 1000000, 1.5e6, 800000, 2.5e6])
    if rng.random() < 0.4:
        o["distance_tolerance"] = rng.choice([1, 500000, 100.5, 1e6])
    if rng.random() < 0.55:
        o["nclosest"] = rng.choice([1, 2, 3, 4, 7, 12])
    return o


OUT = [{"grid": [10, 10]}, {"grid": [11.25, 5.625]}, {"grid": [20, 20]}, {"grid": "O8"}, {"grid": "F8"}, {"grid": "H4", "order": "nested"}]


def out_grid(rng, grib=False):
    g = dict(rng.choice(OUT[:5] if grib else OUT))
    if isinstance(g["grid"], list) and rng.random() < 0.3:
        dx, dy = g["grid"]
        n, w = dy * rng.randint(1, 4), dx * rng.randint(0, 4)
        area = [n, w, -dy * rng.randint(0, 4), w + dx * rng.randint(1, 5)]
        if rng.random() < 0.4:
            # the corners need not be on points of the grid
            area = [a + rng.choice([0, 0.001, 0.0625, 1.2345]) * s for a, s in zip(area, (1, -1, -1, 1))]
        g["area"] = rng.choice([area, tuple(area), "/".join(map(str, area))])
    return g


def defined(options):
    # the choice of these is not reproducible
    return "sample" not in str(options.get("nearest_method"))


def calls():
    rng = C.rng("calls")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    kinds = [("ll", (10, 10)), ("ll", (20, 10)), ("O", 8), ("H", 4, "nested"), ("O", 16)]
    n = 0
    while n < pick(700, 30000) and C.elapsed() < pick(45, 650):
        n += 1
        what = rng.choice(["array", "array", "bytes", "stream", "field", "fieldlist", "dataarray", "dataset"])
        o = draw(rng)
        kind = rng.choice(kinds)
        grid = out_grid(rng, grib=what not in ("array", "dataarray", "dataset"))
        gin = gribtools.gridspec(kind)
        size = gribtools.size(kind)
        case = dict(what=what, options=o, in_grid=gin, out_grid=grid)
        ok = True
        C.evaluate()
        if what == "array":
            v = nrng.normal(size=size)
            res, err = recorded(array_regrid, v, gin, dict(grid), **o)
            ref, ref_err = outcome(direct, v, gin, grid, **o)
            if err is None and ref_err is None and defined(o):
                ok = identical(res[0], ref[0]) and dict(res[1]) == ref[1]
        elif what in ("dataarray", "dataset"):
            v = nrng.normal(size=(2, size))
            da = xr.DataArray(v, dims=("t", "values"), attrs={"gridspec": gin})
            x = da if what == "dataarray" else xr.Dataset({"a": da, "b": da * 2}, attrs={"gridspec": gin})
            res, err = recorded(regrid, x, grid=dict(grid), **o)
            ref, ref_err = outcome(lambda: [direct(v[i] * k, gin, grid, **o)[0] for k in (1, 2) for i in range(2)])
            if err is None and ref_err is None and defined(o):
                lst = [res] if what == "dataarray" else [res["a"], res["b"]]
                got = [y.values[i] for y in lst for i in range(2)]
                ok = all(identical(a, b) for a, b in zip(got, ref))
        else:
            count = rng.randint(1, 3) if what == "fieldlist" else 1
            msgs = [gribtools.message(kind, nrng.normal(size=size), 2) for _ in range(count)]
            if what == "bytes":
                x, unpack = msgs[0], lambda r: [bytes(r)]
            elif what == "stream":
                x, unpack = BytesIO(msgs[0]), lambda r: [bytes(r)]
            else:
                x = from_source("memory", b"".join(msgs))
                if what == "field":
                    x, unpack = x[0], lambda r: [r.message()]
                else:
                    unpack = lambda r: [f.message() for f in r]  # noqa: E731
            res, err = recorded(regrid, x, grid=dict(grid), **o)
            ref, ref_err = outcome(lambda: [direct_grib(m, grid, **o) for m in msgs])
            if err is None and ref_err is None and defined(o):
                ok = unpack(res) == ref
        if (err is None) != (ref_err is None):
            C.violation("fails-unlike-mir", f"regrid: {err!r}, MIR with the same options: {ref_err!r}", **case)
            continue
        if err is not None:
            C.count("refused_by_mir")
            continue
        C.count("compared")
        C.count("compared_" + what)
        C.nontrivial(str(case) + str(n))
        C.check(ok, "wrong-result", "the result is not the one MIR computes with these options", **case)
        judge_record(o, grid, case)
        C.sample(case)


def effects():
    """The options that are compared do make a difference"""
    nrng = np.random.default_rng(5)
    v = nrng.normal(size=19 * 36)
    gin, gout = {"grid": [10, 10]}, {"grid": [7.5, 7.5]}
    base = direct(v, gin, gout, interpolation="nearest-neighbour", nearest_method="distance_or_nclosest", distance=1)[0]
    for o in (dict(distance=2e6), dict(nclosest=2), dict(nearest_method="nclosest"), dict(interpolation="linear"), dict(distance_tolerance=5e5)):
        x = direct(
            v, gin, gout, **{**dict(interpolation="nearest-neighbour", nearest_method="distance_or_nclosest", distance=1), **o}
        )[0]
        if not identical(x, base):
            C.count("effective_options")


def refusals():
    """Unknown options and values are refused by every kind of input and both backends"""
    rng = C.rng("refusals")
    nrng = np.random.default_rng(3)
    kind = ("ll", (10, 10))
    size = gribtools.size(kind)
    gin = gribtools.gridspec(kind)
    msg = gribtools.message(kind, nrng.normal(size=size), 2)
    da = xr.DataArray(nrng.normal(size=(2, size)), dims=("t", "values"), attrs={"gridspec": gin})
    inputs = {
        "bytes": msg,
        "stream": BytesIO(msg),
        "fieldlist": from_source("memory", msg + msg),
        "field": from_source("memory", msg)[0],
        "dataarray": da,
        "dataset": xr.Dataset({"a": da}, attrs={"gridspec": gin}),
    }
    bad = [
        dict(foo=1),
        dict(n_closest=3),
        dict(nearestmethod="distance"),
        dict(method="linear"),
        dict(Distance=3),
        dict(interpolation="bogus"),
        dict(interpolation=""),
        dict(interpolation="nearest-neighbour", nearest_method="bogus"),
        dict(interpolation="nearest-neighbour", nearest_method="distance_nclosest"),
        dict(interpolation="nearest-neighbour", nclosest="many"),
        dict(interpolation="nearest-neighbour", nclosest=2.5),
        dict(interpolation="nearest-neighbour", nearest_method="distance", distance="far"),
        dict(backend="precomputed", inventory="/nonexisting", nclosest=3),
        dict(backend="precomputed", inventory="/nonexisting", nearest_method="distance"),
        dict(backend="unknown"),
        dict(backend=""),
        dict(backend=None),
    ]
    v = nrng.normal(size=size)
    for o in bad:
        names = list(inputs)
        rng.shuffle(names)
        for name in names:
            C.evaluate()
            res, err = outcome(regrid, inputs[name], grid={"grid": [20, 20]}, **o)
            C.count("refused")
            C.check(err is not None, "bad-option-accepted", f"{o} is accepted", what=name)
        res, err = outcome(array_regrid, v, gin, {"grid": [20, 20]}, **o)
        C.check(err is not None, "bad-option-accepted", f"{o} is accepted", what="array")
    # the high level function takes no array, and a grid is needed
    for x, kw in ((v, dict(grid={"grid": [20, 20]})), ([1.0], dict(grid={"grid": [20, 20]})), (None, dict(grid={"grid": [20, 20]}))):
        res, err = outcome(regrid, x, **kw)
        C.check(isinstance(err, ValueError), "unsupported-input-accepted", f"{type(x)}: {err!r}")
    for name, x in inputs.items():
        res, err = outcome(regrid, x)
        C.check(err is not None, "no-grid-accepted", "no output grid but a result", what=name)


C.require(compared=300, effective_options=5, refused=60, **{f"compared_{k}": 10 for k in ("array", "bytes", "stream", "field", "fieldlist", "dataarray", "dataset")})
main(C, calls, effects, refusals)
