"""MIR driven directly, as the oracle of the MIR backend. Only values, grids and options that
MIR itself accepts are used: it aborts the process for ORCA grids without a network."""

import numpy as np

DEFAULTS = dict(interpolation="linear", nearest_method="automatic", distance=1, distance_tolerance=1, nclosest=4)

NEAREST = [
    "distance",
    "nclosest",
    "distance_and_nclosest",
    "distance_or_nclosest",
    "nclosest_or_nearest",
    "nearest_neighbour_with_lowest_index",
    "sample",
    "sorted_sample",
]
INTERPOLATIONS = ["linear", "nearest-neighbour", "grid-box-average"]


def ll_shape(dx, dy):
    return (int(np.floor(90 / dy + 1e-9)) * 2 + 1, int(np.ceil(360 / dx - 1e-9)))


def octahedral_size(n):
    return 4 * n * (n + 9)


GRIDS = [
    # (gridspec, shape) with the shapes from the definitions of the grids
    ({"grid": [10, 10]}, (19, 36)),
    ({"grid": [15, 15]}, (13, 24)),
    ({"grid": [20, 10]}, (19, 18)),
    ({"grid": [10, 5]}, (37, 36)),
    ({"grid": [30, 30]}, (7, 12)),
    ({"grid": [5, 5]}, (37, 72)),
    ({"grid": [7.5, 7.5]}, (25, 48)),
    ({"grid": "O8"}, (octahedral_size(8),)),
    ({"grid": "O16"}, (octahedral_size(16),)),
    ({"grid": "o24"}, (octahedral_size(24),)),
    ({"grid": "O32"}, (octahedral_size(32),)),
    ({"grid": "N16"}, (1688,)),
    ({"grid": "F8"}, (16, 32)),
    ({"grid": "F16"}, (32, 64)),
    ({"grid": "H4"}, (192,)),
    ({"grid": "H4", "order": "nested"}, (192,)),
    ({"grid": "H8", "order": "ring"}, (768,)),
    ({"grid": "H8", "order": "nested"}, (768,)),
    ({"grid": "h2"}, (48,)),
]


def is_ll(spec):
    return isinstance(spec["grid"], (list, tuple))


def size(shape):
    return int(np.prod(shape))


def job_options(out_grid, options):
    """What MIR must be given for the documented options"""
    o = {**DEFAULTS, **options}
    grid = dict(out_grid)
    if "area" in grid:
        area = grid.pop("area")
        o["area"] = area if isinstance(area, str) else "/".join(str(x) for x in area)
    if o["nearest_method"] == "automatic":
        del o["nearest_method"]
    else:
        o["nearest_method"] = o["nearest_method"].replace("_", "-")
    o["distance"] = float(o["distance"])
    o["distance_tolerance"] = float(o["distance_tolerance"])
    return grid, o


def _job(out_grid, options):
    import mir

    grid, o = job_options(out_grid, options)
    job = mir.Job()
    job.set("grid", grid)
    for k, v in o.items():
        job.set(k, v)
    return job


def direct(values, in_grid, out_grid, **options):
    import mir

    job = _job(out_grid, options)
    out = mir.ArrayOutput()
    job.execute(mir.ArrayInput(values, dict(in_grid)), out)
    return np.array(out.values()), dict(out.spec)


def direct_grib(message, out_grid, **options):
    from io import BytesIO

    import mir

    job = _job(out_grid, options)
    out = BytesIO()
    job.execute(mir.GribMemoryInput(message), out)
    return out.getvalue()


def points(spec):
    import mir

    spec = dict(spec)
    if "area" in spec and not isinstance(spec["area"], str):
        spec["area"] = "/".join(str(x) for x in spec["area"])
    g = mir.Grid(**spec)
    lat, lon = g.to_latlons()
    return np.array(lat), np.array(lon), tuple(g.shape)


def smooth(lat, lon, k=1.0):
    """A smooth function on the sphere"""
    a, o = np.radians(lat), np.radians(lon)
    return k * (2 + np.sin(a) + np.cos(a) * np.cos(o - 0.7) + 0.5 * np.cos(a) * np.sin(a) * np.sin(o))


def field(nrng, n, kind="normal"):
    if kind == "normal":
        return nrng.normal(size=n)
    if kind == "large":
        return nrng.normal(size=n) * 1e5 + 3e5
    if kind == "constant":
        return np.full(n, float(nrng.integers(-5, 5)))
    if kind == "positive":
        return nrng.random(n) * 100
    raise ValueError(kind)


def identical(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
