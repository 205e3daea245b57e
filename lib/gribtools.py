"""Generated GRIB messages."""

import eccodes
import numpy as np
from inventory import first_gaussian_latitude

KINDS = [
    ("ll", (10, 10)),
    ("ll", (10, 5)),
    ("ll", (15, 15)),
    ("ll", (20, 10)),
    ("O", 8),
    ("O", 16),
    ("O", 24),
    ("N", 32),
    ("H", 4, "ring"),
    ("H", 4, "nested"),
    ("H", 8, "nested"),
]

META = ["shortName", "level", "typeOfLevel", "dataDate", "dataTime", "step", "number", "centre", "edition", "packingType"]


def gridspec(kind):
    if kind[0] == "ll":
        return {"grid": list(kind[1])}
    if kind[0] == "H":
        return {"grid": f"H{kind[1]}", "order": kind[2]}
    return {"grid": f"{kind[0]}{kind[1]}"}


def random_keys(rng, edition):
    k = {}
    k["dataDate"] = rng.choice([20200101, 20231231, 20240229, 19991231])
    k["dataTime"] = rng.choice([0, 600, 1200, 1800])
    k["step"] = rng.choice([0, 6, 24, 240])
    if rng.random() < 0.5:
        k["typeOfLevel"] = "isobaricInhPa" if edition == 2 else None
        k["level"] = rng.choice([1000, 850, 500, 10])
        k["shortName"] = rng.choice(["t", "u", "v", "z", "q"])
        if edition == 1:
            del k["typeOfLevel"]
            k["levtype"] = "pl"
    else:
        k["shortName"] = rng.choice(["2t", "msl", "sp", "tcc"])
    return k


def message(kind, values, edition=2, bits=24, keys=None, missing=None):
    name = kind[0]
    if name == "ll":
        h = eccodes.codes_grib_new_from_samples(f"regular_ll_sfc_grib{edition}")
        dx, dy = kind[1]
        for k, v in dict(
            Ni=int(np.ceil(360 / dx)),
            Nj=int(180 / dy) + 1,
            latitudeOfFirstGridPointInDegrees=90,
            longitudeOfFirstGridPointInDegrees=0,
            latitudeOfLastGridPointInDegrees=-90,
            longitudeOfLastGridPointInDegrees=360 - dx,
            iDirectionIncrementInDegrees=dx,
            jDirectionIncrementInDegrees=dy,
        ).items():
            eccodes.codes_set(h, k, v)
    elif name in "ON":
        n = kind[1]
        h = eccodes.codes_grib_new_from_samples(f"reduced_gg_pl_32_grib{edition}")
        if name == "O":
            pl = [4 * i + 16 for i in range(1, n + 1)]
            lat = first_gaussian_latitude(n)
            eccodes.codes_set(h, "N", n)
            eccodes.codes_set(h, "Nj", 2 * n)
            eccodes.codes_set_array(h, "pl", pl + pl[::-1])
            eccodes.codes_set(h, "latitudeOfFirstGridPointInDegrees", lat)
            eccodes.codes_set(h, "latitudeOfLastGridPointInDegrees", -lat)
            eccodes.codes_set(h, "longitudeOfFirstGridPointInDegrees", 0)
            eccodes.codes_set(h, "longitudeOfLastGridPointInDegrees", 360 - 360 / max(pl))
        elif n != 32:
            raise ValueError(kind)
    elif name == "H":
        h = eccodes.codes_grib_new_from_samples("GRIB2")
        eccodes.codes_set(h, "gridType", "healpix")
        eccodes.codes_set(h, "Nside", kind[1])
        eccodes.codes_set(h, "orderingConvention", kind[2])
        eccodes.codes_set(h, "longitudeOfFirstGridPointInDegrees", 45)
    try:
        for k, v in (keys or {}).items():
            eccodes.codes_set(h, k, v)
        eccodes.codes_set(h, "bitsPerValue", bits)
        if missing is not None:
            eccodes.codes_set(h, "missingValue", 1e20)
            eccodes.codes_set(h, "bitmapPresent", 1)
            values = np.where(missing, 1e20, values)
        eccodes.codes_set_values(h, values)
        return eccodes.codes_get_message(h)
    finally:
        eccodes.codes_release(h)


def size(kind):
    if kind[0] == "ll":
        dx, dy = kind[1]
        return int(np.ceil(360 / dx)) * (int(180 / dy) + 1)
    if kind[0] == "O":
        return 4 * kind[1] * (kind[1] + 9)
    if kind[0] == "N":
        return {32: 6114}[kind[1]]
    return 12 * kind[1] ** 2


def decode(msg):
    """(values, metadata) by ecCodes alone"""
    h = eccodes.codes_new_from_message(bytes(msg))
    try:
        md = {}
        for k in META:
            try:
                md[k] = eccodes.codes_get(h, k)
            except Exception:
                md[k] = None
        md["gridType"] = eccodes.codes_get(h, "gridType")
        md["bitsPerValue"] = eccodes.codes_get(h, "bitsPerValue")
        eccodes.codes_set(h, "missingValue", 1e20)
        v = eccodes.codes_get_values(h)
        v = np.where(v == 1e20, np.nan, v)
        return v, md
    finally:
        eccodes.codes_release(h)


def messages_in(data):
    """The GRIB messages in the bytes"""
    r, pos = [], 0
    while pos < len(data):
        assert data[pos : pos + 4] == b"GRIB", data[pos : pos + 8]
        edition = data[pos + 7]
        n = int.from_bytes(data[pos + 8 : pos + 16], "big") if edition == 2 else int.from_bytes(data[pos + 4 : pos + 7], "big")
        r.append(data[pos : pos + n])
        pos += n
    return r


def random_field(rng, nrng, kinds=KINDS):
    kind = rng.choice(kinds)
    edition = 2 if kind[0] == "H" else rng.choice([1, 2])
    bits = rng.choice([16, 24])
    offset, amp = rng.choice([(280, 10), (1e5, 2e3), (0, 1), (-5, 0.01)])
    v = nrng.normal(size=size(kind)) * amp + offset
    keys = random_keys(rng, edition)
    return dict(kind=kind, edition=edition, bits=bits, keys=keys, message=message(kind, v, edition, bits, keys), values=v)
