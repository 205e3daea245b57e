"""C10: GRIB messages, fields and fieldlists."""

import os
from io import BytesIO

import earthkit.data
import gribtools
import numpy as np
from earthkit.data import from_source
from gribtools import KINDS
from gribtools import META
from gribtools import decode
from gribtools import gridspec
from gribtools import random_field
from harness import Check
from harness import fresh_dir
from harness import main
from harness import outcome
from harness import pick
from inventory import METHODS
from inventory import Inventory
from inventory import apply
from inventory import classic
from inventory import healpix
from inventory import ll
from inventory import octahedral
from inventory import same
from inventory import short
from inventory import spelled
from mirtools import INTERPOLATIONS
from mirtools import direct
from mirtools import direct_grib

from earthkit.regrid import config  # noqa: E402
from earthkit.regrid import regrid  # noqa: E402

config.autosave = False

C = Check(
    "C10",
    "exploration",
    "Random lists of generated GRIB fields (grids, editions, metadata, packing) in several kinds of fieldlist, through both "
    "backends; non-trivial: distinct output fields that were compared.",
    ["ecCodes", "MIR"],
)

GRIDS = [
    ({"grid": [10, 10]}, dict(gridType="regular_ll", Ni=36, Nj=19)),
    ({"grid": [20, 10]}, dict(gridType="regular_ll", Ni=18, Nj=19)),
    ({"grid": [15, 15]}, dict(gridType="regular_ll", Ni=24, Nj=13)),
    ({"grid": "O8"}, dict(gridType="reduced_gg", N=8, isOctahedral=1)),
    ({"grid": "O16"}, dict(gridType="reduced_gg", N=16, isOctahedral=1)),
    ({"grid": "N16"}, dict(gridType="reduced_gg", N=16, isOctahedral=0)),
    ({"grid": "F8"}, dict(gridType="regular_gg", N=8)),
    ({"grid": "H4", "order": "nested"}, dict(gridType="healpix", Nside=4, orderingConvention="nested")),
    ({"grid": "H4"}, dict(gridType="healpix", Nside=4, orderingConvention="ring")),
]


def grib_keys(msg, names):
    import eccodes

    h = eccodes.codes_new_from_message(bytes(msg))
    try:
        return {k: eccodes.codes_get(h, k) for k in names}
    finally:
        eccodes.codes_release(h)


def judge(src, out, grid, keys, inter, case, exact):
    """One output message against its input message"""
    C.count("fields_compared")
    C.nontrivial(hash((src, out)))
    v, md = decode(src)
    w, md2 = decode(out)
    C.check(len(gribtools.messages_in(out)) == 1, "not-one-message", "the output is not one message", **case)
    for k in META:
        if k != "packingType":
            C.check(md[k] == md2[k], "metadata-changed", f"{k}: {md[k]} became {md2[k]}", **case)
    got = grib_keys(out, list(keys))
    C.check(got == keys, "wrong-grid", f"the output is on {got} instead of {keys}", **case)
    if exact is not None:
        C.check(out == exact, "differs-from-mir", "the message is not the one MIR writes", **case)
    if inter == "nearest-neighbour":
        # ties depend on the rounding of the coordinates in the message: the values must be some of the input
        near = np.sort(v)[np.clip(np.searchsorted(np.sort(v), w), 1, v.size - 1)[:, None] - [0, 1]] - w[:, None]
        tol = 2 * np.ptp(v) / 2 ** md2["bitsPerValue"] + 1e-6 * np.abs(v).max() + 1e-9
        C.check(np.abs(near).min(axis=1).max() <= tol, "wrong-values", "values that are not in the input", **case)
        C.count("values_compared")
        return
    if md["shortName"] in ("u", "v"):
        # MIR treats the poles differently for vectors
        return
    ref, err = outcome(direct, v, case["gin"], grid, interpolation=inter)
    if err is None:
        ref = ref[0].ravel()
        spread = np.ptp(ref) if ref.size else 0
        tol = 2 * spread / 2 ** md2["bitsPerValue"] + 1e-6 * np.abs(ref).max() + 1e-9
        ok = ref.shape == w.shape and np.abs(ref - w).max() <= tol
        C.check(ok, "wrong-values", "the values are not those of the regridded array", got=w, expected=ref, **case)
        C.count("values_compared")


def make_list(rng, fields):
    """A fieldlist of the fields, with the order expected"""
    how = rng.choice(["memory", "file", "concat", "slice", "array", "reversed"])
    data = b"".join(f["message"] for f in fields)
    if how == "file":
        path = os.path.join(fresh_dir("grib"), "a.grib")
        with open(path, "wb") as f:
            f.write(data)
        fl = from_source("file", path)
    elif how == "concat" and len(fields) > 1:
        k = rng.randint(1, len(fields) - 1)
        fl = from_source("memory", b"".join(f["message"] for f in fields[:k])) + from_source(
            "memory", b"".join(f["message"] for f in fields[k:])
        )
    else:
        fl = from_source("memory", data)
        if how == "slice" and len(fields) > 2:
            a = rng.randint(0, len(fields) - 2)
            fl, fields = fl[a:], fields[a:]
        elif how == "reversed" and len(fields) > 1:
            fl, fields = fl[::-1], fields[::-1]
        elif how == "array":
            # fields that are arrays with metadata, encoded as GRIB before MIR
            new = earthkit.data.FieldList()
            for f in fl:
                new += fl.from_numpy(f.to_numpy() * 1.0, f.metadata())
            fl = new
    return fl, fields, how


def with_mir():
    rng = C.rng("mir")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    n = 0
    while n < pick(60, 3000) and C.elapsed() < pick(30, 350):
        n += 1
        fields = [random_field(rng, nrng) for _ in range(rng.randint(1, 5))]
        if rng.random() < 0.3 and len(fields) > 1:
            fields[-1] = fields[0]
        fl, fields, how = make_list(rng, fields)
        grid, keys = rng.choice(GRIDS)
        inter = rng.choice(INTERPOLATIONS)
        case = dict(grid=grid, interpolation=inter, how=how, fields=[(f["kind"], f["edition"], f["keys"]) for f in fields])
        C.evaluate()
        ref, ref_err = outcome(lambda: [direct_grib(f["message"], grid, interpolation=inter) for f in fields])
        res, err = outcome(regrid, fl, grid=dict(grid), interpolation=inter)
        C.count("list_" + how)
        if ref_err is not None:
            C.count("refused_by_mir")
            C.check(err is not None, "fails-unlike-mir", f"MIR: {ref_err!r} but a result", **case)
        elif err is not None:
            C.violation("fails-unlike-mir", f"{err!r}", **case)
        else:
            C.check(isinstance(res, earthkit.data.FieldList), "wrong-kind", f"{type(res)}", **case)
            if C.check(len(res) == len(fields), "wrong-length", f"{len(res)} fields for {len(fields)}", **case):
                for i, f in enumerate(fields):
                    c = dict(case, index=i, gin=gridspec(f["kind"]))
                    out = res[i].message()
                    judge(f["message"], out, grid, keys, inter, c, ref[i] if how != "array" else None)
                    x = res[i].to_numpy(flatten=True)
                    C.check(
                        np.allclose(x, decode(out)[0], equal_nan=True), "field-and-message", "the field differs from its message", **c
                    )
        C.sample(case)

        # one message or field at a time
        f = rng.choice(fields)
        c = dict(case, gin=gridspec(f["kind"]))
        exact, exact_err = outcome(direct_grib, f["message"], grid, interpolation=inter)
        for what in ("bytes", "stream", "field"):
            C.evaluate()
            if what == "bytes":
                res, err = outcome(regrid, f["message"], grid=dict(grid), interpolation=inter)
            elif what == "stream":
                s = BytesIO(f["message"])
                s.seek(rng.choice([0, 0, 5]))
                res, err = outcome(regrid, s, grid=dict(grid), interpolation=inter)
            else:
                res, err = outcome(regrid, from_source("memory", f["message"])[0], grid=dict(grid), interpolation=inter)
            if (err is None) != (exact_err is None):
                C.violation("fails-unlike-mir", f"{what}: {err!r}, MIR: {exact_err!r}", **c)
                continue
            if err is not None:
                continue
            C.count("single_" + what)
            if what == "field":
                if C.check(isinstance(res, earthkit.data.Field), "wrong-kind", f"{type(res)}", **c):
                    judge(f["message"], res.message(), grid, keys, inter, c, exact)
            elif C.check(isinstance(res, bytes), "wrong-kind", f"{type(res)}", **c):
                judge(f["message"], res, grid, keys, inter, c, exact)


def missing_values():
    """Messages with a bitmap"""
    rng = C.rng("missing")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    for _ in range(pick(15, 300)):
        kind = rng.choice(KINDS)
        n = gribtools.size(kind)
        v = nrng.normal(size=n) + 280
        msg = gribtools.message(kind, v, 2, 24, gribtools.random_keys(rng, 2), missing=nrng.random(n) < rng.choice([0.01, 0.3]))
        grid, _ = rng.choice(GRIDS[:5])
        C.evaluate()
        ref = outcome(direct_grib, msg, grid)
        got = outcome(regrid, msg, grid=dict(grid))
        fl = outcome(lambda: regrid(from_source("memory", msg), grid=dict(grid))[0].message())
        case = dict(kind=kind, grid=grid)
        if ref[1] is None:
            C.count("with_missing_values")
            C.check(got[0] == ref[0], "differs-from-mir", "the message is not the one MIR writes", **case)
            C.check(fl[0] == ref[0], "differs-from-mir", "the field is not the one MIR writes", **case)


def with_weights():
    rng = C.rng("weights")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    described = {
        ("ll", (10, 10)): ll(10),
        ("O", 8): octahedral(8),
        ("O", 16): octahedral(16),
        ("N", 32): classic(32),
        ("H", 4, "ring"): healpix(4, "ring"),
        ("H", 4, "nested"): healpix(4, "nested"),
    }
    outs = [ll(10), ll(5), ll(2.5)]
    n = 0
    while n < pick(30, 2000) and C.elapsed() < pick(60, 560):
        n += 1
        inv = Inventory(fresh_dir("inv"), rng.randrange(1 << 30))
        gout = rng.choice(outs)
        method = rng.choice(METHODS)
        entries = {}
        for kind, gin in described.items():
            if short(gin) != short(gout):
                entries[kind] = inv.add(gin, gout, method)
        others = [octahedral(24), healpix(2, "ring")]
        for g in others:
            inv.add(octahedral(8), g, method)
        inv.write()
        fields = [random_field(rng, nrng, list(entries)) for _ in range(rng.randint(1, 4))]
        fl, fields, how = make_list(rng, fields)
        case = dict(grid=short(gout), how=how, method=method, fields=[(f["kind"], f["edition"], f["keys"]) for f in fields])
        kw = dict(backend="precomputed", inventory=inv.path, interpolation=spelled(method, rng))
        single = rng.random() < 0.25
        C.evaluate()
        if single:
            res, err = outcome(regrid, fl[0], grid=short(gout), **kw)
            C.count("weights_field")
        else:
            res, err = outcome(regrid, fl, grid=short(gout), **kw)
        if err is not None:
            C.violation("weights-failed", f"{err!r}", **case)
            continue
        if single:
            C.check(isinstance(res, earthkit.data.Field), "wrong-kind", f"{type(res)}", **case)
            res, inputs, fields = [res], [fl[0]], fields[:1]
        else:
            C.check(isinstance(res, earthkit.data.FieldList), "wrong-kind", f"{type(res)}", **case)
            inputs = fl
        if not C.check(len(res) == len(fields), "wrong-length", f"{len(res)} fields for {len(fields)}", **case):
            continue
        for i, f in enumerate(fields):
            c = dict(case, index=i)
            e = entries[f["kind"]]
            C.count("weights_fields_compared")
            C.nontrivial(("weights", n, i))
            ref, scale = apply(e.w, inputs[i].to_numpy(flatten=True))
            out = res[i]
            C.check(tuple(out.shape) == tuple(gout["shape"]), "wrong-shape", f"{out.shape}", **c)
            C.check(same(out.to_numpy(flatten=True), ref, scale, 1e-6), "wrong-values", "not weights @ values", **c)
            for k in META[:-1]:
                a, b = inputs[i].metadata(k, default=None), out.metadata(k, default=None)
                C.check(a == b, "metadata-changed", f"{k}: {a} became {b}", **c)
            gs = out.metadata().gridspec
            C.check(
                [float(x) for x in gs["grid"]] == [float(x) for x in gout["grid"]]
                and [float(x) for x in gs["area"]] == [float(x) for x in gout["area"]],
                "wrong-grid",
                f"the output is on {gs}",
                **c,
            )
        # not supported with weights
        for x, g in ((fl, short(rng.choice(others))), (fields[0]["message"], short(gout)), (BytesIO(fields[0]["message"]), short(gout))):
            res, err = outcome(regrid, x, grid=g, **kw)
            C.count("unsupported")
            C.check(isinstance(err, ValueError), "unsupported-accepted", f"{type(x)} to {g}: {err!r}")
        # one field without weights fails the call rather than being left out
        bad = random_field(rng, nrng, [("O", 24)])
        mixed = from_source("memory", fields[0]["message"] + bad["message"])
        res, err = outcome(regrid, mixed, grid=short(gout), **kw)
        C.check(isinstance(err, ValueError), "no-weights-accepted", f"{err!r}", **case)


def empty_list():
    """No fields give no fields"""
    fl = from_source("memory", random_field(C.rng("e"), np.random.default_rng(1))["message"])
    res, err = outcome(regrid, fl[:0], grid={"grid": [10, 10]})
    C.check(err is None and len(res) == 0, "empty-list", f"{err!r}")


def without_message():
    """Fields that are no GRIB messages, among those that are: the call fails, or each gets its own values"""
    rng = C.rng("without message")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    lat, lon = np.arange(90, -91, -15.0), np.arange(0, 360, 30.0)
    for n in range(pick(6, 60)):
        fields = [from_source("memory", random_field(rng, nrng)["message"])[0] for _ in range(rng.randint(1, 3))]
        d = {"values": nrng.normal(size=(lat.size, lon.size)), "latitudes": lat, "longitudes": lon, "distinctLatitudes": lat, "distinctLongitudes": lon}
        other = from_source("list-of-dicts", [dict(d, shortName="t")])[0]
        at = rng.randint(0, len(fields))
        fields.insert(at, other)
        fl = earthkit.data.FieldList.from_fields(fields)
        res, err = outcome(regrid, fl, grid={"grid": [10, 10]}, interpolation="linear")
        C.evaluate()
        C.count("without_message")
        if err is None:
            case = dict(at=at, length=len(fields))
            if not C.check(len(res) == len(fields), "wrong-length", f"{len(res)} fields for {len(fields)}", **case):
                continue
            want, _ = direct(np.ravel(d["values"]), {"grid": [30, 15]}, {"grid": [10, 10]}, interpolation="linear")
            got = res[at].to_numpy(flatten=True)
            ok = got.shape == np.ravel(want).shape and np.allclose(got, np.ravel(want), atol=1e-3)
            C.check(ok, "wrong-values", "a field that is no GRIB message has the values of another one", **case)


def long_lists():
    """More fields than a page of them, each in its place"""
    rng = C.rng("long")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    inv = Inventory(fresh_dir("inv"), rng.randrange(1 << 30))
    entry = {("O", 8): inv.add(octahedral(8), ll(10), "linear"), ("H", 4, "ring"): inv.add(healpix(4, "ring"), ll(10), "linear")}
    inv.write()
    for i in range(pick(4, 30)):
        if C.elapsed() > pick(110, 660):
            break
        weights = i % 2 == 0
        n = rng.choice([130, 260]) + rng.randint(0, 9)
        base = [random_field(rng, nrng, list(entry) if weights else KINDS) for _ in range(rng.randint(12, 20))]
        fields = [rng.choice(base) for _ in range(n)]
        fl = from_source("memory", b"".join(f["message"] for f in fields))
        kw = dict(backend="precomputed", inventory=inv.path) if weights else {}
        case = dict(n=n, weights=weights)
        C.evaluate()
        res, err = outcome(regrid, fl, grid={"grid": [10, 10]}, interpolation="linear", **kw)
        if err is not None:
            C.violation("long-list-failed", f"{err!r}", **case)
            continue
        if not C.check(len(res) == n, "wrong-length", f"{len(res)} fields for {n}", **case):
            continue
        C.count("long_lists")
        want = {}
        for k, f in enumerate(fields):
            if id(f) not in want:
                if weights:
                    v = decode(f["message"])[0]
                    want[id(f)] = apply(entry[f["kind"]].w, v)
                else:
                    want[id(f)] = direct_grib(f["message"], {"grid": [10, 10]}, interpolation="linear")
            if weights:
                ok = same(res[k].to_numpy(flatten=True), *want[id(f)], 1e-6)
            else:
                ok = res[k].message() == want[id(f)]
            if not C.check(ok, "wrong-field", "the field is not that of its place in the list", index=k, **case):
                break
            C.count("long_list_fields")


def large_messages():
    """Messages of the sizes used in practice"""
    rng = C.rng("large")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    big_in = [("ll", (0.5, 0.5)), ("O", 320), ("O", 160), ("ll", (1, 1)), ("H", 128, "nested")]
    big_out = [{"grid": [0.5, 0.5]}, {"grid": "O320"}, {"grid": [0.25, 0.25]}, {"grid": "F160"}]
    for i in range(pick(6, 60)):
        if C.elapsed() > pick(140, 740):
            break
        kind = rng.choice(big_in) if i % 3 else rng.choice(KINDS)
        grid = rng.choice(big_out) if i % 3 < 2 else {"grid": [10, 10]}
        v = nrng.normal(size=gribtools.size(kind)) * 10 + 280
        edition = 2 if kind[0] == "H" else rng.choice([1, 2])
        msg = gribtools.message(kind, v, edition, rng.choice([16, 24]), gribtools.random_keys(rng, edition))
        inter = rng.choice(["linear", "nearest-neighbour"])
        case = dict(kind=kind, grid=grid, edition=edition, interpolation=inter)
        ref, ref_err = outcome(direct_grib, msg, grid, interpolation=inter)
        if ref_err is not None:
            C.count("refused_by_mir")
            continue
        fl = from_source("memory", msg * 2)
        how = rng.choice(["bytes", "stream", "field", "list"])
        x = {"bytes": msg, "stream": BytesIO(msg), "field": fl[0], "list": fl}[how]
        C.evaluate()
        res, err = outcome(regrid, x, grid=dict(grid), interpolation=inter)
        if err is not None:
            C.violation("fails-unlike-mir", f"{err!r}", how=how, **case)
            continue
        res = {"field": lambda: [res.message()], "list": lambda: [f.message() for f in res]}.get(how, lambda: [res])()
        for out in res:
            C.check(out == ref, "differs-from-mir", f"{how}: the message is not the one MIR writes", **case)
            C.count("large_messages")
            if len(ref) > 400000:
                C.count("large_outputs")
            if len(msg) > 200000:
                C.count("large_inputs")


C.require(long_lists=2, long_list_fields=250, large_messages=5, large_outputs=1, large_inputs=1)
C.require(without_message=5)
C.require(fields_compared=100, values_compared=80, weights_fields_compared=30, with_missing_values=8, unsupported=30)
main(C, with_mir, missing_values, with_weights, empty_list, without_message, long_lists, large_messages)
