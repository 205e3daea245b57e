"""C08: MIR regridding of arrays."""

import json

import numpy as np
from harness import Check
from harness import main
from harness import outcome
from harness import pick
from mirtools import GRIDS
from mirtools import INTERPOLATIONS
from mirtools import direct
from mirtools import field
from mirtools import identical
from mirtools import is_ll
from mirtools import octahedral_size
from mirtools import points
from mirtools import size
from mirtools import smooth
from stress import Delays
from stress import Team

from earthkit.regrid import config  # noqa: E402
from earthkit.regrid.array import regrid  # noqa: E402

config.autosave = False

C = Check(
    "C08",
    "exploration",
    "Random jobs (grid pair, interpolation, field, precision, shape) in random order with repetitions, and in threads; each "
    "result compared with MIR driven directly; non-trivial: distinct compared jobs.",
    ["MIR"],
)


def spelled(rng, spec):
    spec = dict(spec)
    if is_ll(spec) and rng.random() < 0.3:
        spec["grid"] = [float(x) for x in spec["grid"]]
    return spec


def job(rng, nrng):
    gin, sin = rng.choice(GRIDS)
    gout, sout = rng.choice(GRIDS)
    v = field(nrng, size(sin), rng.choice(["normal", "large", "constant", "positive"]))
    if rng.random() < 0.3:
        v = v.astype(np.float32)
    shape = rng.choice(["flat", "grid"])
    if shape == "grid":
        v = v.reshape(sin)
    inter = rng.choice(INTERPOLATIONS)
    area = None
    if rng.random() < 0.15 and is_ll(gout):
        dx, dy = gout["grid"]
        n, w = dy * rng.randint(1, int(90 // dy)), dx * rng.randint(0, 3)
        area = [n, w, -dy * rng.randint(0, int(90 // dy)), w + dx * rng.randint(1, 5)]
        if rng.random() < 0.4:
            # a few points that are close to one another
            digits = rng.randint(2, 5)
            dx = dy = round(10**-digits, 5)
            n, w = rng.randint(1, 85 * 10**digits), rng.randint(1, 300 * 10**digits)
            area = [n, w, n - rng.randint(1, 6), w + rng.randint(1, 6)]
            area = [round(x / 10**digits, 5) for x in area]
            gout = dict(gout, grid=[dx, dy])
            C.count("fine_areas")
        sout = (int(round((area[0] - area[2]) / dy)) + 1, int(round((area[3] - area[1]) / dx)) + 1)
        gout = dict(gout, area=area)
    return dict(v=v, gin=spelled(rng, gin), gout=spelled(rng, gout), interpolation=inter, sin=sin, sout=sout)


def describe(j):
    return dict(
        in_grid=j["gin"], out_grid=j["gout"], interpolation=j["interpolation"], dtype=str(j["v"].dtype), shape=list(j["v"].shape)
    )


def run(j):
    return regrid(j["v"], dict(j["gin"]), dict(j["gout"]), interpolation=j["interpolation"])


def compare(j, got, err, where):
    case = dict(describe(j), where=where)
    if "ref" not in j:
        j["ref"] = outcome(direct, j["v"], j["gin"], j["gout"], interpolation=j["interpolation"])
    (ref, ref_err) = j["ref"]
    C.evaluate()
    if ref_err is not None or err is not None:
        C.count("refused_by_mir" if ref_err is not None else "failed")
        C.check(
            ref_err is not None and err is not None, "fails-unlike-mir", f"regrid: {err!r}, MIR: {ref_err!r}", **case
        )
        return
    C.count("compared")
    C.nontrivial((where, json.dumps(case, sort_keys=True), float(np.sum(j["v"]))))
    res, spec = got
    C.check(isinstance(res, np.ndarray), "not-an-array", f"{type(res)}", **case)
    C.check(
        identical(res, ref[0]), "differs-from-mir", "the values are not those MIR computes", got=res, expected=ref[0], **case
    )
    C.check(tuple(res.shape) == j["sout"], "wrong-shape", f"{res.shape} instead of {j['sout']}", **case)
    C.check(dict(spec) == ref[1], "wrong-gridspec", f"{spec} instead of {ref[1]}", **case)


def histories():
    rng = C.rng("histories")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    done = []
    n = 0
    while n < pick(400, 20000) and C.elapsed() < pick(25, 400):
        n += 1
        if done and rng.random() < 0.3:
            # the result of the same call later, after others
            j = rng.choice(done)
            where = "repeated"
        elif done and rng.random() < 0.2:
            # another field on the same grids
            j = dict(rng.choice(done))
            j["v"] = (j["v"][::-1].copy() * 1.5).astype(j["v"].dtype)
            j.pop("ref", None)
            where = "other-field"
        else:
            j = job(rng, nrng)
            where = "new"
            if len(done) < 60:
                done.append(j)
        got, err = outcome(run, j)
        compare(j, got, err, where)
        C.count(where)
        C.sample(describe(j))


def analytic():
    """The values belong to the points of the grids"""
    rng = C.rng("analytic")
    pairs = [(a, b) for a in GRIDS for b in GRIDS if min(size(a[1]), size(b[1])) >= 190 and size(a[1]) >= 600]
    for (gin, sin), (gout, sout) in rng.sample(pairs, pick(40, len(pairs))):
        k = rng.choice([1.0, -20.0, 300.0])
        lat, lon, shape = points(gin)
        olat, olon, oshape = points(gout)
        v = smooth(lat, lon, k)
        ref = smooth(olat, olon, k).reshape(sout)
        for inter in ("linear", "nearest-neighbour"):
            C.evaluate()
            res, err = outcome(regrid, v, gin, gout, interpolation=inter)
            case = dict(in_grid=gin, out_grid=gout, interpolation=inter)
            if err is not None:
                C.violation("analytic-failed", f"{err!r}", **case)
                continue
            C.count("analytic")
            C.nontrivial(("analytic", str(case)))
            # half of the largest distance of the points is far from any mix-up of points
            tol = abs(k) * (0.12 if inter == "linear" else 0.4)
            d = float(np.abs(res[0] - ref).max()) if res[0].shape == ref.shape else np.inf
            C.check(d < tol, "not-the-field", f"differs by {d} from the analytic field", **case)


def wrong_arrays():
    """Fields that are not of the grid"""
    rng = C.rng("wrong")
    for _ in range(pick(30, 200)):
        gin, sin = rng.choice(GRIDS)
        gout, _ = rng.choice(GRIDS[:9])
        v = np.ones(size(sin) + rng.choice([-1, 1, -30, 500]))
        C.evaluate()
        res, err = outcome(regrid, v, gin, gout, interpolation=rng.choice(INTERPOLATIONS))
        C.count("wrong_size")
        C.check(err is not None, "wrong-size-accepted", f"{v.size} values for {sin}", in_grid=gin, out_grid=gout)


def threads():
    rng = C.rng("threads")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    rounds = 0
    while rounds < pick(12, 2000) and C.elapsed() < pick(45, 650):
        rounds += 1
        jobs = []
        while len(jobs) < 6:
            j = job(rng, nrng)
            j["ref"] = outcome(direct, j["v"], j["gin"], j["gout"], interpolation=j["interpolation"])
            if j["ref"][1] is None:
                jobs.append(j)
        team = Team()
        log = []

        def work(seed):
            import random

            r = random.Random(seed)
            for _ in range(6):
                j = r.choice(jobs)
                log.append((j, *outcome(run, j)))

        for _ in range(4):
            team.add(work, rng.random(), delays=Delays(rng.randrange(1 << 30), 0.3, 0.05))
        if not team.run(60):
            C.violation("deadlock", "threads did not end", stacks=team.stacks())
            return
        for _, text in team.errors:
            raise RuntimeError(text)
        for j, got, err in log:
            compare(j, got, err, "threads")
            C.count("in_threads")


def large():
    """Fields of the sizes used in practice"""
    rng = C.rng("large")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    big = [
        ({"grid": [0.5, 0.5]}, (361, 720)),
        ({"grid": [0.75, 0.5]}, (361, 480)),
        ({"grid": [0.25, 0.25]}, (721, 1440)),
        ({"grid": "O320"}, (octahedral_size(320),)),
        ({"grid": "H128", "order": "ring"}, (12 * 128 * 128,)),
        ({"grid": "F160"}, (320, 640)),
    ]
    for i in range(pick(6, 80)):
        if C.elapsed() > pick(90, 730):
            break
        small = rng.choice(GRIDS)
        a, b = [(rng.choice(big), small), (small, rng.choice(big)), (rng.choice(big), rng.choice(big))][i % 3]
        v = field(nrng, size(a[1]), rng.choice(["normal", "large"]))
        if i % 2:
            v = v.astype(np.float32)
        if rng.random() < 0.6:
            v = v.reshape(a[1])
        inter = rng.choice(["linear", "nearest-neighbour"])
        j = dict(v=v, gin=a[0], gout=b[0], interpolation=inter, sin=a[1], sout=b[1])
        compare(j, *outcome(run, j), "large")
        C.count("large_input" if size(a[1]) > 150000 else "small_input")
        C.count("large_output" if size(b[1]) > 150000 else "small_output")


C.require(large_input=4, large_output=4)
C.require(compared=250, fine_areas=4, repeated=50, analytic=40, in_threads=100)
main(C, histories, analytic, wrong_arrays, large, threads)
