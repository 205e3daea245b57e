"""C02: the in-memory weights cache is transparent."""

import numpy as np
from gridgen import base_grid
from gridgen import neighbour
from harness import Check
from harness import fresh_dir
from harness import main
from harness import outcome
from harness import pick
from inventory import METHODS
from inventory import Entry
from inventory import Inventory
from inventory import apply
from inventory import grid_pool
from inventory import numpy_numbers
from inventory import random_inventory
from inventory import same
from inventory import short
from inventory import size_of
from inventory import spelled
from matching import small
from monitor import WeightLoads
from scipy.sparse import csr_matrix

loads = WeightLoads()

from earthkit.regrid import clear_memory_cache  # noqa: E402
from earthkit.regrid import config  # noqa: E402
from earthkit.regrid import interpolate  # noqa: E402
from earthkit.regrid.array import regrid  # noqa: E402
from memhist import MAX  # noqa: E402
from memhist import POLICY  # noqa: E402
from memhist import STRICT  # noqa: E402

config.autosave = False

C = Check(
    "C02",
    "exploration",
    "Random histories of regrids (several inventories that share grids, methods and names, various spellings) mixed "
    "with configuration changes and clearings of the cache; each result is compared bit by bit with that of the cache "
    "turned off and with the reference product; then requests that differ in one detail from earlier ones (nearly equal grids), with weights that identify themselves; non-trivial: a compared result of distinct (request, configuration).",
)


def call(req):
    inv, gin, gout, method, v, how = req
    if how == "interpolate":
        return interpolate(v, dict(gin), dict(gout), method=method, matrix_source=inv), gout
    return regrid(v, dict(gin), dict(gout), interpolation=method, backend="precomputed", inventory=inv)


def fingerprint(res):
    a, g = res
    return (a.dtype.str, a.shape, a.tobytes(), str(sorted(g.items())))


def histories():
    rng = C.rng("histories")
    for h in range(pick(25, 300)):
        config.reset()
        config.set(POLICY, "off")
        nrng = np.random.default_rng(rng.randrange(1 << 30))
        pool = rng.sample(grid_pool(), 5)
        invs = []
        for _ in range(rng.randint(2, 4)):
            inv = random_inventory(fresh_dir("inv"), rng, n=rng.randint(4, 8), pool=pool, memory=rng.random() < 0.7)
            inv.write()
            invs.append(inv)
        # the requests, with the result of the cache turned off
        requests = []
        for inv in invs:
            for e in inv.entries:
                v = nrng.normal(size=size_of(e.gin))
                ref, scale = apply(e.w, v)
                for _ in range(2):
                    req = (
                        inv.path,
                        numpy_numbers(rng.choice([e.gin, short(e.gin)]), rng),
                        numpy_numbers(rng.choice([e.gout, short(e.gout)]), rng),
                        spelled(e.method, rng),
                        v,
                        rng.choice(["regrid", "regrid", "interpolate"]),
                    )
                    res, err = outcome(call, req)
                    if err is not None:
                        C.violation("off-failed", f"{err!r}", request=req)
                        return
                    C.check(same(res[0], ref, scale), "off-wrong", "wrong result with the cache off", request=req)
                    requests.append((req, fingerprint(res), e.size))
            for _ in range(3):
                gin, gout = rng.sample(pool, 2)
                m = rng.choice(METHODS)
                if not any((short(e.gin), short(e.gout), e.method) == (short(gin), short(gout), m) for e in inv.entries):
                    requests.append(((inv.path, short(gin), short(gout), m, np.zeros(size_of(gin)), "regrid"), None, 0))
        sizes = [s for _, _, s in requests if s]
        strict, policy = False, "off"
        hot = rng.sample(requests, 8)
        for _ in range(pick(120, 250)):
            C.evaluate()
            r = rng.random()
            if r < 0.07:
                conf = {}
                if rng.random() < 0.6:
                    conf[MAX] = rng.choice([rng.randint(1, max(sizes)), rng.randint(max(sizes), 3 * max(sizes)), 10**9])
                if rng.random() < 0.6:
                    policy = conf[POLICY] = rng.choice(["off", "unlimited", "largest", "lru", "largest", "lru", "unlimited"])
                if rng.random() < 0.4:
                    strict = conf[STRICT] = rng.random() < 0.5
                if conf:
                    config.set(conf)
                    C.count("config_changes")
                continue
            if r < 0.09:
                clear_memory_cache()
                continue
            if rng.random() < 0.1:
                hot = rng.sample(requests, 8)
            req, expected, size = rng.choice(hot if rng.random() < 0.8 else requests)
            loads.take()
            res, err = outcome(call, req)
            n = len(loads.take())
            info = dict(inventory=req[0], in_grid=req[1], out_grid=req[2], method=req[3], how=req[5], policy=policy, strict=strict)
            if expected is None:
                C.count("without_weights")
                C.check(isinstance(err, ValueError), "no-weights-not-refused", f"result={res is not None} {err!r}", **info)
            elif err is not None:
                ok = isinstance(err, ValueError) and strict and policy in ("largest", "lru") and size > config.get(MAX)
                C.count("strict_refused")
                C.check(ok, "failed", f"{err!r}", size=size, limit=config.get(MAX), **info)
            else:
                C.count("from_cache" if n == 0 else "loaded")
                C.nontrivial((h, req[0], str(req[1]), str(req[2]), req[3], policy, n))
                C.check(
                    fingerprint(res) == expected,
                    "different-result",
                    "the result differs from that with the cache off",
                    from_cache=n == 0,
                    **info,
                )
                C.sample(dict(from_cache=n == 0, **info))
        if C.elapsed() > pick(60, 700):
            break


def cluster(rng, big):
    """Grids that are nearly the same"""
    while True:
        g = base_grid(rng)
        if big or small(g):
            break
    out = {g.cid: g}
    for _ in range(40):
        n = neighbour(rng, rng.choice(list(out.values())))
        if n.kind == "ll" and rng.random() < 0.5:
            dx, dy = n.name
            d = rng.choice([2e-4, 1e-3, 5e-3])
            n.name = rng.choice([(round(dx * (1 + d), 7), dy), (dx, round(dy * (1 + d), 7))])
            n.area = n.area or [60, 0, -60, 40]
        if big or small(n) and min(n.index().get("shape", [1])) > 0:
            out[n.cid] = n
        if len(out) > 4:
            break
    return list(out.values())


def close_grids():
    """Requests that differ in one detail, whose weights identify themselves"""
    rng = C.rng("close")
    n = 0
    while n < pick(20, 300) and C.elapsed() < pick(80, 740):
        n += 1
        ins, outs = cluster(rng, True), cluster(rng, False)
        known = {}
        invs = []
        for _ in range(2):
            inv = Inventory(fresh_dir("inv"), 0)
            for i in ins:
                for o in outs:
                    for m in METHODS:
                        if i.cid == o.cid or rng.random() < 0.3:
                            continue
                        k = known[inv.path, i.cid, o.cid, m] = len(known) + 1
                        gout = o.index(rng)
                        rows = int(np.prod(gout["shape"])) if "shape" in gout else 12
                        w = csr_matrix(np.full((rows, 1), float(k)))
                        inv.entries.append(Entry(f"e{k}", i.index(rng), gout, m, w))
            rng.shuffle(inv.entries)
            inv.write()
            invs.append(inv.path)
        asked = []
        config.reset()
        clear_memory_cache()
        config.set(POLICY, rng.choice(["unlimited", "largest", "lru"]))
        config.set(MAX, 10**9)
        for _ in range(pick(200, 300)):
            C.evaluate()
            if not asked or rng.random() < 0.7:
                req = [rng.choice(invs), rng.choice(ins), rng.choice(outs), rng.choice(METHODS)]
                if asked and rng.random() < 0.7:
                    # one detail of an earlier request is changed
                    old, i = list(rng.choice(asked)), rng.randrange(4)
                    old[i] = req[i]
                    req = old
                asked.append(req)
            else:
                req = rng.choice(asked)
            inv, i, o, m = req
            rich = rng.random() < 0.2
            gin, gout, name = i.spell(rng, rich), o.spell(rng, rich), spelled(m, rng)
            loads.take()
            res, err = outcome(regrid, np.ones(1), gin, gout, interpolation=name, backend="precomputed", inventory=inv)
            hit = not loads.take()
            want = known.get((inv, i.cid, o.cid, m))
            case = dict(inventory=inv, in_grid=gin, out_grid=gout, method=name, from_cache=hit)
            if want is None:
                C.check(isinstance(err, ValueError), "close-not-refused", f"{err!r}: a request without weights", **case)
            elif err is not None:
                C.violation("close-failed", f"{err!r}", **case)
            else:
                C.count("close_from_cache", hit)
                C.nontrivial(("close", n, str(gin), str(gout), name, hit))
                got = np.unique(res[0]).tolist()
                C.check(got == [want], "close-other-weights", f"the weights {got} were used instead of {want}", **case)
            C.count("close")


C.require(close=800, close_from_cache=150)
C.require(from_cache=100, loaded=100, config_changes=40, without_weights=10)
main(C, histories, close_grids)
