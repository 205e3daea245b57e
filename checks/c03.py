"""C03: bound and statistics of the in-memory weights cache."""

from harness import Check
from harness import main
from harness import pick
from monitor import WeightLoads

loads = WeightLoads()

from earthkit.regrid import config  # noqa: E402
from memhist import History  # noqa: E402

config.autosave = False

C = Check(
    "C03",
    "exploration",
    "Random histories of regrids over up to 3 inventories, configuration changes and clearings; after each step the "
    "published statistics are compared with a model; non-trivial: distinct statistics reached.",
    ["the memory of a matrix is that of its data, indices and index pointers"],
)

MINE = {"statistics", "reported-configuration", "content", "over-the-limit", "config-change", "held-read-again", "not-held-not-read", "regrid-failed"}


def report(kind, text, **kw):
    if kind in MINE:
        C.violation(kind, text, **kw)


def histories():
    rng = C.rng("histories")
    for h in range(pick(100, 1000)):
        policies = rng.choice([["largest", "lru"], ["largest", "lru", "unlimited", "off"], ["unlimited", "off", "lru"], ["unlimited"]])
        hist = History(C, rng, loads, report, policies, strict_ok=rng.random() < 0.5, memory=rng.random() < 0.7)
        hist.run(pick(50, 120))
        C.count("histories")
        C.sample({"trace": hist.trace[:15]})
        if C.elapsed() > pick(60, 600):
            break


def memory_sizes():
    """The memory of weights of other types than the usual ones"""
    import numpy as np
    from earthkit.regrid import clear_memory_cache
    from earthkit.regrid import memory_cache_info
    from earthkit.regrid.array import regrid
    from harness import fresh_dir
    from inventory import Inventory
    from inventory import grid_pool
    from inventory import nbytes
    from inventory import short
    from inventory import size_of

    rng = C.rng("sizes")
    config.reset()
    for policy in ("unlimited", "largest", "lru"):
        config.set("weights-memory-cache-policy", policy)
        clear_memory_cache()
        inv = Inventory(fresh_dir("inv"), rng.randrange(1 << 30))
        pool = grid_pool()
        for i in range(8):
            gin, gout = rng.sample(pool, 2)
            e = inv.add(gin, gout, "linear", name=f"m{i}{policy}")
            if i % 3 == 1:
                e.w.data = e.w.data.astype(np.float32)
            if i % 3 == 2:
                e.w.indices = e.w.indices.astype(np.int64)
                e.w.indptr = e.w.indptr.astype(np.int64)
            if i % 4 == 3:
                e.w = e.w.tocsc()
            e.size = nbytes(e.w)
        inv.write()
        total, n, seen = 0, 0, set()
        for e in inv.entries:
            from scipy.sparse import load_npz

            if str((e.gin, e.gout)) in seen:
                continue
            seen.add(str((e.gin, e.gout)))
            regrid(np.zeros(size_of(e.gin)), short(e.gin), short(e.gout), backend="precomputed", inventory=inv.path)
            import os

            total += nbytes(load_npz(os.path.join(inv.path, e.path)))
            n += 1
            info = memory_cache_info()
            C.evaluate()
            C.count("sizes")
            C.nontrivial(("size", policy, n))
            C.check(
                (info.currsize, info.count) == (total, n),
                "memory-size",
                f"{info} for {n} matrices of {total} bytes",
                dtypes=[str(e.w.data.dtype), str(e.w.indices.dtype), e.w.format],
            )


def many():
    """Many weights in the cache"""
    rng = C.rng("many")
    for h in range(pick(4, 40)):
        policy = ["largest", "lru"][h % 2]
        hist = History(C, rng, loads, report, [policy], strict_ok=h % 4 >= 2, wide=True)
        hist.config.reset()
        hist.model.clear()
        hist.start()
        hist.set({"maximum-weights-memory-cache-size": sum(e.size for e in hist.entries) + 1, "weights-memory-cache-strict-mode": False})
        if not hist.failed:
            hist.fill()
        C.count("many")
        if C.elapsed() > pick(100, 730):
            break


C.require(many=2, held_max=60)
C.require(sizes=15, histories=10, snapshots=500, regrid_hit=100, regrid_load=200, config_changes=50)
main(C, histories, many, memory_sizes)
