"""C04: order of the in-memory eviction, strict mode."""

from harness import Check
from harness import main
from harness import pick
from monitor import WeightLoads

loads = WeightLoads()

from earthkit.regrid import config  # noqa: E402
from memhist import History  # noqa: E402

config.autosave = False

C = Check(
    "C04",
    "exploration",
    "Random access histories under the two limited policies with limits around the sizes of the weights; the weight "
    "files read by each regrid are compared with those of a model of the policy; non-trivial: distinct states of the "
    "cache reached.",
    ["sizes never add up exactly to the limit, as limits are odd"],
)


def report(kind, text, **kw):
    C.violation(kind, text, **kw)


def histories():
    rng = C.rng("histories")
    for h in range(pick(100, 1200)):
        policies = rng.choice([["largest"], ["lru"], ["largest", "lru"]])
        hist = History(C, rng, loads, report, policies, strict_ok=rng.random() < 0.6, memory=rng.random() < 0.8)
        hist.start()
        hist.compare()
        for _ in range(pick(50, 120)):
            hist.oversize = None
            C.evaluate()
            if rng.random() < 0.93:
                hist.regrid(rng.choice(hist.entries))
            else:
                hist.set(hist.random_conf())
            if not hist.failed:
                C.nontrivial((h, hist.compare()))
            if hist.failed:
                break
        C.count("histories_" + "_".join(policies))
        C.sample({"trace": hist.trace[:15]})
        if C.elapsed() > pick(60, 600):
            break


def many():
    """Many weights in the cache"""
    rng = C.rng("many")
    for h in range(pick(4, 40)):
        policy = ["largest", "lru"][h % 2]
        hist = History(C, rng, loads, report, [policy], strict_ok=h % 4 >= 2, wide=True)
        hist.config.reset()
        hist.model.clear()
        hist.start()
        hist.set({"maximum-weights-memory-cache-size": sum(e.size for e in hist.entries) + 1, "weights-memory-cache-strict-mode": False})
        if not hist.failed:
            hist.fill()
        C.count("many")
        if C.elapsed() > pick(100, 730):
            break


C.require(many=2, held_max=60)
C.require(histories_lru=3, histories_largest=3, regrid_hit=100, regrid_load=300, regrid_refused=20)
main(C, histories, many)
