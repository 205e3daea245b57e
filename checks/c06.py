"""C06: soundness of the matching of grids."""

from harness import Check
from harness import main
from harness import pick

from earthkit.regrid import config  # noqa: E402
from matching import run  # noqa: E402

config.autosave = False

C = Check(
    "C06",
    "exploration",
    "Inventories whose weights identify their entry are queried with grids close to those of the entries (resolution, "
    "area, scanning, ordering, name, shape, method) in random spellings; non-trivial: distinct queries.",
    ["differences within a factor of the matching tolerances are not generated"],
)

real = C.violation


def violation(key, message, **kw):
    # missed matches are C07
    if key != "missed":
        real(key, message, **kw)


C.violation = violation


def queries():
    run(C, C.rng("queries"), pick(30, 400), pick(400, 600), 0.3, 0.5, pick(90, 700))


C.require(answered=300, refused=1000)
main(C, queries)
