"""C07: completeness of the matching of grids."""

from harness import Check
from harness import main
from harness import pick

from earthkit.regrid import config  # noqa: E402
from matching import run  # noqa: E402

config.autosave = False

C = Check(
    "C07",
    "exploration",
    "Inventories (each in two orders of the entries) whose weights identify their entry are queried with the grids of "
    "the entries in random combinations of equivalent spellings; non-trivial: distinct answered queries.",
)


def queries():
    run(C, C.rng("queries"), pick(30, 400), pick(400, 600), 0.9, 0.85, pick(90, 700))


C.require(answered=1000)
main(C, queries)
