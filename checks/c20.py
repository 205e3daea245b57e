"""C20: nested temporary configurations, observers."""

import os
import random

from confmodel import History
from confmodel import Observers
from harness import Check
from harness import main
from harness import pick

C = Check(
    "C20",
    "exploration",
    "Random nestings of temporary configurations (to depth 6, and some to depth 40; with and without values and files of their own; ended normally, by an "
    "error, by an invalid change or by an interrupt; rejected by an observer on entry) with changes, resets, environment variables, "
    "automatic saving and rejected changes inside; after each operation the options, the observers, the memory cache, the disk cache and "
    "the configuration files are compared with a stack model. Non-trivial: distinct sequences of operations and options.",
    ["the configuration is changed by one thread at a time", "temporary configurations end in the reverse order of their starts"],
)


class Nested(History):
    OPS = {
        "set": 25,
        "again": 3,
        "reset": 10,
        "invalid": 10,
        "environment": 5,
        "autosave": 4,
        "temporary": 30,
        "unused": 3,
        "save_as": 2,
        "observer": 1,
    }


def histories():
    rng = C.rng("histories")
    main_file = os.environ["EARTHKIT_REGRID_CONFIG_FILE"]
    observers = Observers()
    budget = pick(12, 500)
    n = 0
    while (n < 12 or C.elapsed() < budget) and not C.violated:
        h = Nested(C, random.Random(rng.random()), observers, main_file, max_depth=6)
        if h.run(rng.choice([10, 20, 30])):
            C.count("histories")
            C.sample(h.trace[:6])
        n += 1


class Deep(History):
    """Many nested temporary configurations"""

    OPS = {"set": 10, "reset": 3, "invalid": 3, "temporary": 90}

    def op_temporary(self):
        # the deepest first; not the whole tree
        if len(self.trace) > 160:
            return True
        if len(self.stack) > 20:
            self.C.count("deeper_than_20")
        return super().op_temporary()


def deep():
    rng = C.rng("deep")
    main_file = os.environ["EARTHKIT_REGRID_CONFIG_FILE"]
    observers = Observers()
    budget = C.elapsed() + pick(12, 120)
    n = 0
    while (n < 3 or C.elapsed() < budget) and not C.violated:
        h = Deep(C, random.Random(rng.random()), observers, main_file, max_depth=40)
        h.run(30)
        C.count("deep")
        n += 1


C.require(deep=3, deeper_than_20=10)
C.require(histories=8, reads=3000, temporaries=80, temporaries_normal=20, temporaries_error=10, temporaries_invalid=10)
C.require(temporaries_interrupt=10, nested=20, temporary_rejected=2, files=200, effective_changes=100, components=300)
C.require(rejections_seen_by_observers=4)
main(C, histories, deep)
