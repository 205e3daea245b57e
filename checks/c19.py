"""C19: values of options, precedence, rejected changes, reset."""

import os
import random

from confmodel import DEFAULTS
from confmodel import NAMES
from confmodel import History
from confmodel import Observers
from confmodel import env_name
from confmodel import valid
from harness import Check
from harness import main
from harness import pick

from earthkit.regrid import config

C = Check(
    "C19",
    "exploration",
    "Random histories of set (in its three forms, with several options, valid texts with units, native values, paths, numpy scalars), "
    "invalid changes at every position of a call, reset, environment variables that come and go, changes that observers reject, and a "
    "few temporary configurations; after each operation every option, env(), the observers, the caches and the content of the "
    "configuration file are compared with a model. Non-trivial: distinct sequences of operations and options.",
    ["the configuration is changed by one thread at a time"],
)


class Values(History):
    OPS = {"set": 40, "again": 4, "reset": 12, "invalid": 22, "environment": 16, "autosave": 3, "temporary": 6}


def histories():
    rng = C.rng("histories")
    main_file = os.environ["EARTHKIT_REGRID_CONFIG_FILE"]
    observers = Observers()
    budget = pick(12, 500)
    n = 0
    while (n < 12 or C.elapsed() < budget) and not C.violated:
        h = Values(C, random.Random(rng.random()), observers, main_file, max_depth=1)
        if h.run(rng.choice([20, 40, 60])):
            C.count("histories")
            C.sample(h.trace[:6])
        n += 1


def empty_variables():
    """A variable that is set to an empty text is set"""
    rng = C.rng("empty")
    config.autosave = False
    for _ in range(pick(3, 20)):
        for name in NAMES:
            for text in ("", " "):
                config.reset()
                stored = DEFAULTS[name]
                while stored in (None, False, DEFAULTS[name]):
                    raw, stored = valid(rng, name, ["/some/where", "relative"])
                config.set(name, raw)
                os.environ[env_name(name)] = text
                try:
                    got = config.get(name)
                    env = {k: tuple(v) for k, v in config.env().items()}
                except ValueError:
                    env = got = None
                finally:
                    del os.environ[env_name(name)]
                C.evaluate()
                C.count("empty_variables")
                C.nontrivial(("empty", name, text))
                C.check(got != stored, "empty-ignored", f"{name} is {got!r} with its variable set to {text!r}", stored=stored)
                C.check(env in (None, {name: (env_name(name), text)}), "env()", f"env() is {env}", name=name)
                C.check(config.get(name) == stored, "empty-stays", f"{config.get(name)!r} instead of {stored!r}", name=name)
    config.reset()


C.require(empty_variables=40)
C.require(histories=8, reads=3000, reads_environment=100, invalid=40, rejected_by_observer=3, files=100, warnings=5, effective_changes=50)
C.require(components=200, temporaries=5)
main(C, histories, empty_variables)
