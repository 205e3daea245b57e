"""Workload of C06 and C07: queries to inventories whose weights identify themselves."""

import numpy as np
from gridgen import UNSUPPORTED
from gridgen import Grid
from gridgen import base_grid
from gridgen import neighbour
from gridgen import wrong_shape
from harness import fresh_dir
from harness import jsonable
from harness import outcome
from inventory import METHODS
from inventory import Entry
from inventory import Inventory
from inventory import spelled
from scipy.sparse import csr_matrix


def small(g):
    n = g.index().get("shape")
    return n is None and g.name <= 32 or n is not None and np.prod(n) <= 12000


class World:
    """An inventory with one entry per (input, output, method)"""

    def __init__(self, rng, n_out=4, n_in=12):
        self.rng = rng
        outs, ins = {}, {}
        while len(outs) < n_out:
            g = base_grid(rng)
            if small(g):
                outs[g.cid] = g
        while len(ins) < n_in:
            g = base_grid(rng) if not ins or rng.random() < 0.6 else neighbour(rng, rng.choice(list(ins.values())))
            ins[g.cid] = g
        self.ins, self.outs = list(ins.values()), list(outs.values())
        self.known = {}
        self.entries = []
        k = 0
        for o in self.outs:
            for i in self.ins:
                for m in METHODS:
                    if i.cid == o.cid or rng.random() > 0.5:
                        continue
                    k += 1
                    gout = o.index(rng)
                    rows = int(np.prod(gout["shape"])) if "shape" in gout else 12
                    w = csr_matrix(np.full((rows, 1), float(k)))
                    self.entries.append(Entry(f"e{k}", i.index(rng), gout, m, w))
                    self.known[i.cid, o.cid, m] = k
        self.paths = []
        for _ in range(2):
            # the order of the entries must not matter
            inv = Inventory(fresh_dir("inv"), 0)
            inv.entries = list(self.entries)
            rng.shuffle(inv.entries)
            inv.write()
            self.paths.append(inv.path)

    def ask(self, gin, gout, method, path):
        from earthkit.regrid.array import regrid

        return outcome(
            regrid, np.ones(1), gin, gout, interpolation=method, backend="precomputed", inventory=path
        )


def run(C, rng, worlds, queries, p_known, p_rich, stop_after):
    """Returns nothing; reports unsound answers and missed matches of the inventories."""
    from earthkit.regrid import config

    for w in range(worlds):
        world = World(rng)
        config.set("weights-memory-cache-policy", rng.choice(["largest", "off", "lru"]))
        keys = list(world.known)
        for q in range(queries):
            C.evaluate()
            cin, cout, method = rng.choice(keys)
            gin = next(g for g in world.ins if g.cid == cin)
            gout = next(g for g in world.outs if g.cid == cout)
            why = "same"
            if rng.random() > p_known:
                why = rng.choice(["neighbour-in", "neighbour-in", "neighbour-out", "shape-in", "shape-out", "method", "swap", "unsupported", "other-in"])
                if why == "neighbour-in":
                    gin = neighbour(rng, gin)
                elif why == "neighbour-out":
                    gout = neighbour(rng, gout)
                elif why == "shape-in":
                    gin = wrong_shape(rng, gin) or gin
                elif why == "shape-out":
                    gout = wrong_shape(rng, gout) or gout
                elif why == "method":
                    method = rng.choice(METHODS)
                elif why == "swap":
                    gin, gout = gout, gin
                elif why == "other-in":
                    gin = base_grid(rng)
            rich = rng.random() < p_rich
            din, dout = gin.spell(rng, rich), gout.spell(rng, rich)
            expected = world.known.get((gin.cid, gout.cid, method))
            if why == "unsupported":
                bad = dict(rng.choice(UNSUPPORTED))
                if rng.random() < 0.6:
                    din = bad
                else:
                    dout = bad
                expected = None
            name = spelled(method, rng)
            path = rng.choice(world.paths)
            res, err = world.ask(din, dout, name, path)
            case = dict(in_grid=jsonable(din), out_grid=jsonable(dout), method=name, why=why, expected=expected)
            if err is not None:
                C.count("refused")
                if expected is not None:
                    C.violation("missed", f"the weights of this grid pair were not found: {err!r}", **case)
                else:
                    C.count("refused_" + why)
                    C.nontrivial(("refused", str(din), str(dout), name))
                    if why != "unsupported" and not isinstance(err, ValueError):
                        C.violation("refused-otherwise", f"{err!r} instead of ValueError", **case)
                continue
            got = np.unique(res[0])
            C.count("answered")
            C.nontrivial(("answered", str(din), str(dout), name))
            if expected is None:
                e = world.entries[int(got[0]) - 1]
                C.violation(
                    "unsound",
                    "weights of other grids were used",
                    used=dict(input=e.gin, output=e.gout, method=e.method),
                    **case,
                )
            elif got.tolist() != [expected]:
                e = world.entries[int(got[0]) - 1]
                C.violation(
                    "wrong-weights",
                    "weights of other grids were used",
                    used=dict(input=e.gin, output=e.gout, method=e.method),
                    **case,
                )
            C.sample(case)
        if C.elapsed() > stop_after:
            break
