"""Executable model of the in-memory weights cache, and random histories over it."""

import os
from collections import OrderedDict

import numpy as np
from harness import fresh_dir
from harness import outcome
from inventory import Inventory
from inventory import apply
from inventory import healpix
from inventory import ll
from inventory import octahedral
from inventory import same
from inventory import short
from inventory import size_of

MAX = "maximum-weights-memory-cache-size"
POLICY = "weights-memory-cache-policy"
STRICT = "weights-memory-cache-strict-mode"
LIMITED = ("largest", "lru")
MB500 = 500 * 1024 * 1024


class Model:
    def __init__(self):
        self.conf = {MAX: MB500, POLICY: "largest", STRICT: False}
        self.items = OrderedDict()
        self.hits = 0
        self.misses = 0

    def copy(self):
        m = Model()
        m.conf = dict(self.conf)
        m.items = OrderedDict(self.items)
        m.hits, m.misses = self.hits, self.misses
        return m

    policy = property(lambda self: self.conf[POLICY])
    limit = property(lambda self: self.conf[MAX])
    strict = property(lambda self: self.conf[STRICT])
    used = property(lambda self: sum(self.items.values()))
    limited = property(lambda self: self.policy in LIMITED)

    def info(self):
        """(hits, misses, maxsize, currsize, count, policy)"""
        size = {"off": 0, "unlimited": None}.get(self.policy, self.limit)
        return (self.hits, self.misses, size, self.used, len(self.items), self.policy)

    def clear(self):
        self.items.clear()
        self.hits = self.misses = 0

    def evict_below(self, target):
        n = 0
        while self.items and self.used >= target:
            if self.policy == "largest":
                k = max(self.items, key=lambda k: self.items[k])
            else:
                k = next(iter(self.items))
            del self.items[k]
            n += 1
        return n

    def configure(self, conf):
        """False when the new configuration is not valid"""
        new = dict(self.conf)
        new.update(conf)
        if new[POLICY] in LIMITED and (new[MAX] is None or new[MAX] <= 0):
            return False
        self.conf = new
        if self.policy == "off":
            self.clear()
        elif self.limited:
            self.evict_below(self.limit)
        return True

    def get(self, key, size, estimate):
        """'hit', 'load' (not kept afterwards: 'drop'), 'uncached' or 'refused'"""
        if self.policy == "off":
            return "uncached"
        if key in self.items:
            self.hits += 1
            self.items.move_to_end(key)
            return "hit"
        if self.limited:
            if self.limit - self.used < estimate <= self.limit:
                self.evict_below(self.limit - estimate)
            if self.strict and self.limit - self.used < estimate:
                return "refused"
        self.misses += 1
        self.items[key] = size
        if self.limited:
            self.evict_below(self.limit)
        return "load"


def sized_inventories(rng, n_inv=2, n=6, memory=True, wide=False):
    """Inventories whose weights all have different sizes, multiples of 4"""
    pool = [ll(10), ll(5), octahedral(8), octahedral(16), healpix(4, "nested"), healpix(2, "ring")]
    if wide:
        pool = [octahedral(i) for i in (8, 9, 10, 12, 14, 16)] + [ll(10)] + [healpix(i, o) for i in (2, 4, 8) for o in ("ring", "nested")]
    used = set()
    invs = []
    pairs = [(a, b) for a in pool for b in pool if a is not b]
    common = rng.sample(pairs, 2)  # in all the inventories
    for _ in range(n_inv):
        inv = Inventory(fresh_dir("inv"), rng.randrange(1 << 30), memory=memory)
        chosen = common + rng.sample([p for p in pairs if p not in common], n - 2)
        for gin, gout in chosen:
            rows = size_of(gout)
            for _ in range(100):
                nnz = rng.choice([rng.randint(10, 300), rng.randint(300, 3000), rng.randint(3000, 12000)])
                if wide:
                    nnz = rng.randint(1500, 4000)
                size = 4 * (rows + 1) + 12 * nnz
                if size not in used and nnz // rows < size_of(gin):
                    used.add(size)
                    break
            e = inv.add(gin, gout, rng.choice(["linear", "nearest-neighbour"]), nnz=nnz)
            assert e.size == size, (e.size, size)
            e.inv = inv
        inv.write()
        invs.append(inv)
    return invs


def odd(n):
    return int(n) | 1


class History:
    """One random history. All the mismatches are reported through report(kind, text, detail)"""

    def __init__(self, C, rng, loads, report, policies, strict_ok=True, memory=True, temporaries=True, wide=False):
        from earthkit.regrid import config

        self.C = C
        self.rng = rng
        self.loads = loads
        self._report = report
        self.policies = policies
        self.temporaries = temporaries
        self.strict_ok = strict_ok and memory
        self.memory = memory
        self.config = config
        self.wide = wide
        if wide:
            # as many weights as a long-lived process uses
            self.invs = sized_inventories(rng, 2, rng.randint(60, 100), memory, wide=True)
        else:
            self.invs = sized_inventories(rng, rng.randint(1, 3), rng.randint(3, 6), memory)
        self.entries = [e for i in self.invs for e in i.entries]
        self.fields = {}
        nrng = np.random.default_rng(rng.randrange(1 << 30))
        for e in self.entries:
            v = nrng.normal(size=size_of(e.gin))
            self.fields[e.path, e.inv.path] = (v, *apply(e.w, v))
        self.model = Model()
        self.trace = []
        self.failed = False

    def report(self, kind, text, **kw):
        self.failed = True
        self._report(kind, text, trace=self.trace[-25:], **kw)

    def limits(self):
        sizes = [e.size for e in self.entries]
        total = sum(sizes)
        r = self.rng
        if self.wide and r.random() < 0.7:
            return odd(total * (0.5 + 0.5 * r.random()))
        return r.choice(
            [
                odd(r.randint(min(sizes), max(sizes))),
                odd(r.randint(max(sizes), total)),
                odd(r.randint(min(sizes), total)),
                odd(r.choice(sizes)),
                odd(r.choice(sizes) - 4),
                odd(total),
            ]
        )

    def random_conf(self):
        r = self.rng
        conf = {}
        if r.random() < 0.6:
            conf[MAX] = self.limits()
        if r.random() < 0.4 and self.strict_ok:
            conf[STRICT] = r.random() < 0.5
        if r.random() < 0.5:
            conf[POLICY] = r.choice(self.policies)
        return conf or {MAX: self.limits()}

    def start(self):
        from earthkit.regrid import clear_memory_cache

        self.config.reset()
        clear_memory_cache()
        conf = {POLICY: self.rng.choice(self.policies), MAX: self.limits()}
        if self.strict_ok:
            conf[STRICT] = self.rng.random() < 0.4
        self.set(conf)

    def set(self, conf):
        self.trace.append(("set", conf))
        self.C.count("config_changes")
        before = self.model.copy()
        ok = self.model.configure(conf)
        _, err = outcome(self.config.set, conf)
        if ok != (err is None):
            self.report("config-change", f"set({conf}) valid={ok} error={err!r}")
        if not ok:
            self.model = before

    def regrid(self, e):
        from earthkit.regrid.array import regrid

        C = self.C
        v, ref, scale = self.fields[e.path, e.inv.path]
        key = (e.inv.path, e.name)
        self.loads.take()
        before = self.model.copy()
        what = self.model.get(key, e.size, e.size if self.memory else 0)
        C.count("regrid_" + what)
        self.trace.append(("regrid", e.name[:6], e.size, what))
        res, err = outcome(
            regrid, v, short(e.gin), short(e.gout), interpolation=e.method, backend="precomputed", inventory=e.inv.path
        )
        loads = self.loads.take()
        path = os.path.join(os.path.abspath(e.inv.path), e.path)
        info = dict(entry=e.name, size=e.size, model=before.info(), held=list(before.items.values()))
        if what == "refused":
            if not isinstance(err, ValueError):
                self.report("strict-not-refused", f"weights of {e.size} bytes were accepted: {err!r}", **info)
            if loads:
                self.report("strict-read", "refused weights were read", loads=loads, **info)
            return
        if err is not None:
            self.report("regrid-failed", f"{err!r}", **info)
            return
        if not same(res[0], ref, scale):
            self.report("wrong-values", "wrong result", **info)
        if what == "hit" and loads:
            self.report("held-read-again", "weights that should be held were read again", loads=loads, **info)
        elif what != "hit" and loads != [path]:
            self.report("not-held-not-read", f"expected one read of {path}, observed {loads}", **info)
        # weights larger than everything: the lru policy may flush what is held or not
        if what == "load" and before.policy == "lru" and e.size > before.limit:
            self.oversize = before
        else:
            self.oversize = None

    def missing(self):
        from earthkit.regrid import memory_cache_info
        from earthkit.regrid.array import regrid

        e = self.rng.choice(self.entries)
        before = memory_cache_info()
        _, err = outcome(
            regrid, np.zeros(4), {"grid": "N77"}, short(e.gout), backend="precomputed", inventory=e.inv.path
        )
        self.trace.append(("missing",))
        if not isinstance(err, ValueError):
            self.report("missing-not-refused", f"{err!r}")
        after = memory_cache_info()
        # counting a request that cannot be satisfied as a miss or not are both fine
        if after.misses not in (before.misses, before.misses + 1):
            self.report("statistics", f"{before} -> {after} after a request without weights")
        self.model.misses = after.misses

    def clear(self):
        from earthkit.regrid import clear_memory_cache

        self.trace.append(("clear",))
        self.model.clear()
        clear_memory_cache()

    def compare(self):
        from earthkit.regrid import memory_cache_info

        info = memory_cache_info()
        got = (info.hits, info.misses, info.maxsize, info.currsize, info.count, info.policy)
        exp = self.model.info()
        self.C.count("snapshots")
        if got != exp and getattr(self, "oversize", None) is not None:
            kept = self.oversize
            kept.misses += 1
            if kept.info() == got:
                self.model, exp = kept, got
        if info.policy in LIMITED and info.currsize > info.maxsize:
            self.report("over-the-limit", f"{info}")
        if got != exp:
            kind = "statistics"
            if got[2] != exp[2] or got[5] != exp[5]:
                kind = "reported-configuration"
            elif got[:2] == exp[:2]:
                kind = "content"
            self.report(kind, f"cache reports {info}, expected {exp}")
        return got

    def fill(self):
        """Use all the weights, then reduce the limit at once and use them again"""
        entries = self.rng.sample(self.entries, len(self.entries))
        limit = self.limits()
        for i, e in enumerate(entries + entries[: len(entries) // 2]):
            self.oversize = None
            self.C.evaluate()
            if i == len(entries):
                most = len(self.model.items)
                self.set({MAX: limit})
                if not self.failed:
                    self.C.count("held_max", max(0, most - self.C.counters.get("held_max", 0)))
                    self.compare()
            self.regrid(e)
            if not self.failed:
                self.C.nontrivial((self.invs[0].path, self.compare()))
            if self.failed:
                return

    def step(self):
        r = self.rng.random()
        self.oversize = None
        self.C.evaluate()
        if r < 0.82:
            # a working set makes hits likely
            if self.rng.random() < 0.5 and len(self.trace) > 1:
                recent = [e for e in self.entries if any(t[0] == "regrid" and t[1] == e.name[:6] for t in self.trace[-5:])]
                self.regrid(self.rng.choice(recent or self.entries))
            else:
                self.regrid(self.rng.choice(self.entries))
        elif r < 0.92:
            self.set(self.random_conf())
        elif r < 0.94:
            self.set({MAX: None})
        elif r < 0.97:
            self.missing()
        else:
            self.clear()

    def run(self, steps):
        self.start()
        self.compare()
        for _ in range(steps):
            self.step()
            if not self.failed:
                got = self.compare()
                self.C.nontrivial((self.invs[0].path, got))
            if self.failed:
                return
