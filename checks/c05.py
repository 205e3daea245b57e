"""C05: concurrent regrids, statistics, clearing and configuration changes."""

import hashlib
import os
import threading

import numpy as np
from harness import Check
from harness import fresh_dir
from harness import main
from harness import pick
from inventory import apply
from inventory import grid_pool
from inventory import random_inventory
from inventory import same
from inventory import short
from inventory import size_of
from inventory import spelled
from monitor import WeightLoads
from monitor import switch_interval
from stress import Delays
from stress import Team
from stress import preempted

loads = WeightLoads()

from earthkit.regrid import clear_memory_cache  # noqa: E402
from earthkit.regrid import config  # noqa: E402
from earthkit.regrid import memory_cache_info  # noqa: E402
from earthkit.regrid.array import regrid  # noqa: E402

config.autosave = False
SIZE = "maximum-weights-memory-cache-size"
POLICY = "weights-memory-cache-policy"
STRICT = "weights-memory-cache-strict-mode"

C = Check(
    "C05",
    "exploration",
    "Rounds of 3-8 threads (some of 16-30) on fresh inventories (so that the first use is part of the race), with delays injected at random "
    "source lines of the package; non-trivial: rounds with distinct orders of the completed operations.",
    ["interleavings are those that the delays and the switch interval produced"],
)


class Round:
    def __init__(self, rng, kind):
        self.rng = rng
        self.kind = kind
        self.nrng = np.random.default_rng(rng.randrange(1 << 30))
        pool = rng.sample(grid_pool(), 5)
        self.invs = []
        for _ in range(rng.randint(1, 3)):
            inv = random_inventory(fresh_dir("inv"), rng, n=rng.randint(2, 5), pool=pool)
            inv.write()
            self.invs.append(inv)
        self.cases = []
        for inv in self.invs:
            for e in inv.entries:
                v = self.nrng.normal(size=size_of(e.gin))
                self.cases.append((inv, e, v, *apply(e.w, v)))
        self.log = []
        self.lock = threading.Lock()
        self.ok = 0
        self.sizes = [e.size for inv in self.invs for e in inv.entries]

    def event(self, *what):
        with self.lock:
            self.log.append(what)

    def regrids(self, who, seed, n):
        import random

        rng = random.Random(seed)
        for _ in range(n):
            inv, e, v, ref, scale = rng.choice(self.cases)
            name = e.method if self.kind == "unlimited" else spelled(e.method, rng)
            case = dict(kind=self.kind, inventory=inv.path, entry=repr(e), thread=who)
            try:
                res, spec = regrid(
                    v, short(e.gin), short(e.gout), interpolation=name, backend="precomputed", inventory=inv.path
                )
            except Exception as err:
                self.event(who, "failed", e.name[:6])
                C.violation("regrid-failed", f"a regrid failed when run with others: {err!r}", **case)
                continue
            self.event(who, "regrid", e.name[:6])
            with self.lock:
                self.ok += 1
            C.evaluate()
            C.count("regrids")
            if not (res.shape == e.shape and same(res, ref, scale) and dict(spec) == short(e.gout)):
                C.violation("wrong-result", "the result differs from that of the regrid alone", got=res, expected=ref, **case)

    def statistics(self, who, n, off_ok=True):
        last = -1
        for _ in range(n):
            i = memory_cache_info()
            self.event(who, "info")
            if self.kind == "changes":
                for name in (POLICY, SIZE, STRICT):
                    try:
                        config.get(name)
                    except Exception as err:
                        C.violation("config-read-failed", f"config.get failed when run with changes: {err!r}", name=name)
            C.count("snapshots")
            bad = []
            if i.policy in ("largest", "lru"):
                if i.maxsize is None or i.currsize > i.maxsize:
                    bad.append("over the limit")
            elif i.policy == "unlimited":
                if i.maxsize is not None:
                    bad.append("limit with the unlimited policy")
            elif i.policy == "off":
                if i.count or i.currsize or i.hits or i.misses:
                    bad.append("statistics with the cache off")
            else:
                bad.append("unknown policy")
            if (i.count == 0) != (i.currsize == 0):
                bad.append("count and size")
            if not 0 <= i.currsize <= sum(self.sizes) * (8 if self.kind != "unlimited" else 1):
                bad.append("size out of range")
            if i.misses < i.count:
                bad.append("more weights than misses")
            if self.kind in ("unlimited", "limited"):
                if i.hits + i.misses < last:
                    bad.append("hits and misses decrease")
                last = i.hits + i.misses
            if bad:
                C.violation("inconsistent-snapshot", ", ".join(bad), info=i._asdict(), kind=self.kind)

    def clears(self, who, n):
        for _ in range(n):
            clear_memory_cache()
            self.event(who, "clear")

    def changes(self, who, seed, n):
        import random

        rng = random.Random(seed)
        for _ in range(n):
            d = {}
            if rng.random() < 0.7:
                d[POLICY] = rng.choice(["largest", "lru", "unlimited", "off"])
            if rng.random() < 0.7 or not d:
                d[SIZE] = rng.choice([max(self.sizes) + 1, sum(self.sizes) // 2 + 7, min(self.sizes) + 1, 500 << 20, "1"])
            try:
                if rng.random() < 0.3:
                    config.reset(rng.choice([POLICY, SIZE]))
                elif rng.random() < 0.1:
                    config.reset()
                else:
                    config.set(d)
                config.get(rng.choice([POLICY, SIZE, STRICT]))
            except Exception as err:
                C.violation("config-failed", f"a configuration change failed when run with others: {err!r}", change=d)
            self.event(who, "config")
            C.count("config_changes")


def run_round(rng, kind):
    r = Round(rng, kind)
    config.reset()
    clear_memory_cache()
    if kind == "unlimited":
        config.set(POLICY, "unlimited")
    elif kind == "limited":
        config.set({POLICY: rng.choice(["largest", "lru"]), SIZE: rng.choice([max(r.sizes) * 2 + 1, sum(r.sizes) // 2 + 7])})
    elif kind == "off":
        config.set(POLICY, "off")
    clear_memory_cache()
    loads.take()

    def delays():
        if rng.random() < 0.15:
            return None
        return Delays(
            rng.randrange(1 << 30),
            p_yield=rng.choice([0.0, 0.1, 0.5]),
            p_sleep=rng.choice([0.002, 0.01, 0.05]),
            longest=rng.choice([0.0005, 0.002]),
            only=rng.choice([None, None, ("memcache.py", "db.py"), ("db.py", "__init__.py"), ("config.py", "memcache.py")]),
        )

    team = Team()
    many = rng.random() < 0.12
    for k in range(rng.randint(16, 28) if many else rng.randint(2, 5)):
        team.add(r.regrids, f"r{k}", rng.random(), rng.randint(2, 4) if many else rng.randint(3, 8), delays=delays())
    C.count("rounds_of_many_threads", many)
    team.add(r.statistics, "s", rng.randint(5, 30), delays=delays())
    if kind == "changes":
        for k in range(rng.randint(1, 2)):
            team.add(r.changes, f"c{k}", rng.random(), rng.randint(2, 8), delays=delays())
    if kind in ("changes", "clear") and rng.random() < 0.7:
        team.add(r.clears, "x", rng.randint(1, 5), delays=delays())
    with switch_interval(rng.choice([1e-6, 1e-5, 0.0005])):
        ended = team.run(60)
    C.count("rounds_" + kind)
    C.count("lines_traced", sum(d.lines for d in team.delays))
    C.count("delays_injected", sum(d.sleeps for d in team.delays))
    if not ended:
        C.violation("deadlock", f"{len(team.alive)} threads did not end", stacks=team.stacks(), kind=kind)
        return False
    for e, text in team.errors:
        raise RuntimeError(text)
    order = hashlib.sha256(repr(r.log).encode()).hexdigest()
    C.nontrivial((kind, order))
    C.sample({"kind": kind, "order": [" ".join(x) for x in r.log[:12]]})

    i = memory_cache_info()
    read = loads.take()
    detail = dict(info=i._asdict(), regrids=r.ok, read=len(read), kind=kind)
    if kind in ("unlimited", "limited"):
        C.check(
            i.hits + i.misses == r.ok, "lost-statistics", f"{i.hits} hits and {i.misses} misses for {r.ok} regrids", **detail
        )
        C.check(i.misses == len(read), "misses-and-reads", f"{i.misses} misses but {len(read)} weights read", **detail)
    if kind == "unlimited":
        C.count("exactly_once_rounds")
        C.check(len(set(read)) == len(read), "read-twice", "weights were read more than once", files=read, **detail)
        used = {x[2] for x in r.log if x[1] == "regrid"}
        C.check(
            i.count == len(read) and i.currsize == sum(e.size for inv in r.invs for e in inv.entries if _in(inv, e, read)),
            "held-size",
            "the memory reported is not that of the weights held",
            used=len(used),
            **detail,
        )
    # the cache agrees with the configuration at rest
    policy = config.get(POLICY)
    want = (policy, config.get(SIZE) if policy in ("largest", "lru") else None if policy == "unlimited" else 0)
    C.check((i.policy, i.maxsize) == want, "configuration-lost", f"cache {i} but configuration {want}", **detail)
    if policy in ("largest", "lru"):
        C.check(i.currsize <= i.maxsize, "over-the-limit", "the limit is exceeded", **detail)
    # and every regrid still works
    for inv, e, v, ref, scale in r.cases:
        res, _ = regrid(v, short(e.gin), short(e.gout), interpolation=e.method, backend="precomputed", inventory=inv.path)
        C.check(same(res, ref, scale), "wrong-afterwards", "a regrid after the race is wrong", **detail)
    return True


def _in(inv, e, read):
    import os

    return os.path.abspath(os.path.join(inv.path, e.path)) in read


def rounds():
    rng = C.rng("rounds")
    n = 0
    while n < pick(160, 100000) and C.elapsed() < pick(50, 750):
        n += 1
        if not run_round(rng, rng.choice(["unlimited", "unlimited", "limited", "changes", "changes", "clear", "off"])):
            break


class Pair:
    """Two operations from the same initial state. Every outcome of their concurrent execution has to be
    the outcome of one of the two orders."""

    FILES = ("memcache.py", "db.py", "precomputed.py", "config.py", os.path.join("backends", "__init__.py"))

    def __init__(self, rng):
        self.rng = rng
        inv = random_inventory(fresh_dir("inv"), rng, n=4, pool=rng.sample(grid_pool(), 4))
        inv.write()
        self.inv = inv
        nrng = np.random.default_rng(rng.randrange(1 << 30))
        self.cases = []
        for e in inv.entries:
            v = nrng.normal(size=size_of(e.gin))
            self.cases.append((e, v, *apply(e.w, v)))
        self.sizes = sorted(e.size for e in inv.entries)
        self.policy = rng.choice(["unlimited", "unlimited", "largest", "lru"])
        self.limit = rng.choice([sum(self.sizes) + 1, self.sizes[-1] + self.sizes[0] + 1, sum(self.sizes) - 1])
        self.warm = rng.sample(range(4), rng.randint(0, 3))
        self.i = rng.randrange(4)
        # the first use of the inventory is not part of most pairs
        self.cold = rng.random() < 0.15
        self.used = 0
        self.path = inv.path

    def regrid(self, k):
        e, v, ref, scale = self.cases[k]
        r, spec = regrid(v, short(e.gin), short(e.gout), interpolation=e.method, backend="precomputed", inventory=self.path)
        C.count("preempted_regrids")
        ok = r.shape == e.shape and same(r, ref, scale) and dict(spec) == short(e.gout)
        C.check(ok, "wrong-result", "the result differs from that of the regrid alone", entry=repr(e), got=r, expected=ref)
        return k

    def start(self):
        config.reset()
        config.set({POLICY: self.policy, SIZE: self.limit})
        clear_memory_cache()
        if self.cold:
            # an inventory of another name has its own backend
            self.used += 1
            self.path = self.inv.path + "/" * self.used
        for k in self.warm:
            self.regrid(k)

    def end(self):
        i = memory_cache_info()
        # which weights are held, by looking at what has to be read
        loads.take()
        held = []
        if i.policy != "off":
            config.set(SIZE, 500 << 20)
            for k in range(4):
                before = memory_cache_info().hits
                self.regrid(k)
                held.append(memory_cache_info().hits - before)
        return tuple(i), tuple(held)

    def operation(self, name):
        rng = self.rng
        if name == "regrid":
            k = self.i if rng.random() < 0.5 else rng.randrange(4)
            return lambda: self.regrid(k)
        if name == "clear":
            return lambda: clear_memory_cache()
        if name == "info":
            return lambda: tuple(memory_cache_info())
        if name == "policy":
            p = rng.choice(["unlimited", "off", "largest", "lru"])
            return lambda: config.set(POLICY, p)
        if name == "size":
            n = rng.choice([self.sizes[-1] + 1, self.sizes[0] + 1, sum(self.sizes) + 1])
            return lambda: config.set(SIZE, n)
        if name == "both":
            p = rng.choice(["unlimited", "off", "largest", "lru"])
            n = rng.choice([self.sizes[-1] + 1, self.sizes[0] + 1, sum(self.sizes) + 1])
            return lambda: config.set({SIZE: n, POLICY: p})
        return lambda: config.reset()


CHANGES = ["policy", "size", "both", "reset"]
NAMES = ["regrid", "regrid", "regrid", "clear", "clear", "info", "policy", "size", "both", "reset"]


def run_pair(rng, budget):
    p = Pair(rng)
    name1 = rng.choice(["regrid", "regrid", "regrid", "info", "clear", "policy", "size", "both"])
    name2 = rng.choice(NAMES)
    first = (lambda: p.regrid(p.i)) if name1 == "regrid" else p.operation(name1)
    second = p.operation(name2)
    case = dict(first=name1, second=name2, policy=p.policy, limit=p.limit, sizes=p.sizes, warm=p.warm, i=p.i)
    serial = []
    for a, b in ((first, second), (second, first)):
        p.start()
        r = {}
        try:
            r[a] = a()
            r[b] = b()
        except Exception as e:
            C.violation("regrid-failed", f"{name1} and {name2}, one after the other: {e!r}", **case)
            return
        serial.append((r[first], r[second], p.end()))
    p.start()
    total = preempted(first, second, -1, p.FILES)[0]
    points = list(range(1, total + 1))
    if len(points) > budget:
        points = sorted(rng.sample(points, budget))
    C.count("pairs")
    for k in points:
        p.start()
        _, where, r1, r2, stuck = preempted(first, second, k, p.FILES)
        if stuck:
            C.violation("deadlock", f"{name1} and {name2} at {where} do not end", **case)
            return
        if r2 is None:
            continue  # fewer lines this time
        C.count("preemptions")
        C.evaluate()
        C.nontrivial(("preempt", name1, name2, p.policy, where))
        for r, n in ((r1, name1), (r2, name2)):
            if r[1] is not None:
                C.violation("regrid-failed" if n == "regrid" else "operation-failed", f"{n} failed ({name2} at {where} of {name1}): {r[1]!r}", **case)
        if r1[1] is None and r2[1] is None:
            got = (r1[0], r2[0], p.end())
            if name1 in CHANGES and name2 in CHANGES:
                # options of both can be in force, but the cache has to follow them
                i, policy = got[2][0], config.get(POLICY)
                C.check(i[5] == policy, "configuration-lost", f"cache {i} but configuration {policy}", **case)
                continue
            C.check(
                got in serial,
                "not-serial",
                f"the outcome of {name1} with {name2} at {where} is not that of any order",
                got=got,
                serial=serial,
                **case,
            )


def preemptions():
    rng = C.rng("preemptions")
    t = C.elapsed()
    n = 0
    while n < pick(40, 100000) and C.elapsed() - t < pick(15, 300) and "deadlock" not in C.violations:
        n += 1
        run_pair(rng, pick(40, 400))


C.require(preemptions=100, regrids=400, exactly_once_rounds=8, config_changes=30, snapshots=200)
main(C, preemptions, rounds)
