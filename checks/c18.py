"""C18: the policy and the directory of the disk cache follow the configuration."""

import gc
import json
import os
import random
import stat
import subprocess
import sys
import threading
import time

from cachework import Maker
from cachework import is_entry
from cachework import read
from harness import SCRATCH
from harness import Check
from harness import fresh_dir
from harness import main
from harness import pick

from earthkit.regrid import cache
from earthkit.regrid import config
from earthkit.regrid.utils.caching import cache_file

config.autosave = False
POLICY = "cache-policy"
USER = "user-cache-directory"
TMPC = "temporary-cache-directory-root"
TMPD = "temporary-directory-root"
SIZE = "maximum-cache-size"
USAGE = "maximum-cache-disk-usage"

C = Check(
    "C18",
    "exploration",
    "Random histories of configuration changes (set, reset, nested temporary configurations ended normally or by an error, rejected "
    "changes) with requests in between, in several threads; after every change a model tells where files go, what is found and which "
    "temporary directories still exist. New processes check the environment variables and that nothing remains at the end. "
    "Non-trivial: distinct sequences of policies and directories.",
    ["no request is in progress while the configuration changes"],
)


class Error(Exception):
    pass


class Model:
    """The configuration in force and what each user directory holds."""

    def __init__(self, defaults):
        self.defaults = defaults
        self.stack = [dict(defaults)]
        self.held = {}

    @property
    def now(self):
        return self.stack[-1]

    def get(self, name):
        return self.now[name]

    def designated(self):
        """What determines the directory"""
        p = self.now[POLICY]
        return (p, self.now[{"user": USER, "temporary": TMPC, "off": TMPD}[p]])


class History:
    def __init__(self, rng, defaults):
        self.rng = rng
        self.top = fresh_dir("top")
        self.m = Model(defaults)
        self.trace = []
        self.log = os.path.join(fresh_dir("log"), "log")
        self.maker = Maker(self.log, seed=rng.random())
        self.users = [os.path.join(self.top, n) for n in ("user1", "user2", "deep/er/user3")]
        home = os.path.expanduser("~")
        self.users.append(os.path.join("~", os.path.relpath(self.top, home), "user4"))
        self.roots = [os.path.join(self.top, n) for n in ("root1", "root2", "deep/root3")] + [None]
        self.roots.append(os.path.join("~", os.path.relpath(self.top, home), "root4"))
        with open(os.path.join(self.top, "file"), "w") as f:
            f.write("x")
        self.temps = set()  # every temporary directory seen
        self.current = None  # (designation, directory)
        self.off = []
        self.sequence = []

    def case(self, **more):
        return dict(history=self.trace[-25:], config=dict(self.m.now), **more)

    # ---- requests
    def request(self, thread=False):
        key = f"k{self.rng.randrange(3)}"
        made = []

        def create(path, args):
            made.append(1)
            self.maker(key, size=200)(path, args)

        got = []

        def ask():
            got.append(cache_file("policy", create, {"key": key}, extension=".dat"))

        if thread:
            t = threading.Thread(target=ask)
            t.start()
            t.join(30)
        else:
            ask()
        if not got:
            C.violation("request-fails", "a request failed in a thread", **self.case())
            return
        self.trace.append(["request", key])
        path = got[0]
        policy = self.m.get(POLICY)
        C.count(f"requests_{policy}")
        d = self.current[1]
        C.check(os.path.dirname(path) == d, "request-directory", f"created in {path} instead of {d}", **self.case())
        found = read(path)
        C.check(found and found[0] == key, "request-content", "not the file requested", path=path, **self.case())
        if policy == "off":
            C.check(len(made) == 1 and path not in self.off, "off-kept", "with the policy off a file was used again", **self.case())
            self.off.append(path)
        else:
            held = self.m.held.setdefault(d, {})
            want = held.get(key)
            C.check(
                len(made) == (0 if want else 1),
                "not-found-again" if want else "found-elsewhere",
                f"created {len(made)} times, held: {bool(want)}",
                **self.case(path=path),
            )
            C.check(want is None or want == [path, found[1]], "changed", "not the file that was there before", **self.case(path=path))
            held[key] = [path, found[1]]

    # ---- after every change
    def observe(self):
        C.evaluate()
        des = self.m.designated()
        policy, place = des
        d = cache.directory()
        self.sequence.append(des)
        C.check(cache.policy.directory() == d, "policy-directory", "cache.policy and cache differ", **self.case(d=d))
        C.check(cache.policy.name == policy, "policy-name", f"{cache.policy.name} instead of {policy}", **self.case())
        C.check(cache.policy.managed() is (policy != "off"), "policy-managed", f"{cache.policy.managed()} for {policy}", **self.case())
        C.check(os.path.isdir(d), "directory-missing", f"{d} does not exist", **self.case())
        if policy == "user":
            want = os.path.expanduser(place)
            if d != want:
                C.violation("user-directory", f"{d} instead of {want}", **self.case())
                return False
            C.count("observed_user")
        else:
            want = os.path.expanduser(place) if place is not None else os.environ["TMPDIR"]
            if os.path.dirname(d) != want:
                C.violation(f"{policy}-directory", f"{d} is not in {want}", **self.case())
                return False
            mode = stat.S_IMODE(os.stat(d).st_mode)
            C.check(mode & 0o077 == 0, "not-private", f"{d} has the mode {mode:o}", **self.case())
            if self.current and self.current[0] == des and self.unchanged:
                if d != self.current[1]:
                    C.violation("temporary-moved", f"another temporary directory without a reason: {d}", **self.case())
                    return False
            elif d in self.temps and (des, d) != self.current:
                C.violation("temporary-reused", f"a temporary directory is used again: {d}", **self.case())
                return False
            C.count("temporary_directories", d not in self.temps)
            self.temps.add(d)
            C.count(f"observed_{policy}")
        self.current = (des, d)
        self.unchanged = True
        gc.collect()
        left = {t: os.listdir(t) for t in self.temps if t != d and os.path.exists(t)}
        C.check(not left, "temporary-left", "temporary directories remain", left=left, **self.case())
        # files of the user directories stay
        for u, held in self.m.held.items():
            if u in self.temps:
                continue
            for key, (path, nonce) in held.items():
                found = read(path) if os.path.exists(path) else None
                C.check(found and list(found) == [key, nonce], "user-files", "a file of a user directory is gone", path=path, **self.case())
        if policy == "off":
            C.check(cache.entries() is None and cache.size() is None, "off-managed", "there are entries with the policy off", **self.case())
        else:
            got = {e["path"] for e in cache.entries()}
            held = {v[0] for v in self.m.held.get(d, {}).values()}
            C.check(got == held, "entries", "not the entries of this directory", got=sorted(got), want=sorted(held), **self.case())
        for _ in range(self.rng.choice([0, 1, 2])):
            self.request(thread=self.rng.random() < 0.3)
        return True

    # ---- changes
    def change(self):
        r = self.rng
        c = {}
        for name, values in (
            (POLICY, ["user", "temporary", "off"]),
            (USER, self.users),
            (TMPC, self.roots),
            (TMPD, self.roots),
            ("maximum-weights-memory-cache-size", ["100MB", "200MB"]),
            (SIZE, [None, "1GB"]),
        ):
            if r.random() < 0.35:
                c[name] = r.choice(values)
        return c or {POLICY: r.choice(["user", "temporary", "off"])}

    def applied(self, new):
        before = self.m.designated()
        self.m.now.update({k: v for k, v in new.items() if k in self.m.now})
        if self.m.designated() != before:
            self.unchanged = False

    def step(self, depth):
        r = self.rng
        x = r.random()
        if x < 0.5:
            c = self.change()
            self.trace.append(["set", c])
            if len(c) == 1 and r.random() < 0.5:
                config.set(*list(c.items())[0])
            elif r.random() < 0.3:
                config.set(**{k.replace("-", "_"): v for k, v in c.items()})
            else:
                config.set(c)
            self.applied(c)
        elif x < 0.6:
            name = r.choice([POLICY, USER, TMPC, TMPD])
            self.trace.append(["reset", name])
            config.reset(name)
            self.applied({name: DEFAULTS[name]})
        elif x < 0.72:
            bad = r.choice(
                [
                    {POLICY: "none"},
                    {POLICY: "user", USER: os.path.join(self.top, "file", "x")},
                    {POLICY: "temporary", TMPC: os.path.join(self.top, "file", "x")},
                    {TMPC: r.choice(self.roots), POLICY: "temporary", SIZE: "abc"},
                    {USER: r.choice(self.users), "no-such-option": 1},
                ]
            )
            self.trace.append(["rejected", bad])
            before = self.m.designated()
            try:
                if r.random() < 0.5:
                    config.set(bad)
                else:
                    with config.temporary(bad):
                        pass
                C.violation("not-rejected", "a change that cannot be used is accepted", change=bad, **self.case())
                return False
            except Exception as e:
                self.trace.append(repr(e)[:80])
                C.count("rejected")
            # the designation is the same; whether a temporary directory is a new one is open
            self.unchanged = False
            assert self.m.designated() == before
        elif x < 0.95 and depth < 3:
            c = self.change() if r.random() < 0.8 else {}
            n = r.randint(0, 4)
            error = r.random() < 0.3
            self.trace.append(["temporary", c])
            before = self.m.designated()
            self.m.stack.append(dict(self.m.now))
            ok = True
            try:
                with config.temporary(c) if c else config.temporary():
                    self.applied(c)
                    ok = self.observe()
                    for _ in range(n):
                        ok = ok and self.step(depth + 1) and self.observe()
                    inside = self.m.designated()
                    if error:
                        raise Error()
            except Error:
                pass
            self.m.stack.pop()
            self.trace.append(["end of temporary", error])
            if inside != before or len(self.sequence) and self.current and self.current[0] != before:
                self.unchanged = False
            C.count("temporaries")
            if not ok:
                return False
        else:
            self.trace.append(["nothing"])
        return True

    def run(self, n):
        config.reset()
        cache.purge()  # the default directory
        base = {USER: self.users[0], TMPC: self.roots[0], TMPD: self.roots[1], SIZE: None, USAGE: None}
        config.set(base)
        self.unchanged = False
        self.m.now.update({k: v for k, v in base.items() if k in self.m.now})
        for _ in range(n):
            if not self.observe() or not self.step(0):
                break
        else:
            C.count("histories")
        C.nontrivial(tuple(self.sequence))
        # nothing of it remains in use
        config.set({POLICY: "user", USER: os.path.join(SCRATCH, "idle")})
        gc.collect()
        left = {t: os.listdir(t) for t in self.temps if os.path.exists(t)}
        C.check(not left, "temporary-left", "temporary directories remain", left=left)


DEFAULTS = {}


def histories():
    rng = C.rng("histories")
    config.reset()
    DEFAULTS.update({k: config.get(k) for k in (POLICY, USER, TMPC, TMPD)})
    budget = pick(9, 400)
    i = 0
    while i < 15 or C.elapsed() < budget:
        History(random.Random(rng.random()), DEFAULTS).run(rng.choice([8, 15, 30]))
        i += 1


def unused():
    """The places of the other policies are not used, nor do they have to be usable"""
    rng = C.rng("unused")
    for i in range(pick(12, 150)):
        config.reset()
        top = fresh_dir("top")
        with open(os.path.join(top, "file"), "w") as f:
            f.write("x")
        policy = ["user", "temporary", "off"][i % 3]
        names = {"user": USER, "temporary": TMPC, "off": TMPD}
        places = {names[policy]: os.path.join(top, "used")}
        for p, name in names.items():
            if p != policy:
                places[name] = os.path.join(top, rng.choice(["file/x", "file", f"never-{p}", f"never/{p}"]))
        c = {POLICY: policy, **places, SIZE: rng.choice([None, "1GB"])}
        how = rng.choice(["together", "policy-first", "temporary"])
        case = dict(config=c, how=how)
        C.evaluate()

        def use():
            d = cache.directory()
            made = []
            path = cache_file("unused", lambda path, args: made.append(open(path, "w").close()), {"key": 1}, extension=".dat")
            C.check(os.path.dirname(path) == d and os.path.realpath(d).startswith(places[names[policy]]), "request-directory", path, **case)
            C.check(made, "found-elsewhere", "not created", **case)

        try:
            if how == "together":
                config.set(c)
                use()
            elif how == "policy-first":
                config.set({k: c[k] for k in (POLICY, names[policy])})
                for k in places:
                    config.set(k, c[k])
                use()
            else:
                with config.temporary(c):
                    use()
        except Exception as e:
            C.violation("unused-place", f"the policy {policy} needs the place of another one: {e!r}", **case)
            continue
        touched = sorted(n for n in os.listdir(top) if n not in ("file", "used"))
        C.check(not touched, "unused-touched", f"directories of other policies were created: {touched}", **case)
        C.count(f"unused_{policy}")
        C.nontrivial(("unused", policy, how, repr(sorted(os.path.relpath(x, top) for x in places.values()))))
    config.reset()


def relative(top, policy, seed):
    """The current directory changes after the configuration did. In a process of its own"""
    rng = random.Random(seed)
    dirs = [os.path.join(top, f"cwd{i}") for i in range(3)]
    for d in dirs:
        os.makedirs(d)
    os.chdir(dirs[0])
    name = {"user": USER, "temporary": TMPC, "off": TMPD}[policy]
    value = rng.choice(["rel", "./rel", "x/y/rel", "../cwd0/rel"])
    config.set({POLICY: policy, name: value, SIZE: rng.choice([None, "1GB"])})
    res = []
    where = os.path.realpath(cache.directory())
    if os.path.commonpath([where, os.path.join(top, "cwd0")]) != os.path.join(top, "cwd0"):
        res.append(f"{where} is not in {dirs[0]}")
    made = {}
    for i in range(10):
        if rng.random() < 0.6:
            os.chdir(rng.choice(dirs))
        if rng.random() < 0.2:
            config.set("maximum-weights-memory-cache-size", rng.choice(["100MB", "200MB"]))
        key = rng.randrange(4)
        calls = []

        def create(path, args):
            calls.append(1)
            with open(path, "w") as f:
                f.write(f"{key}")

        path = os.path.realpath(cache_file("relative", create, {"key": key}, extension=".dat"))
        cwd = os.getcwd()
        if os.path.dirname(path) != where:
            res.append(f"step {i} in {cwd}: a file is created in {os.path.dirname(path)} instead of {where}")
        if os.path.realpath(cache.directory()) != where:
            res.append(f"step {i} in {cwd}: the directory is {cache.directory()} instead of {where}")
        with open(path) as f:
            if f.read() != f"{key}":
                res.append(f"step {i} in {cwd}: not the file requested")
        if policy != "off":
            if len(calls) != (key not in made):
                res.append(f"step {i} in {cwd}: created {len(calls)} times, held: {key in made}")
            made[key] = path
            got = sorted(os.path.realpath(e["path"]) for e in cache.entries())
            if got != sorted(made.values()):
                res.append(f"step {i} in {cwd}: the entries are {got}")
    if policy != "off":
        cache.purge()
        left = [p for p in made.values() if os.path.exists(p)]
        if left:
            res.append(f"files remain after purge(): {left}")
    return res


def relatives():
    import procs

    rng = C.rng("relatives")
    for i in range(pick(12, 60)):
        policy = ["user", "temporary", "off"][i % 3]
        seed = rng.random()
        c = procs.call(relative, os.path.realpath(fresh_dir("rel")), policy, seed, timeout=60)
        C.evaluate()
        C.check(c.result is not None, "relative-fails", f"{policy}: {c.error} {c.trace}")
        for x in c.result or []:
            C.violation("relative-directory", x, policy=policy)
        if c.result == []:
            C.count("relative")


# ------------------------------------------------------------------ processes

PROGRAM = """
import json, os, sys
from earthkit.regrid import cache, config
from earthkit.regrid.utils.caching import cache_file
config.autosave = False
changes, end = json.loads(sys.argv[1])
def create(path, args):
    with open(path, "w") as f:
        f.write("content")
res = []
for c in [{}] + changes:
    if c:
        config.set(c)
    p1 = cache_file("process", create, ["a"], extension=".dat")
    p2 = cache_file("process", create, ["a"], extension=".dat")
    res.append([p1, p2, os.path.exists(p1), cache.directory(), cache.policy.name])
print("RESULT " + json.dumps(res), flush=True)
if end == "error":
    raise RuntimeError("end")
if end == "exit":
    sys.exit(3)
"""


def program(env, changes, end):
    import json

    e = dict(os.environ)
    e.update(env)
    p = subprocess.run(
        [sys.executable, "-W", "ignore", "-c", PROGRAM, json.dumps([changes, end])],
        env=e,
        cwd=SCRATCH,
        capture_output=True,
        text=True,
        timeout=120,
    )
    lines = [x for x in p.stdout.split("\n") if x.startswith("RESULT ")]
    return json.loads(lines[0][7:]) if lines else p.stderr[-2000:]


def processes():
    rng = C.rng("processes")
    n = pick(5, 60)
    pre = "EARTHKIT_REGRID_"
    for i in range(n):
        top = fresh_dir("p")
        u1, u2, r1, r2 = (os.path.join(top, x) for x in ("u1", "u2", "r1", "r2"))
        env = {}
        conf = {POLICY: "user", USER: u1, TMPC: None, TMPD: None}
        with open(os.path.join(top, "config.yaml"), "w") as f:
            f.write(f"{USER}: {u1}\n")
            if rng.random() < 0.5:
                conf[POLICY] = rng.choice(["user", "temporary", "off"])
                f.write(f"{POLICY}: '{conf[POLICY]}'\n")
        env[pre + "CONFIG_FILE"] = os.path.join(top, "config.yaml")
        fixed = {}
        if rng.random() < 0.6 or i == 0:
            fixed[POLICY] = rng.choice(["user", "temporary", "off"])
        if rng.random() < 0.4:
            fixed[USER] = u2
        if rng.random() < 0.4:
            fixed[TMPC] = r1
        if rng.random() < 0.4:
            fixed[TMPD] = r2
        for k, v in fixed.items():
            env[pre + k.upper().replace("-", "_")] = v
        changes = [{POLICY: rng.choice(["user", "temporary", "off"])} for _ in range(rng.randint(0, 2))]
        if rng.random() < 0.5:
            changes.append({USER: u2})
        end = rng.choice(["normal", "error", "exit"])
        res = program(env, changes, end)
        case = dict(environment=env, changes=changes, end=end, res=res)
        C.evaluate()
        if isinstance(res, str):
            C.violation("process-fails", "a process fails: " + res.strip().split("\n")[-1], **case)
            continue
        seen = {}
        for c, (p1, p2, there, d, name) in zip([{}] + changes, res):
            conf.update(c)
            now = {**conf, **fixed}
            policy = now[POLICY]
            C.check(name == policy, "process-policy", f"policy {name} instead of {policy}", **case)
            C.check(there and os.path.dirname(p1) == os.path.dirname(p2) == d, "process-directory", "not created there", **case)
            C.check((p1 == p2) is (policy != "off"), "process-kept", "kept with the policy off, or not kept otherwise", **case)
            if policy == "user":
                C.check(d == now[USER], "process-user", f"{d} instead of {now[USER]}", **case)
                C.check(os.path.exists(p1), "process-user-files", "a file of a user directory is gone", **case)
            else:
                want = now[TMPC if policy == "temporary" else TMPD] or os.environ["TMPDIR"]
                C.check(os.path.dirname(d) == want, f"process-{policy}", f"{d} is not in {want}", **case)
                C.check(not os.path.exists(d), "process-left", "a temporary directory remains after the end of the process", **case)
            seen[d] = policy
        C.count("processes")
        C.nontrivial(("process", tuple(sorted(fixed)), tuple(seen.values()), end))
        left = [n for n in os.listdir(os.environ["TMPDIR"]) if is_entry(n) and n.startswith("tmp")]
        for n in left:
            C.count("left_in_tmp")


def busy():
    """The directory changes while the cache still has work to do in the previous one, on a slow file system"""
    rng = C.rng("busy")
    top = fresh_dir("busy")
    rmdir, unlink = os.rmdir, os.unlink

    def slow(f, t):
        def g(*args, **kwargs):
            if threading.current_thread() is threading.main_thread():
                time.sleep(t)
            return f(*args, **kwargs)

        return g

    def create(target, args):
        with open(target, "wb") as f:
            f.write(b"x" * 100)

    n = 0
    budget = C.elapsed() + pick(3, 40)
    while n < pick(60, 1500) and (C.elapsed() < budget or n < 10):
        n += 1
        limit = rng.choice([{USAGE: "1%"}, {USAGE: "1%"}, {SIZE: 100}])
        root = os.path.join(top, rng.choice("ab"))
        other = rng.choice(
            [{POLICY: "user", USER: os.path.join(top, "user")}, {POLICY: "off"}, {TMPC: os.path.join(top, "c")}, {POLICY: "temporary", TMPC: os.path.join(top, "c")}]
        )
        config.set({POLICY: "temporary", TMPC: root, SIZE: None, USAGE: None})
        d = cache.directory()
        requests = rng.randint(1, 12)
        for i in range(requests):
            cache_file("c18", create, i, extension=".npz")
        scoped = rng.random() < 0.3
        os.rmdir, os.unlink = slow(rmdir, rng.choice([0, 0.003])), slow(unlink, rng.choice([0, 0.0005]))
        try:
            config.set(limit)
            for _ in range(rng.randint(1, 4)):
                cache_file("c18", create, rng.randrange(20), extension=".npz")
                cache.check_size()
            if scoped:
                with config.temporary(other):
                    gc.collect()
                    left = os.path.exists(d) and os.listdir(d)
            else:
                config.set(other)
                gc.collect()
                left = os.path.exists(d) and os.listdir(d)
        finally:
            os.rmdir, os.unlink = rmdir, unlink
        C.evaluate()
        C.count("busy_changes")
        C.nontrivial(("busy", tuple(other), tuple(limit), requests, scoped))
        if not C.check(left is False, "temporary-left", f"a temporary directory remains after a change while the cache was busy: {left}", limit=limit, other=other):
            break
    config.set({POLICY: "user", USER: os.path.join(SCRATCH, "idle"), SIZE: None, USAGE: None})


def coarse_clock():
    """Without a cache every request has a file of its own, also when the clock does not advance in between"""
    import datetime
    import types

    from earthkit.regrid.utils import caching

    class Clock(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return datetime.datetime(2026, 1, 1, tzinfo=tz)

    clock = types.SimpleNamespace(**{**vars(datetime), "datetime": Clock})
    config.set({POLICY: "off", TMPD: fresh_dir("clock")})
    made = []

    def create(target, args):
        made.append(args)
        with open(target, "w") as f:
            f.write(str(args))

    real = getattr(caching, "datetime", None)
    paths = {}
    for i in range(pick(30, 60)):
        args = [len(paths)] if i % 2 else ["same"]
        try:
            if real is datetime:
                caching.datetime = clock
            p = cache_file("c18", create, args, extension=".npz")
        finally:
            if real is datetime:
                caching.datetime = real
        C.evaluate()
        C.count("coarse_clock")
        C.check(p not in paths and len(made) == i + 1, "off-shared", "two requests got the same file with the policy off")
        with open(p) as f:
            C.check(f.read() == str(args), "off-wrong-file", "a request got the file of another one")
        paths[p] = args
    config.set({POLICY: "user", USER: os.path.join(SCRATCH, "idle")})


def together():
    """Processes that start at the same time in a place that does not exist yet"""
    rng = C.rng("together")
    mkdir = os.mkdir

    def slow(*args, **kwargs):
        time.sleep(0.02)
        return mkdir(*args, **kwargs)

    def create(target, args):
        with open(target, "wb") as f:
            f.write(b"x" * 100)

    for i in range(pick(6, 60)):
        policy, name = [("temporary", TMPC), ("off", TMPD), ("user", USER)][i % 3]
        place = os.path.join(fresh_dir("together"), *["a", "b", "c"][: rng.randint(1, 3)])
        config.set({POLICY: "user", USER: os.path.join(SCRATCH, "idle"), SIZE: None, USAGE: None})
        children = []
        for n in range(rng.choice([2, 4])):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.mkdir = slow
                    config.set({name: place, POLICY: policy})
                    p = cache_file("c18", create, n, extension=".npz")
                    res = [cache.directory(), p, os.path.exists(p), None]
                except BaseException as e:
                    res = [None, None, False, repr(e)]
                os.write(w, json.dumps(res).encode())
                os._exit(0)
            os.close(w)
            children.append((pid, r))
        got = []
        for pid, r in children:
            with os.fdopen(r, "rb") as f:
                got.append(json.loads(f.read() or "[null, null, false, \"died\"]"))
            os.waitpid(pid, 0)
        C.evaluate()
        C.count("together_" + policy)
        C.nontrivial(("together", policy, len(got), os.path.basename(place)))
        errors = [g[3] for g in got if g[3]]
        if not C.check(not errors, "place-not-created", f"{policy}: a process that starts at the same time fails: {errors}", place=place):
            continue
        C.check(all(g[2] and os.path.dirname(g[1]) == g[0] for g in got), "process-directory", "not created there", got=got)
        if policy == "user":
            C.check({g[0] for g in got} == {place}, "user-directory", "another directory", got=got)
        else:
            ok = len({g[0] for g in got}) == len(got) and {os.path.dirname(g[0]) for g in got} == {place}
            C.check(ok, f"{policy}-directory", "not a directory of its own in the place", got=got)


C.require(coarse_clock=20, together_user=2, together_temporary=2, together_off=2)
C.require(busy_changes=10)
C.require(histories=6, observed_user=30, observed_temporary=30, observed_off=30, requests_user=10, requests_temporary=10)
C.require(relative=8, requests_off=10, temporaries=20, rejected=10, processes=4)
C.require(unused_user=1, unused_temporary=1, unused_off=1)
main(C, histories, unused, relatives, processes, busy, together, coarse_clock)
