"""Executable model of the configuration, and random histories over it that are compared with it."""

import os
import pathlib
import warnings

import numpy as np
import yaml
from harness import fresh_dir

import earthkit.regrid
from earthkit.regrid import cache
from earthkit.regrid import config

PREFIX = "EARTHKIT_REGRID_"
USER = "user-cache-directory"
TMPC = "temporary-cache-directory-root"
TMPD = "temporary-directory-root"
DISK = "cache-policy"
SIZE = "maximum-cache-size"
USAGE = "maximum-cache-disk-usage"
TIMEOUT = "url-download-timeout"
CHECK = "check-out-of-date-urls"
DOWNLOAD = "download-out-of-date-urls"
MEMSIZE = "maximum-weights-memory-cache-size"
MEMORY = "weights-memory-cache-policy"
STRICT = "weights-memory-cache-strict-mode"
REJECTED = 13  # a timeout that our observer does not accept

DEFAULTS = {
    USER: os.path.join(os.path.expanduser("~"), ".cache", "earthkit-regrid"),
    TMPC: None,
    TMPD: None,
    DISK: "user",
    SIZE: 5 * 1024**3,
    USAGE: None,
    TIMEOUT: 30,
    CHECK: False,
    DOWNLOAD: False,
    MEMSIZE: 500 * 1024**2,
    MEMORY: "largest",
    STRICT: False,
}
NAMES = sorted(DEFAULTS)
BYTES = (SIZE, MEMSIZE)
BOOLS = (CHECK, DOWNLOAD, STRICT)
POLICIES = {DISK: ["user", "temporary", "off"], MEMORY: ["off", "unlimited", "largest", "lru"]}
UNKNOWN = ["no-such-option", "version", "cache", "url_download_timeout", "URL-DOWNLOAD-TIMEOUT", "", "maximum-cache-siz"]


def env_name(name):
    return PREFIX + name.upper().replace("-", "_")


def with_unit(rng, units):
    n = rng.choice([0, 1, 2, 7, 64, 300, 1023])
    u, f = rng.choice(units)
    text = rng.choice(["", "", " "]) + rng.choice(["", "0"]) + str(n) + rng.choice(["", "", " ", "  "]) + u + rng.choice(["", "", " "])
    return text, n * f


UNITS = {
    "bytes": [("", 1)]
    + [(u + s, 1024 ** (i + 1)) for i, k in enumerate("KMGTP") for u in (k, k.lower()) for s in ("", "B", "b", "iB")],
    "seconds": [("", 1)]
    + [(u, f) for f, us in ((1, ("s", "sec", "seconds")), (60, ("m", "min", "minutes")), (3600, ("h", "hours"))) for u in us]
    + [(u, f) for f, us in ((86400, ("d", "days")), (604800, ("w", "week"))) for u in us],
    "percent": [("", 1), ("%", 1)],
}


def unit_of(name):
    return {SIZE: "bytes", MEMSIZE: "bytes", TIMEOUT: "seconds", USAGE: "percent"}.get(name)


def valid(rng, name, places, text=False):
    """(value to set, value to get); a text as in an environment variable when asked"""
    unit = unit_of(name)
    if unit:
        if not text and name != TIMEOUT and rng.random() < 0.2:
            return None, None
        t, v = with_unit(rng, UNITS[unit])
        while v == REJECTED:
            t, v = with_unit(rng, UNITS[unit])
        if not text and rng.random() < 0.4:
            return rng.choice([v, v, np.int64(v), str(v), f" {v} "]), v
        return t, v
    if name in BOOLS:
        v = rng.random() < 0.5
        t = rng.choice(["true", "True", "TRUE", "yes", "on", "1", " true "] if v else ["false", "False", "no", "off", "0", "FALSE"])
        if not text and rng.random() < 0.6:
            return rng.choice([v, v, int(v), np.bool_(v)]), v
        return t, v
    if name in POLICIES:
        v = rng.choice(POLICIES[name])
        return (v if text or rng.random() < 0.8 else np.str_(v)), v
    if name != USER and not text and rng.random() < 0.3:
        return None, None
    v = rng.choice(places)
    return (v if text or rng.random() < 0.7 else pathlib.Path(v)), v


def invalid(rng, name):
    """A value that the option cannot have, or None when every text is one"""
    unit = unit_of(name)
    if unit:
        bad = ["abc", "-1", "", "%", "1x", "G1", "-2%", "1 2", [], {"a": 1}, "None"]
        bad += {"bytes": ["5%", "1s", "1h"], "seconds": ["1M", "1k", "5%", "2H", None], "percent": ["2k", "5G", "1d"]}[unit]
        return rng.choice(bad)
    if name in BOOLS:
        return rng.choice(["maybe", "2", "truee", "None", "y es"])
    if name in POLICIES:
        return rng.choice(["none", "", "User", "LRU", "on", 5, None, "user,off", ["user"]])
    return None


class Level:
    """A configuration: the values set, and the file where they are saved (None: nowhere)"""

    def __init__(self, values, file=None, saved=None):
        self.values = dict(values)
        self.file = file
        self.saved = saved  # the values in the file, None: no file


def bad_for_memory(v):
    return v[MEMORY] in ("largest", "lru") and (v[MEMSIZE] is None or v[MEMSIZE] <= 0)


def accepted(values):
    """Whether the observers accept these values"""
    return not bad_for_memory(values) and values[TIMEOUT] != REJECTED


class Rejected(Exception):
    pass


class Error(Exception):
    pass


class Observers:
    """Registered once: record what is in force at each notification, and reject some values"""

    def __init__(self):
        self.first = []
        self.last = []
        self.new = []
        config.on_change(self.before)
        config.on_change(self.reject)
        config.on_change(self.after)

    @staticmethod
    def read():
        r = {}
        for k in NAMES:
            try:
                r[k] = config.get(k)
            except ValueError:  # an invalid environment variable
                r[k] = Exception
        return r

    def before(self):
        self.first.append(self.read())

    def reject(self):
        if config.get(TIMEOUT) == REJECTED:
            raise Rejected("not this timeout")

    def after(self):
        self.last.append(self.read())

    def take(self):
        r = self.first, self.last
        self.first, self.last = [], []
        return r


class History:
    def __init__(self, C, rng, observers, main_file, max_depth):
        self.C = C
        self.rng = rng
        self.obs = observers
        self.trace = []
        self.max_depth = max_depth
        d = fresh_dir("conf")
        self.dir = d
        self.places = [os.path.join(d, x) for x in ("a", "b", "c/d", "e f", "été", "x:y", "#z")]
        self.main_file = main_file
        self.environ = {}
        self.n_files = 0
        for k in list(os.environ):
            if k.startswith(PREFIX) and k != PREFIX + "CONFIG_FILE":
                del os.environ[k]
        config.autosave = True
        config.reset()
        self.stack = [Level(DEFAULTS, main_file, dict(DEFAULTS))]
        self.autosave = True
        self.applied = self.effective()
        self.obs.take()

    def case(self, **more):
        return dict(history=self.trace[-20:], environment={k: v[0] for k, v in self.environ.items()}, **more)

    @property
    def top(self):
        return self.stack[-1]

    def effective(self, values=None, environ=None):
        r = dict(self.top.values if values is None else values)
        for k, v in (self.environ if environ is None else environ).items():
            r[k] = v[1]
        return r

    # ---- what must be seen after each operation
    def observe(self, what):
        C = self.C
        C.evaluate()
        want = self.effective()
        for k in NAMES:
            env = self.environ.get(k)
            try:
                got = config.get(k)
            except Exception as e:
                if env and env[1] is Exception:
                    C.count("invalid_environment")
                    continue
                C.violation(f"get-fails {what}", f"get({k!r}) fails: {e!r}", **self.case())
                continue
            if env and env[1] is Exception:
                C.violation("environment-accepted", f"get({k!r}) gives {got!r} for an invalid variable", **self.case())
                continue
            if not (got == want[k] and type(got) is type(want[k])):
                C.violation(f"value {what}", f"{k} is {got!r} instead of {want[k]!r}", **self.case())
            C.count("reads")
            if env:
                C.count("reads_environment")
        env = config.env()
        got = {k: tuple(v) for k, v in env.items()}
        C.check(got == {k: (env_name(k), v[0]) for k, v in self.environ.items()}, "env()", f"env() is {env}", **self.case())
        for name in UNKNOWN[:3]:
            try:
                v = config.get(name)
                C.violation("unknown-get", f"get({name!r}) gives {v!r}", **self.case())
            except KeyError:
                pass
        self.files(what)
        self.components(what)

    def files(self, what):
        C = self.C
        for level in self.stack:
            if level.file is None:
                continue
            if level.saved is None:
                C.check(not os.path.exists(level.file), f"file-written {what}", "a file was written", **self.case())
                continue
            try:
                with open(level.file) as f:
                    content = yaml.load(f, Loader=yaml.SafeLoader)
            except Exception as e:
                C.violation(f"file-damaged {what}", repr(e), **self.case())
                continue
            content = content if isinstance(content, dict) else {}
            for k in NAMES:
                got = interpret(k, content[k]) if k in content else DEFAULTS[k]
                if got != level.saved[k]:
                    C.violation(
                        f"file {what}", f"{k} is {got!r} in the file instead of {level.saved[k]!r}", **self.case(content=content)
                    )
            C.count("files")

    def components(self, what):
        """The caches work with what was in force at the last change"""
        C = self.C
        if self.applied is None:
            return
        info = earthkit.regrid.memory_cache_info()
        v = self.applied
        C.check(info.policy == v[MEMORY], f"memory-cache {what}", f"{info.policy} instead of {v[MEMORY]}", **self.case())
        size = {"off": 0, "unlimited": None}.get(v[MEMORY], v[MEMSIZE])
        C.check(info.maxsize == size, f"memory-cache {what}", f"{info.maxsize} instead of {size}", **self.case())
        p = cache.policy
        C.check(p.name == v[DISK], f"disk-cache {what}", f"{p.name} instead of {v[DISK]}", **self.case())
        d = cache.directory()
        if v[DISK] == "user":
            C.check(d == os.path.expanduser(v[USER]), f"disk-cache {what}", f"{d} instead of {v[USER]}", **self.case())
        else:
            root = v[TMPC if v[DISK] == "temporary" else TMPD]
            root = os.environ["TMPDIR"] if root is None else os.path.expanduser(root)
            C.check(os.path.dirname(d) == root, f"disk-cache {what}", f"{d} is not in {root}", **self.case())
        C.count("components")

    def notified(self, what, before, ok):
        """before: what was in force before; ok: whether the change was to be accepted"""
        C = self.C
        first, last = self.obs.take()
        after = self.effective()
        if ok:
            for seen in (first, last):
                if not seen:
                    if before != after:
                        C.violation(f"not-notified {what}", "an observer was not told of a change", **self.case())
                else:
                    diff = {k: (seen[-1][k], after[k]) for k in NAMES if seen[-1][k] != after[k]}
                    C.check(not diff, f"observer {what}", f"the last that an observer saw is {diff}", **self.case())
            C.count("notified", len(last))
            if before != after:
                C.count("effective_changes")
            self.applied = after
        else:
            for seen in (first, last):
                if seen:
                    diff = {k: (seen[-1][k], before[k]) for k in NAMES if seen[-1][k] != before[k]}
                    C.check(not diff, f"observer-rejected {what}", f"the last that an observer saw is {diff}", **self.case())
            # observers that saw another value were told again
            C.count("rejections_seen_by_observers", len(first) > 0)
            if before != self.applied:
                self.applied = None  # an environment variable changed: what the caches know is open

    def unseen(self, what):
        first, last = self.obs.take()
        self.C.check(not first and not last, f"observer-told {what}", "observers were told of an invalid change", **self.case())

    # ---- operations
    def pairs(self, names):
        raw, values = {}, {}
        for k in names:
            raw[k], values[k] = valid(self.rng, k, self.places)
        return raw, values

    def names(self):
        r = self.rng
        n = r.choice([1, 1, 1, 2, 3, 5])
        return r.sample(NAMES, n)

    def call(self, func, raw, **more):
        """set() or temporary() in one of their forms"""
        r = self.rng
        x = r.random()
        if len(raw) == 1 and x < 0.5:
            ((k, v),) = raw.items()
            return func(k, v, **more)
        if x < 0.75 and all(k and k.replace("-", "_").isidentifier() and "_" not in k for k in raw):
            return func(**{k.replace("-", "_"): v for k, v in raw.items()}, **more)
        return func(dict(raw), **more)

    def changed(self, new):
        """After an accepted change of the configuration on the top"""
        self.top.values.update(new)
        if self.autosave and self.top.file is not None:
            self.top.saved = dict(self.top.values)

    def attempt(self, raw, values, form):
        """A change that observers may reject"""
        before = self.effective()
        new = dict(self.top.values)
        new.update(values)
        ok = accepted(self.effective(new))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                form()
                done = True
            except Exception as e:
                done = repr(e)
        told = [x for x in w if issubclass(x.category, UserWarning)]
        what = self.trace[-1][0]
        if ok:
            if done is not True:
                self.C.violation(f"valid-rejected {what}", f"a valid change is rejected: {done}", **self.case())
                return False
            for k in raw:
                if k in self.environ:
                    text = " ".join(str(x.message) for x in told)
                    self.C.check(env_name(k) in text, f"no-warning {what}", f"no warning about the variable of {k}", **self.case())
                    self.C.count("warnings")
            self.changed(values)
        else:
            if done is True:
                self.C.violation(f"not-rejected {what}", "a change that an observer rejects is accepted", **self.case())
                return False
            self.C.count("rejected_by_observer")
        self.notified(what, before, ok)
        return True

    def op_set(self):
        raw, values = self.pairs(self.names())
        if self.rng.random() < 0.1:
            raw[TIMEOUT] = values[TIMEOUT] = REJECTED
        self.trace.append(["set", raw])
        return self.attempt(raw, values, lambda: self.call(config.set, raw))

    def op_again(self):
        """Sets what is already in force"""
        k = self.rng.choice(NAMES)
        raw = {k: self.top.values[k]}
        self.trace.append(["set again", raw])
        return self.attempt(raw, raw, lambda: self.call(config.set, raw))

    def op_reset(self):
        x = self.rng.random()
        if x < 0.3:
            self.trace.append(["reset all"])
            return self.attempt({}, DEFAULTS, config.reset)
        k = self.rng.choice(NAMES)
        self.trace.append(["reset", k])
        return self.attempt({k: 1}, {k: DEFAULTS[k]}, lambda: config.reset(k))

    def bad_change(self):
        """A dict with an unknown option or an invalid value, at any position"""
        r = self.rng
        raw, _ = self.pairs(self.names())
        if r.random() < 0.4:
            raw[r.choice(UNKNOWN)] = r.choice([1, "1", None])
        else:
            k = r.choice([k for k in NAMES if k not in (USER, TMPC, TMPD)])
            raw[k] = invalid(r, k)
        items = list(raw.items())
        r.shuffle(items)
        return dict(items)

    def op_invalid(self):
        r = self.rng
        x = r.random()
        before = self.effective()
        bad = None
        if x < 0.7:
            bad = self.bad_change()
            self.trace.append(["invalid", bad])
            f = lambda: self.call(config.set, bad)  # noqa: E731
        elif x < 0.8:
            k = r.choice(UNKNOWN)
            self.trace.append(["invalid", "reset", k])
            f = lambda: config.reset(k)  # noqa: E731
        else:
            bad = self.bad_change()
            self.trace.append(["invalid", "temporary", bad])

            def f():
                with self.call(config.temporary, bad):
                    pass

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                f()
                self.C.violation("invalid-accepted", "an unknown option or an invalid value is accepted", **self.case())
                return False
            except Exception:
                self.C.count("invalid")
        assert before == self.effective()
        self.unseen("invalid")
        return True

    def op_environment(self):
        r = self.rng
        env = dict(self.environ)
        if env and r.random() < 0.45:
            k = r.choice(sorted(env))
            del env[k]
        else:
            k = r.choice(NAMES)
            if k in (CHECK, DOWNLOAD) and r.random() < 0.15:
                env[k] = (invalid(r, k), Exception)
            else:
                env[k] = valid(r, k, self.places, text=True)
        for level in self.stack:
            if not accepted(self.effective(level.values, env)):
                return True
        if k in env:
            os.environ[env_name(k)] = env[k][0]
        else:
            del os.environ[env_name(k)]
        self.environ = env
        self.trace.append(["environment", k, env.get(k, [None])[0]])
        return True

    def op_autosave(self):
        self.autosave = not self.autosave
        config.autosave = self.autosave
        self.C.check(config.autosave == self.autosave, "autosave", "autosave is not as set")
        self.trace.append(["autosave", self.autosave])
        return True

    def op_save_as(self):
        self.n_files += 1
        path = os.path.join(self.dir, f"saved{self.n_files}.yaml")
        self.trace.append(["save_as", os.path.basename(path)])
        config.save_as(path)
        level = Level(self.top.values, path, dict(self.top.values))
        keep = self.stack
        self.stack = [level]
        self.files("save_as")
        self.stack = keep
        return True

    def op_temporary(self):
        r = self.rng
        if len(self.stack) > self.max_depth:
            return True
        more = {}
        file = None
        if r.random() < 0.25:
            self.n_files += 1
            file = more["config_yaml"] = os.path.join(self.dir, f"tmp{self.n_files}.yaml")
        raw, values = self.pairs(self.names()) if r.random() < 0.75 else ({}, {})
        if r.random() < 0.06:
            raw[TIMEOUT] = values[TIMEOUT] = REJECTED
        end = r.choice(["normal", "normal", "error", "invalid", "interrupt"])
        n = r.randint(0, 5)
        self.trace.append(["temporary", raw, bool(file)])
        before = self.effective()
        new = dict(self.top.values)
        new.update(values)
        ok = accepted(self.effective(new))
        depth = len(self.stack)
        entered = False
        fine = True
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                t = self.call(config.temporary, raw, **more) if raw else config.temporary(**more)
                if self.obs.first or self.obs.last:
                    self.C.violation("told-early", "observers are told of a temporary configuration before it is in force", **self.case())
            with t:
                entered = True
                self.stack.append(Level(new, file, dict(new) if file and raw and self.autosave else None))
                if not ok:
                    self.C.violation("not-rejected temporary", "values that an observer rejects are in force", **self.case())
                    fine = False
                else:
                    self.notified("temporary", before, True)
                    self.observe("temporary")
                    fine = self.steps(n)
                inside = self.effective()
                if fine and end == "error":
                    raise Error()
                if fine and end == "invalid":
                    config.set(TIMEOUT, "A")
                if fine and end == "interrupt":
                    raise KeyboardInterrupt()
            outcome = "normal"
        except (Exception, KeyboardInterrupt) as e:
            outcome = type(e).__name__ if isinstance(e, (Error, ValueError, KeyboardInterrupt)) else repr(e)[:200]
        if not fine:
            return False
        del self.stack[depth:]
        if not entered:
            if ok:
                self.C.violation("valid-rejected temporary", f"a valid change is rejected: {outcome}", **self.case())
                return False
            self.notified("temporary", before, False)
            self.C.count("temporary_rejected")
            self.trace.append(["not entered"])
            return True
        want = {"normal": "normal", "error": "Error", "invalid": "ValueError", "interrupt": "KeyboardInterrupt"}[end]
        if outcome != want:
            self.C.violation("end temporary", f"a temporary configuration ends with {outcome} instead of {want}", **self.case())
            return False
        self.trace.append(["end of temporary", end, "depth", depth])
        self.notified("end temporary", inside, True)
        self.C.count("temporaries")
        self.C.count(f"temporaries_{end}")
        if depth > 1:
            self.C.count("nested")
        return True

    def op_unused(self):
        """A temporary configuration that is not entered"""
        raw, _ = self.pairs(self.names())
        self.trace.append(["unused", raw])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.call(config.temporary, raw)
        self.unseen("unused")
        return True

    def op_observer(self):
        """A new observer, also inside of a temporary configuration"""
        if self.obs.new and len(self.obs.new) >= 6:
            return True
        seen = []
        self.obs.new.append(seen)
        config.on_change(lambda: seen.append(config.get(TIMEOUT)))
        self.trace.append(["on_change"])
        for v in (3, 4):
            raw = {TIMEOUT: v}
            self.trace.append(["set", raw])
            if not self.attempt(raw, raw, lambda: self.call(config.set, raw)):
                return False
            want = self.effective()[TIMEOUT]
            self.C.check(seen and seen[-1] == want, "new-observer", f"a new observer saw {seen} instead of {want}", **self.case())
            self.C.count("new_observers")
            seen.clear()
        return True

    OPS = {}

    def steps(self, n):
        names = list(self.OPS)
        for _ in range(n):
            op = self.rng.choices(names, [self.OPS[k] for k in names])[0]
            m = len(self.trace)
            if not getattr(self, "op_" + op)():
                return False
            if len(self.trace) > m:
                self.observe(self.trace[-1][0])
            if self.C.violated:
                return False
        return True

    def run(self, n):
        """Whether the end was reached"""
        self.observe("start")
        ok = self.steps(n)
        self.C.nontrivial(repr([[t[0]] + ([sorted(t[1])] if len(t) > 1 and isinstance(t[1], dict) else []) for t in self.trace]))
        for k in self.environ:
            os.environ.pop(env_name(k), None)
        return ok


def interpret(name, raw):
    """The value of what is in a configuration file"""
    if raw is None:
        return None
    unit = unit_of(name)
    if unit:
        text = str(raw).strip()
        digits = text.rstrip("%" + "".join(chr(c) for c in range(65, 123))).strip()
        u = text[len(digits) :].strip()
        return int(digits) * dict(UNITS[unit])[u]
    if name in BOOLS:
        return raw.strip().lower() in ("true", "yes", "on", "1") if isinstance(raw, str) else bool(raw)
    return str(raw)
