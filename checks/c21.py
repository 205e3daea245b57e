"""C21: the configuration file is loaded back, and never left damaged."""

import builtins
import io
import os
import pathlib
import random
import resource
import shutil
import signal
import sys
import threading
import time
import warnings
from itertools import zip_longest

import confmodel
import numpy  # noqa: F401
import yaml
from confmodel import DEFAULTS
from confmodel import NAMES
from confmodel import POLICIES
from confmodel import accepted
from confmodel import interpret
from confmodel import valid
from harness import SCRATCH
from harness import Check
from harness import fresh_dir
from harness import main
from harness import pick
from procs import Child
from procs import wait

C = Check(
    "C21",
    "fault_enumeration",
    "Sequences of processes that import the package anew with one configuration file: each reports all options, changes some with "
    "automatic saving on and off or saves them explicitly, and ends normally or is killed; in between the file is written by hand, "
    "damaged, emptied or removed. Processes are killed at each source line executed while saving (with normal and with line-buffered "
    "output) and at random times, and each file operation of a save fails; several processes save and load at the same time. "
    "Non-trivial: distinct fault points and sequences.",
    ["a power failure is not simulated", "memory cache settings that the cache refuses are not written by hand"],
)

EXECUTED = os.path.join(SCRATCH, "executed")
PRE = "EARTHKIT_REGRID_"


def new_import(env):
    """The package as in a new process"""
    warnings.simplefilter("ignore")
    for k in list(os.environ):
        if k.startswith(PRE):
            del os.environ[k]
    os.environ.update(env)
    for m in list(sys.modules):
        if m == "earthkit.regrid" or m.startswith("earthkit.regrid."):
            del sys.modules[m]
    import earthkit.regrid

    assert os.path.realpath(earthkit.regrid.__file__).startswith(os.path.realpath(os.environ["VERIF_REPO"]) + os.sep)
    from earthkit.regrid import config

    return config


def values_of(config):
    res = {}
    for k in NAMES:
        v = config.get(k)
        res[k] = v if v is None or type(v) in (bool, int, str) else repr(v)
    return res


def session(env, ops, end="normal"):
    """A process: reports the options at the start and after each operation"""
    mask = os.umask(0o022)
    os.umask(mask)
    config = new_import(env)
    after = os.umask(mask)
    if after != mask:
        raise AssertionError(f"the umask of the process was {mask:o}, loading the configuration leaves {after:o}")
    res = [values_of(config)]
    for op, *args in ops:
        if op == "set":
            config.set(args[0])
        elif op == "reset":
            config.reset(*args)
        elif op == "autosave":
            config.autosave = args[0]
        elif op == "save_as":
            config.save_as(*args)
        elif op == "chdir":
            os.chdir(args[0])
        elif op == "temporary":
            with config.temporary(args[0]):
                config.set(args[1])
        res.append(values_of(config))
    if end == "killed":
        with open(os.environ["REPORT"], "w") as f:
            import json

            json.dump(res, f)
        os.kill(os.getpid(), signal.SIGKILL)
    return res


def load(path, home=None):
    env = {PRE + "CONFIG_FILE": path}
    c = Child(session, env, [])
    wait([c], 60)
    return c


def hand_written(rng, values, chosen):
    """The text of a configuration file as a user could write it"""
    lines = ["# my configuration", ""]
    for k in chosen:
        v = values[k]
        if k not in POLICIES and k not in confmodel.BOOLS and type(v) is str and rng.random() < 0.5:
            q = rng.choice(["'", '"'])
            lines.append(f"{k}: {q}{v}{q}")
        elif k in POLICIES:
            q = rng.choice(["'", '"'])
            lines.append(f"{k}:  {q}{v}{q}  # comment")
        elif v is None:
            lines.append(f"{k}: {rng.choice(['null', '~', ''])}")
        elif type(v) is bool:
            lines.append(f"{k}: {rng.choice(['true', 'yes', 'on'] if v else ['false', 'no', 'off'])}")
        elif type(v) is int:
            lines.append(f"{k}: {v}")
        else:
            lines.append(yaml.dump({k: v}, allow_unicode=rng.random() < 0.5).strip())
        if rng.random() < 0.3:
            lines.append("")
    if rng.random() < 0.3:
        lines.append("an-option-of-another-version: 12")
    x = rng.random()
    if x < 0.3:
        lines.append("version: 0.0.1")
    elif x < 0.4:
        lines.append("version: 1.5")
    elif x < 0.6:
        lines.append("version: 99.0.0")
    return "\n".join(lines) + "\n"


def damaged(rng):
    return rng.choice(
        [
            b"",
            b"\n\n",
            b"# only a comment\n",
            b"just text",
            b"- a\n- b\n",
            b"12",
            b"\x00\x01\xff\xfe\x80",
            b"a: [1, 2\nb: }",
            f"!!python/object/apply:os.system ['touch {EXECUTED}']\n".encode(),
            b"\t- x: 'y",
            b"\xff\xfe" + "maximum-cache-size: 1".encode("utf-16-le")[:7],
        ]
    )


def some(rng, places):
    """(values to set, values to get) that are accepted"""
    while True:
        raw, values = {}, {}
        for k in rng.sample(NAMES, rng.choice([1, 1, 2, 4, 8])):
            v, values[k] = valid(rng, k, places)
            raw[k] = v if v is None or type(v) in (bool, int, str) else values[k]
        if accepted({**DEFAULTS, **values}):
            return raw, values


# ------------------------------------------------------------------ sequences of processes


def sequence(rng):
    d = fresh_dir("conf")
    long = ["long" + "x" * 200, "/".join(["very" + "y" * 90] * 4)]
    places = [os.path.join(d, "p", x) for x in ("a", "b", "c/d", "e f", "été", "x:y", "#z", *long)]
    path = os.path.join(d, rng.choice(["config.yaml", "deep/er/config.yaml", "c"]))
    home = os.path.join(d, "home")
    os.makedirs(home)
    saved = None  # what is in the file, None: no file
    trace = []
    case = dict(history=trace)
    n = rng.choice([3, 5, 8])
    for i in range(n):
        # the file is changed by hand
        x = rng.random()
        if x < 0.3:
            raw, values = some(rng, places)
            chosen = rng.sample(sorted(values), len(values))
            text = hand_written(rng, raw, chosen)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(text)
            saved = {**DEFAULTS, **values}
            trace.append(["written by hand", text])
            C.count("written_by_hand")
        elif x < 0.45:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            bad = damaged(rng)
            with open(path, "wb") as f:
                f.write(bad)
            saved = dict(DEFAULTS)
            trace.append(["damaged", bad])
            C.count("damaged")
        elif x < 0.55 and os.path.exists(path):
            os.unlink(path)
            saved = None
            trace.append(["removed"])
            C.count("removed")
        # a process
        ops, states = [], []
        now = dict(saved or DEFAULTS)
        on = True
        states.append(dict(now))
        files = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            y = rng.random()
            if y < 0.55:
                raw, values = some(rng, places)
                if not accepted({**now, **values}):
                    continue
                ops.append(["set", raw])
                now.update(values)
                if on:
                    saved = dict(now)
            elif y < 0.65:
                k = rng.choice(NAMES)
                if not accepted({**now, k: DEFAULTS[k]}):
                    continue
                ops.append(["reset", k])
                now[k] = DEFAULTS[k]
                if on:
                    saved = dict(now)
            elif y < 0.7:
                ops.append(["reset"])
                now = dict(DEFAULTS)
                if on:
                    saved = dict(now)
            elif y < 0.8:
                on = not on
                ops.append(["autosave", on])
            elif y < 0.9:
                p = os.path.join(d, f"saved{i}-{len(ops)}.yaml")
                ops.append(["save_as", p])
                files.append((p, dict(now)))
            else:
                raw, values = some(rng, places)
                raw2, values2 = some(rng, places)
                if not accepted({**now, **values}) or not accepted({**now, **values, **values2}):
                    continue
                ops.append(["temporary", raw, raw2])
            states.append(dict(now))
        end = rng.choice(["normal", "normal", "killed"])
        trace.append(["process", ops, end])
        report = os.path.join(d, "report")
        env = {PRE + "CONFIG_FILE": path, "REPORT": report}
        before = read_bytes(path)
        c = Child(session, env, ops, end)
        wait([c], 60)
        if c.hung:
            C.violation("process-hangs", "a process does not end", **case)
            return
        if end == "killed" and c.status == -signal.SIGKILL:
            import json

            with open(report) as f:
                got = json.load(f)
        elif c.error:
            C.violation("process-fails", f"a process fails: {c.error}", trace=c.trace, **case)
            return
        else:
            got = c.result
        C.count("processes")
        C.evaluate()
        for j, (a, b) in enumerate(zip(got, states)):
            diff = {k: [a[k], b[k]] for k in NAMES if a[k] != b[k]}
            if diff:
                key = "loaded" if j == 0 else "in-process"
                C.violation(key, f"{diff} after {ops[j - 1] if j else 'the start'}", **case)
                return
        C.count("states", len(got))
        wrote = any(o[0] in ("set", "reset") for o in ops)
        if wrote and before is not None and not any_saved(ops):
            C.check(read_bytes(path) == before or parsed(path) == parsed_bytes(before), "autosave-off", "the file was written", **case)
            C.count("not_saved")
        for p, want in files:
            c = load(p)
            if c.error or c.result[0] != want:
                diff = c.error or {k: [c.result[0][k], want[k]] for k in NAMES if c.result[0][k] != want[k]}
                C.violation("save_as", f"not what was saved: {diff}", **case)
                return
            C.count("saved_as")
        beside = os.listdir(os.path.dirname(path)) if os.path.exists(os.path.dirname(path)) else []
        left = [x for x in beside if x.startswith(os.path.basename(path)) and x != os.path.basename(path)]
        C.check(not left, "left-beside", f"files are left beside the configuration: {left}", **case)
    C.check(not os.path.exists(EXECUTED), "executed", "code in the file was executed")
    C.nontrivial(repr([[t[0]] + ([o[0] for o in t[1]] if t[0] == "process" else []) for t in trace]))
    C.count("sequences")
    C.sample(trace[:3])
    shutil.rmtree(d)


def any_saved(ops):
    on = True
    for o in ops:
        if o[0] == "autosave":
            on = o[1]
        elif on and o[0] in ("set", "reset"):
            return True
    return False


def read_bytes(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


def parsed_bytes(data):
    try:
        s = yaml.safe_load(data)
    except Exception:
        return None
    if not isinstance(s, dict):
        return None
    return {k: interpret(k, s[k]) if k in s else DEFAULTS[k] for k in NAMES}


def parsed(path):
    data = read_bytes(path)
    return parsed_bytes(data) if data is not None else None


def sequences():
    rng = C.rng("sequences")
    budget = C.elapsed() + pick(5, 250)
    n = 0
    while n < 10 or C.elapsed() < budget:
        sequence(random.Random(rng.random()))
        if C.violated:
            return
        n += 1


# ------------------------------------------------------------------ where the file is


def home_session(home):
    """The default location of the file"""
    os.environ["HOME"] = home
    config = new_import({})
    first = values_of(config)
    config.set("url-download-timeout", 77)
    return first


def in_directory(path, env, ops):
    os.chdir(path)
    return session(env, ops)


def locations():
    rng = C.rng("locations")
    # the default file, from nothing and from the file of old versions
    for old in (False, True):
        home = fresh_dir("home")
        want = dict(DEFAULTS)
        want["user-cache-directory"] = os.path.join(home, ".cache", "earthkit-regrid")
        if old:
            os.makedirs(os.path.join(home, ".earthkit_regrid"))
            with open(os.path.join(home, ".earthkit_regrid", "settings.yaml"), "w") as f:
                f.write("maximum-cache-size: 7GB\ncache-policy: 'off'\nversion: 0.3.0\nmaximum-matrix-memory-cache-size: 12MB\n")
            want["maximum-cache-size"] = 7 * 1024**3
            want["cache-policy"] = "off"
        for turn in range(2):
            c = Child(home_session, home)
            wait([c], 60)
            C.evaluate()
            if c.error or c.result != want:
                C.violation("default-file", f"{c.error or c.result} instead of {want}", old=old, turn=turn)
                break
            want["url-download-timeout"] = 77
        else:
            C.check(
                os.path.exists(os.path.join(home, ".config/earthkit/regrid/config.yaml")),
                "default-file",
                "not in the documented place",
            )
            C.count("default_files")
    # a file that cannot be read or created: the defaults
    d = fresh_dir("bad")
    with open(os.path.join(d, "file"), "w") as f:
        f.write("x")
    os.makedirs(os.path.join(d, "directory"))
    os.symlink(os.path.join(d, "loop"), os.path.join(d, "loop"))
    for p in ("file/config.yaml", "directory", "loop", "loop/config.yaml", "\udcff/x"):
        for ops in ([], [["set", {"url-download-timeout": 5}], ["reset"]]):
            c = Child(session, {PRE + "CONFIG_FILE": os.path.join(d, p)}, ops)
            wait([c], 60)
            C.evaluate()
            if c.error or c.result[0] != DEFAULTS or (ops and c.result[1]["url-download-timeout"] != 5):
                C.violation("unreadable", f"not the defaults with an unreadable file: {c.error or c.result}", path=p, trace=c.trace)
            C.count("unreadable")
    # symbolic link, relative path
    d = fresh_dir("link")
    os.makedirs(os.path.join(d, "real"))
    link = os.path.join(d, "config.yaml")
    os.symlink(os.path.join("real", "c.yaml"), link)
    raw, values = some(rng, [os.path.join(d, "a")])
    for ops, want in (([["set", raw]], DEFAULTS), ([], {**DEFAULTS, **values})):
        c = Child(session, {PRE + "CONFIG_FILE": link}, ops)
        wait([c], 60)
        C.evaluate()
        if c.error or c.result[0] != want:
            C.violation("link", f"not loaded through a link: {c.error or c.result[0]}", trace=c.trace)
        elif ops and parsed(os.path.join(d, "real", "c.yaml")) != {**DEFAULTS, **values}:
            C.violation("link-target", "the file that the link points to does not hold what was saved")
        else:
            C.count("links")
    # relative to the current directory, which changes
    for name in ("config.yaml", "./config.yaml", "a/b/config.yaml", "../config.yaml"):
        d, other = os.path.join(fresh_dir("relative"), "cwd"), fresh_dir("other")
        os.makedirs(d)
        path = os.path.join(d, name)
        (raw, values), (raw2, values2) = some(rng, [os.path.join(d, "x")]), some(rng, [os.path.join(d, "x")])
        env = {PRE + "CONFIG_FILE": name}
        want = DEFAULTS
        for turn, (ops, saved) in enumerate(
            (
                ([], {}),
                ([["set", raw]], values),
                ([["chdir", other], ["set", raw2]], {**values, **values2}),
                ([], {**values, **values2}),
            )
        ):
            c = Child(in_directory, d, env, ops)
            wait([c], 60)
            C.evaluate()
            case = dict(path=name, turn=turn, operations=ops)
            if c.error or c.result[0] != want:
                C.violation("relative", f"not the configuration that was saved: {c.error or c.result[0]}", want=want, trace=c.trace, **case)
                break
            want = {**DEFAULTS, **saved}
            if not os.path.exists(path) or parsed(path) != want:
                C.violation("relative-file", "the file does not hold the configuration", want=want, got=parsed(path), **case)
                break
            if os.listdir(other):
                C.violation("relative-elsewhere", f"written elsewhere: {os.listdir(other)}", **case)
                break
        else:
            C.count("relative_files")
    # explicitly saved over files, and where nothing can be saved
    d = fresh_dir("over")
    target = os.path.join(d, "x.yaml")
    for i in range(pick(4, 40)):
        raw, values = some(rng, [os.path.join(d, "a"), os.path.join(d, "été")])
        if rng.random() < 0.5:
            with open(target, "wb") as f:
                f.write(rng.choice([b"", b"x" * 100000, damaged(rng)]))
        p = os.path.join(d, "config.yaml")
        c = Child(session, {PRE + "CONFIG_FILE": p}, [["autosave", False], ["set", raw], ["save_as", rng.choice([target, pathlib.Path(target)])]])
        wait([c], 60)
        again = load(target)
        C.evaluate()
        if c.error or again.error or again.result[0] != {**DEFAULTS, **values}:
            C.violation("save_as-over", f"not what was saved: {c.error or again.error}", want=values, got=again.result)
        C.count("saved_over")


# ------------------------------------------------------------------ killed and failing saves


class LineTracer:
    """Calls act() at the k-th line executed in the package, between start and stop"""

    def __init__(self, k, act):
        import earthkit.regrid

        self.package = os.path.dirname(os.path.realpath(earthkit.regrid.__file__)) + os.sep
        self.k, self.act = k, act
        self.n = 0
        self.trail = []

    def __call__(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.package) else None

    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            f = frame.f_code
            if self.k < 0:
                self.trail.append([f.co_filename, f.co_name, frame.f_lineno])
            if self.n == self.k:
                self.act([os.path.basename(f.co_filename), f.co_name, frame.f_lineno - f.co_firstlineno])
        return self.line


def line_buffered():
    """Each line that is written reaches the file at once"""
    real = io.open

    def opened(file, mode="r", buffering=-1, *args, **kwargs):
        if "b" not in mode and ("w" in mode or "a" in mode or "x" in mode or "+" in mode):
            buffering = 1
        return real(file, mode, buffering, *args, **kwargs)

    builtins.open = opened
    fdopen = os.fdopen

    def fdopened(fd, mode="r", buffering=-1, *args, **kwargs):
        return fdopen(fd, mode, 1 if "b" not in mode and "r" not in mode else buffering, *args, **kwargs)

    os.fdopen = fdopened


FILE_EVENTS = ("open", "os.rename", "os.remove", "os.link", "os.truncate", "os.chmod", "os.mkdir", "shutil.move")
SAVES = ["set", "save_as", "reset", "first", "version"]


def the_save(kind, path, raw):
    """Prepares the process; returns the function that saves"""
    env = {PRE + "CONFIG_FILE": path}
    if kind in ("first", "version"):
        return lambda: new_import(env)
    config = new_import(env)
    if kind == "set":
        return lambda: config.set(raw)
    if kind == "reset":
        return lambda: config.reset()
    config.autosave = False
    config.set(raw)
    config.autosave = True
    return lambda: config.save_as(path)


def killed(kind, path, raw, k, lines, where):
    f = the_save(kind, path, raw)

    def act(at):
        fd = os.open(where, os.O_WRONLY | os.O_CREAT)
        os.write(fd, repr(at).encode())
        os.kill(os.getpid(), signal.SIGKILL)

    if kind in ("first", "version"):
        import earthkit.regrid  # noqa: F401  where the package is
    t = LineTracer(k, act)
    if lines:
        line_buffered()
    d = os.path.dirname(path)
    window = []

    def hook(event, args):
        if event in FILE_EVENTS and any(isinstance(a, str) and os.path.dirname(a) == d for a in args):
            window.append(t.n)

    if k < 0:
        sys.addaudithook(hook)
    sys.settrace(t)
    f()
    sys.settrace(None)
    return {"trail": t.trail, "window": [min(window), max(window) + 10] if window else None, "events": window}


def failing(kind, path, raw, k, how):
    """The k-th file operation below the directory fails. Returns the number of operations."""
    f = the_save(kind, path, raw)
    d = os.path.dirname(path)
    n = [0, None]

    def hook(event, args):
        if event in FILE_EVENTS:
            if n[0] >= 0 and any(isinstance(a, str) and os.path.dirname(a) == d for a in args):
                n[0] += 1
                if n[0] == k:
                    n[1] = event
                    if how == "killed":
                        os.kill(os.getpid(), signal.SIGKILL)
                    raise OSError(28, "No space left on device")

    if how == "limit":
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    else:
        sys.addaudithook(hook)
    if how == "limit" and k % 2:
        line_buffered()
    error = None
    try:
        f()
    except Exception as e:
        error = repr(e)
    total = n[0]
    n[0] = -1
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.getrlimit(resource.RLIMIT_FSIZE)[1],) * 2)
    from earthkit.regrid import config

    return {"operations": total, "hit": n[1], "error": error, "values": values_of(config)}


def situation(kind, rng):
    """A file and what it holds before and after the save"""
    d = fresh_dir("k")
    path = os.path.join(d, "config.yaml")
    places = [os.path.join(d, "p", "x" * rng.choice([1, 100, 200]) + f"/{i}") for i in range(3)]
    _, old = some(rng, places)
    old = {**DEFAULTS, **old}
    raw, new = {}, None
    while kind in ("set", "save_as") and (not raw or not accepted({**old, **new}) or {**old, **new} == old):
        raw, new = some(rng, places)
    if kind == "first":
        old = dict(DEFAULTS)
    else:
        with open(path, "w") as f:
            yaml.dump({**{k: v for k, v in old.items() if v != DEFAULTS[k]}, "version": "0.0.1" if kind == "version" else "99"}, f)
    new = {"set": {**old, **(new or {})}, "save_as": {**old, **(new or {})}, "reset": dict(DEFAULTS)}.get(kind, old)
    return d, path, raw, old, new


def afterwards(*args):
    all_afterwards([args])


def all_afterwards(cases):
    running = [(g, next(g, None)) for g in [one_afterwards(*c) for c in cases]]
    wait([c for _, c in running if c], 30)
    for g, c in running:
        if c:
            next(g, None)
    for c in cases:
        shutil.rmtree(c[1])


def one_afterwards(prefix, d, path, old, new, case):
    """The file is complete, and the configuration works"""
    C.evaluate()
    data = read_bytes(path)
    if data is None:
        ok = old == DEFAULTS and case["kind"] == "first"
        C.check(ok, f"{prefix}-lost", "the configuration file is gone", **case)
    else:
        got = parsed_bytes(data)
        if got not in (old, new) or (case["kind"] not in ("first",) and data.strip() == b""):
            C.violation(f"{prefix}-damaged", "the configuration file is neither the previous one nor the new one", content=data, **case)
            return
        C.count("file_new" if got == new and old != new else "file_old")
    current = parsed_bytes(data) if data is not None else dict(DEFAULTS)
    more = {"url-download-timeout": 4321}
    c = Child(session, {PRE + "CONFIG_FILE": path}, [["set", more]])
    yield c
    if c.error:
        C.violation(f"{prefix}-next", f"the next process {'hangs' if c.hung else 'fails'}: {c.error}", trace=c.trace, **case)
        return
    C.check(c.result[0] == current, f"{prefix}-next", "the next process does not load the file", got=c.result[0], want=current, **case)
    got = parsed(path)
    C.check(got == {**current, **more}, f"{prefix}-next-save", "the next save does not work", got=got, **case)


def kills():
    rng = C.rng("kills")
    points = {}
    for kind in SAVES:
        d, path, raw, old, new = situation(kind, random.Random(1))
        c = Child(killed, kind, path, raw, -1, False, "")
        wait([c], 60)
        if c.error:
            C.violation("save-fails", f"a save fails: {c.error}", trace=c.trace, kind=kind)
            return
        trail, window = c.result["trail"], c.result["window"] or [0, 0]
        points[kind] = rng.sample(range(1, len(trail) + 1), len(trail))
        C.count(f"lines_of_{kind}", len(trail))
        # the first and the last time that each line is executed come first, those of functions called again after the module level
        front = set()
        for t in (list(enumerate(trail)), list(enumerate(trail))[::-1]):
            first = {}
            for i, at in t:
                if at[1] != "<module>":
                    first.setdefault(tuple(at), i + 1)
            front.update(first.values())
        near = {n + i for n in c.result["events"] for i in range(-2, 6)}
        points[kind].sort(key=lambda k: (k not in near, not (window[0] <= k <= window[1]), k not in front))
        C.count(f"lines_near_files_{kind}", len(near))
        # near the file operations both with and without line buffering
        points[kind] = [(k, b) for k in points[kind] for b in ((False, True) if k in near else (rng.random() < 0.7,))]
    points = [(kind, *k) for ks in zip_longest(*points.values()) for kind, k in zip(points, ks) if k]
    C.count("points", len(points))
    seen = set()
    end = C.elapsed() + pick(9, 250)
    width = 8
    for i in range(0, len(points), width):
        if i > 60 and C.elapsed() > end:
            break
        batch = []
        for kind, k, lines in points[i : i + width]:
            s = situation(kind, random.Random(rng.random()))
            where = os.path.join(fresh_dir("w"), "where")
            batch.append((kind, k, lines, where, s, Child(killed, kind, s[1], s[2], k, lines, where)))
        wait([b[-1] for b in batch], 60)
        found = []
        for kind, k, lines, where, (d, path, raw, old, new), c in batch:
            if c.hung:
                C.violation("kill-hangs", "a save does not end", kind=kind, k=k)
                continue
            if c.status != -signal.SIGKILL:
                C.count("not_reached")
                if c.error:
                    C.violation("save-fails", f"a save fails: {c.error}", trace=c.trace, kind=kind)
                continue
            at = (read_bytes(where) or b"").decode()
            seen.add((kind, at))
            C.nontrivial(("kill", kind, at))
            C.count("killed")
            found.append(("killed", d, path, old, new, dict(kind=kind, k=k, at=at, line_buffered=lines)))
        all_afterwards(found)
        if C.violated:
            return
    C.count("distinct_points", len(seen))


def failures():
    rng = C.rng("failures")
    tasks = []
    for kind in SAVES:
        d, path, raw, old, new = situation(kind, random.Random(2))
        c = Child(failing, kind, path, raw, -1, "error")
        wait([c], 60)
        if c.error or c.result["error"]:
            C.violation("save-fails", f"a save fails: {c.error or c.result['error']}", trace=c.trace, kind=kind)
            return
        n = c.result["operations"]
        tasks += [(kind, k, how) for k in range(1, n + 1) for how in ("error", "killed")]
        tasks += [(kind, k, "limit") for k in [0, 1, 2, 47, 100, 101, 500, 1000, 1001, 2000] + pick([], list(range(3, 6000, 97)))]
    rng.shuffle(tasks)
    end = C.elapsed() + pick(4, 100)
    for i in range(0, len(tasks), 8):
        if i > 60 and C.elapsed() > end:
            break
        batch = []
        for kind, k, how in tasks[i : i + 8]:
            s = situation(kind, random.Random(rng.random()))
            batch.append((kind, k, how, s, Child(failing, kind, s[1], s[2], k, how)))
        wait([b[-1] for b in batch], 60)
        found = []
        for kind, k, how, (d, path, raw, old, new), c in batch:
            case = dict(kind=kind, k=k, how=how)
            if c.hung or (c.error and how != "killed"):
                C.violation(f"{how}-process", f"the process that cannot save fails: {c.error}", trace=c.trace, **case)
                continue
            if how == "killed" and c.status != -signal.SIGKILL:
                C.count("not_reached")
                continue
            if c.result:
                case.update(hit=c.result["hit"])
                # the disk cache may refuse the new options for the same fault
                ok = c.result["values"] == (old if c.result["error"] else new)
                if kind in ("first", "version"):
                    # it may be the reading that fails
                    ok = c.result["values"] in (old, DEFAULTS)
                C.check(ok, f"{how}-values", "the options of the process are not those set", res=c.result, want=new, **case)
            C.count(f"failed_{how}")
            C.nontrivial(("fail", kind, how, k))
            found.append((f"{how}", d, path, old, new, case))
        all_afterwards(found)
        if C.violated:
            return


# ------------------------------------------------------------------ several processes, random kills


def writer(path, seed, until):
    config = new_import({PRE + "CONFIG_FILE": path})
    rng = random.Random(seed)
    n = 0
    while time.time() < until:
        v = rng.choice(["A", "B", "C"])
        config.set({"user-cache-directory": f"{os.path.dirname(path)}/{v * 200}", "temporary-directory-root": f"/{v}"})
        n += 1
    return n


def reader(path, until):
    n, bad = 0, []
    while time.time() < until and not bad:
        v = parsed(path)
        if v is None:
            bad.append("unreadable: " + repr((read_bytes(path) or b"")[-300:]))
        else:
            a = v["user-cache-directory"][-1]
            if a in "ABC" and v["temporary-directory-root"] != f"/{a}":
                bad.append(repr(v))
        n += 1
    return n, bad


def storms():
    rng = C.rng("storms")
    for i in range(pick(3, 60)):
        d = fresh_dir("storm")
        path = os.path.join(d, "config.yaml")
        c = load(path)
        until = time.time() + 0.7
        writers = [Child(writer, path, rng.random(), until) for _ in range(3)]
        victims = [Child(writer, path, rng.random(), until + 30) for _ in range(2)]
        readers = [Child(reader, path, until) for _ in range(2)]
        for v in victims:
            time.sleep(rng.uniform(0.02, 0.3))
            v.kill()
        wait(writers + readers, 30)
        C.evaluate()
        for w in writers:
            if w.error:
                C.violation("storm-writer", f"a process that saves fails: {w.error}", trace=w.trace)
            else:
                C.count("storm_saves", w.result)
        for r in readers:
            if r.error:
                C.violation("storm-reader", f"a process that reads fails: {r.error}", trace=r.trace)
            else:
                C.count("storm_reads", r.result[0])
                C.check(not r.result[1], "storm-damaged", f"a reader found {r.result[1]}", storm=i)
        C.count("storms")
        v = parsed(path)
        afterwards("storm", d, path, v, v, dict(kind="storm")) if v else C.violation("storm-damaged", "no file at the end")
        if C.violated:
            return


C.require(sequences=8, processes=30, states=50, written_by_hand=5, damaged=3, saved_as=2, killed=50, failed_error=10, failed_limit=8)
C.require(failed_killed=8, storm_saves=60, storm_reads=60, unreadable=8, default_files=2, links=2, relative_files=4, saved_over=3, file_old=20, file_new=1)
main(C, sequences, locations, kills, failures, storms)
