"""C24: loading of inventory indexes, and subsets of inventories."""

import gzip
import hashlib
import importlib.util
import json
import os
import resource
import shutil
import signal
import sys

import numpy as np
import yaml
from harness import REPO
from harness import SCRATCH
from harness import Check
from harness import fresh_dir
from harness import main
from harness import outcome
from harness import pick
from inventory import METHODS
from inventory import apply
from inventory import grid_pool
from inventory import healpix
from inventory import ll
from inventory import octahedral
from inventory import random_inventory
from inventory import same
from inventory import short
from inventory import size_of
from inventory import spelled
from server import Server

from earthkit.regrid import cache
from earthkit.regrid import config
from earthkit.regrid.array import regrid
from earthkit.regrid.backends.db import MatrixDb

config.autosave = False

C = Check(
    "C24",
    "exploration",
    "Random indexes (local and remote) where unsupported entries of many kinds surround the supported ones, in any order, and indexes of "
    "other versions: each entry is asked for. Random selections made through the index, the database and the tool, with every "
    "combination of their options, in directories with and without earlier content; the directories and the results of regridding with them "
    "are compared with the original. The disk gets full while files of an existing inventory are replaced. Non-trivial: distinct regrids and subsets that were compared.",
    ["the entries of an index are for distinct grids and methods", "numpy arithmetic"],
)

POOL = grid_pool()
INTERPOLATION = {"engine": "mir", "version": 16, "method": "linear"}


def unsupported(rng, entries):
    """An entry as a later version or a mistake may add"""
    e = rng.choice(entries)
    raw = e.raw()
    kind = rng.choice(
        ["not a dict", "no grids", "grid none", "unknown name", "unknown shape", "unknown type", "order", "no method", "method", "gridless"]
    )
    side = rng.choice(["input", "output"])
    other = rng.choice(POOL)
    if kind == "not a dict":
        return kind, rng.choice([None, [], {}, "linear", 3, True, [1, 2], ""])
    if kind == "no grids":
        raw.pop(side)
    elif kind == "grid none":
        raw[side] = rng.choice([None, [], "O32", 5, [10, 10], {"grid": None}])
    elif kind == "unknown name":
        raw[side] = {"grid": rng.choice(["X32", "tripolar", "", "icon-d2", "eORCA1_Z", "LL10", "h", "O", "TCo1279", "/"])}
    elif kind == "unknown shape":
        raw[side] = {"grid": rng.choice([[10], [1, 2, 3], [], {"dx": 1}, 10, 2.5, True])}
    elif kind == "unknown type":
        # the rest of it looks like a grid that is supported
        raw[side] = dict(raw[side], type=rng.choice(["rotated_ll", "lambert", "", "regular_gg", 3]))
    elif kind == "order":
        h = rng.choice([x for x in POOL if "order" in x])
        raw[side] = dict(h, order=rng.choice(["zigzag", "", 3, None]))
    elif kind == "no method":
        k = rng.choice([0, 1, 2])
        if k == 0:
            raw.pop("interpolation")
        elif k == 1:
            raw["interpolation"] = rng.choice([None, "linear", [], {}, ["linear"]])
        else:
            raw["interpolation"] = {"engine": "mir", "version": 16}
    elif kind == "method":
        raw["interpolation"] = dict(INTERPOLATION, method=rng.choice([None, [], ["linear"], {}, {"name": "linear"}, 3, True]))
        raw["input"], raw["output"] = (raw["input"], other) if rng.random() < 0.5 else (raw["input"], raw["output"])
    elif kind == "gridless":
        raw[side] = {k: v for k, v in raw[side].items() if k != "grid"}
    return kind, raw


def interleaved(rng, inv):
    """The index of the inventory with unsupported entries anywhere"""
    items = [(e.name, e.raw(inv.memory)) for e in inv.entries]
    for i in range(rng.choice([1, 2, 5, 20])):
        kind, raw = unsupported(rng, inv.entries)
        C.count("unsupported_" + kind.replace(" ", "_"))
        name = rng.choice([f"bad{i}", hashlib.sha256(str((i, kind)).encode()).hexdigest(), f"{i}"])
        items.insert(rng.choice([0, 0, len(items), rng.randint(0, len(items))]), (name, raw))
    return {"version": 1, "matrix": dict(items)}


def write_text(path, text, remote):
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, "index.json"), "w") as f:
        f.write(text)
    if remote:
        with gzip.open(os.path.join(path, "index.json.gz"), "wb") as f:
            f.write(text.encode())
        with open(os.path.join(path, "index.json.sha256"), "w") as f:
            f.write(hashlib.sha256(text.encode()).hexdigest())


class Queries:
    """Asks an inventory for entries, and for what it does not have"""

    def __init__(self, rng, nrng):
        self.rng = rng
        self.nrng = nrng

    def ask(self, source, gin, gout, method):
        v = self.nrng.normal(size=size_of(gin))
        kwargs = dict(interpolation=spelled(method, self.rng), backend="precomputed", inventory=source)
        if isinstance(source, MatrixDb):
            res, err = outcome(source.find, short(gin), short(gout), method)
            if err is None and res[0] is not None:
                res = (res[0] @ v).reshape(res[1]), None
        else:
            res, err = outcome(regrid, v, short(gin), short(gout), **kwargs)
        return v, res, err

    def has(self, source, e, key, **case):
        C.evaluate()
        v, res, err = self.ask(source, e.gin, e.gout, e.method)
        C.count("asked")
        case = dict(case, entry=repr(e))
        if err is not None or res[0] is None:
            return C.violation(key, f"the entry cannot be used: {err!r}", **case)
        C.nontrivial((str(source), e.name))
        ok = same(res[0], *apply(e.w, v)) and tuple(np.shape(res[0])) == e.shape
        C.check(ok, key + "-wrong", "the result is not that of the weights of the entry", **case)

    def lacks(self, source, gin, gout, method, key, **case):
        C.evaluate()
        v, res, err = self.ask(source, gin, gout, method)
        C.count("asked_absent")
        ok = err is not None or res[0] is None
        C.check(ok, key, "a result without an entry", gin=short(gin), gout=short(gout), method=method, **case)

    def absent(self, entries):
        have = {(json.dumps(e.gin), json.dumps(e.gout), e.method) for e in entries}
        while True:
            gin, gout, method = self.rng.choice(POOL), self.rng.choice(POOL), self.rng.choice(METHODS)
            if (json.dumps(gin), json.dumps(gout), method) not in have and gin != gout:
                return gin, gout, method


SERVER = None


def server():
    global SERVER
    if SERVER is None:
        SERVER = Server(os.path.join(SCRATCH, "served"))
        config.set({"cache-policy": "user", "user-cache-directory": fresh_dir("cache"), "url-download-timeout": "20s"})
    return SERVER


def loading():
    rng = C.rng("loading")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    q = Queries(rng, nrng)
    srv = server()
    t0 = C.elapsed()
    for i in range(pick(130, 4000)):
        if C.elapsed() - t0 > pick(9, 280):
            break
        remote = rng.random() < 0.3
        path = os.path.join(srv.root, f"l{i}") if remote else fresh_dir("inv")
        inv = random_inventory(path, rng, n=rng.randint(3, 9))
        inv.write()
        index = interleaved(rng, inv)
        write_text(path, json.dumps(index, indent=rng.choice([None, 1, 4])), remote)
        source = f"{srv.url}l{i}" if remote else path
        if rng.random() < 0.3:
            source = MatrixDb.from_url(source) if remote else MatrixDb.from_path(source)
        C.count("indexes_remote" if remote else "indexes_local")
        for e in rng.sample(inv.entries, len(inv.entries)):
            q.has(source, e, "entry-lost", index=index["matrix"] if len(inv.entries) < 5 else None, remote=remote)
        q.lacks(source, *q.absent(inv.entries), "invented-entry", remote=remote)
        if isinstance(source, MatrixDb):
            C.check(
                {e.name for e in inv.entries} <= set(source.index), "entries-not-listed", "the index does not list its entries", remote=remote
            )
        shutil.rmtree(path)
        if remote:
            cache.purge() if i % 10 == 9 else None


def versions():
    rng = C.rng("versions")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    srv = server()
    for i in range(pick(30, 300)):
        inv = random_inventory(fresh_dir("inv"), rng, n=3)
        inv.write()
        index = inv.index()
        v = rng.choice([0, 2, 3, -1, 1.5, "1", "2", None, [], [1], {}, 10, 11, "v1", "none"])
        if v == "none":
            del index["version"]
        else:
            index["version"] = v
        remote = i % 3 == 0
        path = inv.path
        if remote:
            path = os.path.join(srv.root, f"v{i}")
            shutil.copytree(inv.path, path)
        write_text(path, json.dumps(index), remote)
        e = rng.choice(inv.entries)
        C.evaluate()
        x = nrng.normal(size=size_of(e.gin))
        source = f"{srv.url}v{i}" if remote else path
        for attempt in range(2):
            res, err = outcome(regrid, x, short(e.gin), short(e.gout), interpolation=e.method, backend="precomputed", inventory=source)
            C.count("versions")
            C.check(err is not None, "version-accepted", f"an index of version {v!r} is used", remote=remote)
        # the index of the right version can be used afterwards
        write_text(path, json.dumps(inv.index()), remote)
        Queries(rng, nrng).has(source, e, "entry-lost", version=v, remote=remote, then="right version")


# ---- subsets


def load_tool(*names):
    path = os.path.join(REPO, "tools", *names)
    spec = importlib.util.spec_from_file_location(names[-1][:-3], path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def tree(path):
    r = {}
    for d, _, files in os.walk(path):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as s:
                r[os.path.relpath(p, path)] = s.read()
    return r


def selection(rng, q, inv):
    """What is asked for, the entries it is, and whether something is missing"""
    n = rng.choice([0, 1, 1, 2, 3, len(inv.entries)])
    entries = rng.sample(inv.entries, min(n, len(inv.entries)))
    filters = []
    for e in entries:
        f = {"input": short(e.gin), "output": short(e.gout)}
        if rng.random() < 0.3:
            f = {"input": dict(e.gin), "output": dict(e.gout)}
        if e.method != "linear" or rng.random() < 0.6:
            f["method"] = e.method
        filters.append(f)
        if rng.random() < 0.2:
            filters.append(json.loads(json.dumps(f)))
    missing = rng.random() < 0.35
    if missing:
        gin, gout, method = q.absent(inv.entries)
        filters.insert(rng.randint(0, len(filters)), {"input": short(gin), "output": short(gout), "method": method})
    else:
        rng.shuffle(filters)
    return filters, entries, missing


def run_tool(rng, tool, db, conf, out, strict, allow, dry):
    """The function, or the command"""
    tool.DB = db
    if rng.random() < 0.5:
        return outcome(tool.subset_remote_db, conf, out, strict=strict, fail_on_missing=not allow, dry_run=dry)[1]
    argv = [x for x in ("prog", "--conf", conf, "--out-dir", out, "--log-level", "critical")]
    argv += ["--strict"] * strict + ["--allow-missing"] * allow + ["--dry-run"] * dry
    old, sys.argv = sys.argv, argv
    try:
        tool.main()
    except SystemExit as e:
        return RuntimeError(f"exit {e.code}") if e.code else None
    except Exception as e:
        return e
    finally:
        sys.argv = old
    return None


def subsets():
    rng = C.rng("subsets")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    q = Queries(rng, nrng)
    srv = server()
    tool = load_tool("subset", "subset_remote_db.py")
    t0 = C.elapsed()
    for i in range(pick(130, 4000)):
        if C.elapsed() - t0 > pick(9, 280):
            break
        remote = rng.random() < 0.3
        path = os.path.join(srv.root, f"s{i}") if remote else fresh_dir("inv")
        inv = random_inventory(path, rng, n=rng.randint(3, 8))
        inv.write()
        index = interleaved(rng, inv) if rng.random() < 0.5 else inv.index()
        write_text(path, json.dumps(index), remote)
        db = MatrixDb.from_url(f"{srv.url}s{i}") if remote else MatrixDb.from_path(path)
        current = inv.entries
        for level in range(rng.choice([1, 1, 2, 3])):
            # a subset of the inventory, then possibly of the subset
            C.count("subsets_remote" if remote else "subsets_local")
            view = type("View", (), dict(entries=current))
            filters, entries, missing = selection(rng, q, view)
            out, written = one_subset(rng, q, tool, db, filters, entries, missing, current, index)
            if out is None or not written:
                break
            db, current, remote = MatrixDb.from_path(out), written, False
            with open(os.path.join(out, "index.json")) as f:
                index = json.load(f)
        shutil.rmtree(path)


def one_subset(rng, q, tool, db, filters, entries, missing, all_entries, index):
    case = dict(filters=filters, missing=missing)
    # the selection itself
    for fail in (True, False):
        C.evaluate()
        res, err = outcome(db.subset_index, filters, fail_on_missing=fail)
        if missing and fail:
            C.check(isinstance(err, ValueError), "missing-not-reported", f"an entry is missing: {err!r}", **case)
            continue
        if err is not None:
            C.violation("subset-fails", f"{err!r}", **case, fail=fail)
            continue
        C.count("selections")
        C.check(set(res) == {e.name for e in entries}, "wrong-selection", f"{sorted(res)}", **case, wanted=[e.name for e in entries])
        raw, err = outcome(lambda: json.loads(json.dumps(res.to_raw())))
        if err is not None:
            C.violation("entries-changed", f"the entries cannot be written: {err!r}", **case)
            continue
        want = {e.name: index["matrix"][e.name] for e in entries}
        C.check(raw == {"version": 1, "matrix": want}, "entries-changed", "the entries of the subset are not the original ones", **case, got=raw)

    # the inventory
    conf = os.path.join(fresh_dir("conf"), "conf.yaml")
    with open(conf, "w") as f:
        rng.choice([yaml.safe_dump, json.dump])(filters, f)
    parent = fresh_dir("out")
    out = os.path.join(parent, "a", "sub")
    strict, allow, dry = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.25
    state = rng.choice(["absent", "absent", "empty", "other", "same", "same"])
    if state != "absent":
        os.makedirs(out)
    if state == "other":
        with open(os.path.join(out, "notes.txt"), "w") as f:
            f.write("keep this")
    if state == "same" and entries:
        e = rng.choice(entries)
        p = os.path.join(out, e.path)
        os.makedirs(os.path.dirname(p))
        with open(p, "w") as f:
            f.write("precious")
    before = tree(parent)
    case.update(strict=strict, allow=allow, dry=dry, state=state)
    err = run_tool(rng, tool, db, conf, out, strict, allow, dry)
    after = tree(parent)
    C.evaluate()
    C.count("tool_runs")
    if dry:
        C.count("tool_dry")
        C.check(after == before and os.path.isdir(out) == (state != "absent"), "dry-run-writes", "a dry run changes the directory", **case)
        if not missing or allow:
            C.check(err is None, "dry-run-fails", f"{err!r}", **case)
        else:
            C.check(err is not None, "missing-not-reported", "the dry run does not tell that an entry is missing", **case)
        return None, None
    if strict and before:
        C.count("tool_strict_refused")
        C.check(err is not None, "strict-not-empty", "a directory with files is used", **case)
        C.check(after == before, "strict-overwrites", "the files of the directory have changed", **case)
        return None, None
    if missing and not allow:
        C.count("tool_missing_refused")
        C.check(err is not None, "missing-not-reported", "the tool does not fail when an entry is missing", **case)
        return None, None
    if err is not None:
        C.violation("tool-fails", f"{err!r}", **case)
        return None, None
    C.count("tool_written")
    for p, data in before.items():
        if p.endswith("notes.txt"):
            C.check(after.get(p) == data, "other-file-changed", p, **case)
    expected = {os.path.join("a", "sub", e.path) for e in entries} | {os.path.join("a", "sub", "index.json")} | set(before)
    C.check(set(after) == expected, "wrong-files", f"{sorted(set(after) ^ expected)}", **case)
    try:
        with open(os.path.join(out, "index.json")) as f:
            written = json.load(f)
    except (OSError, ValueError) as e:
        C.violation("no-index", f"{e!r}", **case)
        return None, None
    want = {"version": 1, "matrix": {e.name: index["matrix"][e.name] for e in entries}}
    C.check(written == want, "entries-changed", "the written index does not hold the original entries", **case)
    for e in entries:
        q.has(out, e, "subset-entry-lost", **case)
        C.count("subset_compared")
    for e in all_entries:
        if e not in entries:
            q.lacks(out, e.gin, e.gout, e.method, "not-asked-for", **case)
    return out, entries


def copies():
    """copy_matrix_file()"""
    rng = C.rng("copies")
    srv = server()
    for i in range(pick(25, 300)):
        remote = i % 4 == 0
        path = os.path.join(srv.root, f"c{i}") if remote else fresh_dir("inv")
        inv = random_inventory(path, rng, n=3)
        inv.write()
        inv.write_index(remote=remote)
        db = MatrixDb.from_url(f"{srv.url}c{i}") if remote else MatrixDb.from_path(path)
        out = os.path.join(fresh_dir("copy"), "x")
        e = rng.choice(inv.entries)
        entry = db.find_entry(short(e.gin), short(e.gout), e.method)
        target = os.path.join(out, e.path)
        if not C.check(entry is not None, "entry-lost", "the entry is not found", entry=repr(e)):
            continue
        with open(os.path.join(path, e.path), "rb") as f:
            original = f.read()
        for step in range(6):
            C.evaluate()
            exist_ok, dry = rng.random() < 0.5, rng.random() < 0.4
            if rng.random() < 0.4 and not os.path.exists(target):
                os.makedirs(os.path.dirname(target), exist_ok=True)
                with open(target, "wb") as f:
                    f.write(b"precious")
            before = tree(out)
            dirs = os.path.isdir(os.path.dirname(target))
            res, err = outcome(db.copy_matrix_file, entry, out, exist_ok=exist_ok, dry_run=dry)
            after = tree(out)
            C.count("copies")
            case = dict(exist_ok=exist_ok, dry=dry, existing=bool(before), step=step)
            if dry:
                C.check(after == before and os.path.isdir(os.path.dirname(target)) == dirs, "dry-run-writes", "", **case)
                C.check(err is None and os.path.abspath(res) == target, "wrong-target", f"{res} {err!r}", **case)
            elif before and not exist_ok:
                C.count("copies_refused")
                C.check(isinstance(err, FileExistsError), "overwrites", f"{err!r}", **case)
                C.check(after == before, "overwrites", "the existing file has changed", **case)
            else:
                C.check(err is None and os.path.abspath(res) == target, "copy-fails", f"{res} {err!r}", **case)
                C.check(after == {e.path: original}, "wrong-copy", f"{sorted(after)}", **case)


# ---- merged indexes


def run_merge(tool, mode, top, out, dry):
    old, sys.argv = sys.argv, ["prog", "--mode", mode, "--input-dir", top, "--output-dir", out] + ["--dry-run"] * dry
    path = list(sys.path)
    try:
        tool.main()
    except SystemExit as e:
        return RuntimeError(f"exit {e.code}") if e.code else None
    except Exception as e:
        return e
    finally:
        sys.argv, sys.path[:] = old, path
    return None


def merges():
    """The index of new weights merged with the published one"""
    import logging

    from earthkit.regrid.backends import db as module

    rng = C.rng("merges")
    srv = server()
    path = list(sys.path)
    tool = load_tool("manage", "merge_index.py")
    sys.path[:] = path
    logging.getLogger().setLevel(logging.WARNING)
    url = module._SYSTEM_URL
    try:
        for i in range(pick(250, 1500)):
            mode = rng.choice(["local", "system", "system"])
            large = i % 100 == 50
            published = random_inventory(os.path.join(srv.root, f"sys{i}"), rng, n=rng.randint(200, 260) if large else rng.randint(1, 8))
            published.write_index(remote=True)
            new = random_inventory(fresh_dir("new"), rng, n=rng.randint(120, 160) if large else rng.randint(1, 8))
            C.count("merges_large", int(large))
            common = [e for e in new.entries if e.name in {x.name for x in published.entries}]
            if common and rng.random() < 0.7:
                for e in common:
                    e.name = hashlib.sha256(f"{e.name}{i}".encode()).hexdigest()
                common = []
            if not common and rng.random() < 0.2:
                new.entries.append(rng.choice(published.entries))
                common = [new.entries[-1]]
            new.write_index()
            out = os.path.join(fresh_dir("merged"), rng.choice(["out", "a/b"]))
            target = os.path.join(out, "index.json")
            dry = rng.random() < 0.2
            wrong = rng.choice(["", "", "", "", "no directory", "no index", "damaged index", "no server"])
            top = new.path
            if wrong == "no directory":
                top = os.path.join(top, "no")
            elif wrong == "no index":
                os.unlink(os.path.join(top, "index.json"))
            elif wrong == "damaged index":
                with open(os.path.join(top, "index.json"), "r+") as f:
                    f.truncate(rng.randrange(os.path.getsize(f.name)))
            elif wrong == "no server":
                mode = "system"
            module._SYSTEM_URL = f"{srv.url}/{'nothing' if wrong == 'no server' else f'sys{i}'}"
            existing = rng.random() < 0.3
            if existing:
                os.makedirs(out)
                with open(target, "w") as f:
                    f.write('{"version": 1, "matrix": {}}')
            before = tree(top) if os.path.isdir(top) else None
            here = open(target).read() if existing else None
            err = run_merge(tool, mode, top, out, dry)
            C.evaluate()
            case = dict(mode=mode, dry=dry, wrong=wrong, new=len(new.entries), published=len(published.entries), common=len(common))
            now = open(target).read() if os.path.exists(target) else None
            C.check(before == (tree(top) if os.path.isdir(top) else None), "merge-changes-input", "the index of the new weights has changed", **case)
            if wrong:
                C.count("merges_refused")
                C.check(err is not None, "merge-accepted", "", **case)
                C.check(now == here, "merge-damages", "the output has changed although the merge has failed", **case)
                continue
            if dry:
                C.count("merges_dry")
                C.check(err is None, "merge-fails", f"{err!r}", **case)
                C.check(now == here, "dry-run-writes", "an index is written", **case)
                continue
            if mode == "system" and common:
                # the same entry twice: refused, or one of them
                C.count("merges_common")
                if err is not None:
                    continue
            if err is not None:
                C.violation("merge-fails", f"{err!r}", **case)
                continue
            want = {**(published.index()["matrix"] if mode == "system" else {}), **new.index()["matrix"]}
            got, err = outcome(json.loads, now or "")
            if err is not None:
                C.violation("merge-fails", f"the index: {err!r}", **case)
                continue
            C.check(got["version"] == 1, "merge-version", f"{got['version']}", **case)
            missing = [k for k in want if got["matrix"].get(k) != json.loads(json.dumps(want[k]))]
            C.check(not missing, "merge-loses", f"{len(missing)} entries are not those of the indexes", **case)
            C.check(set(got["matrix"]) == set(want), "merge-adds", "other entries", **case)
            C.count("merged_" + mode)
            C.nontrivial(("merge", mode, str(sorted(want))))
    finally:
        module._SYSTEM_URL = url


def many_entries():
    """Indexes of the size of the published one"""
    rng = C.rng("many")
    nrng = np.random.default_rng(rng.randrange(1 << 30))
    q = Queries(rng, nrng)
    srv = server()
    tool = load_tool("subset", "subset_remote_db.py")
    pool = [octahedral(n) for n in (8, 9, 10, 11, 12, 13, 14)] + [ll(10)] + [healpix(n, o) for n in (2, 4) for o in ("ring", "nested")]
    pool += [octahedral(n) for n in (15, 16, 17, 18)]
    for i in range(pick(2, 10)):
        remote = i % 2 == 1
        path = os.path.join(srv.root, f"many{i}") if remote else fresh_dir("inv")
        # the order of the entries is not that of their grids
        inv = random_inventory(path, rng, n=rng.randint(500, 560), pool=pool)
        inv.write()
        index = inv.index()
        text = json.dumps(index, indent=2)
        write_text(path, text, remote)
        source = f"{srv.url}many{i}" if remote else path
        for e in [*inv.entries[:3], *inv.entries[-3:], *rng.sample(inv.entries, 60)]:
            q.has(source, e, "entry-lost", remote=remote)
        db = MatrixDb.from_url(source) if remote else MatrixDb.from_path(source)
        C.check(set(db.index) == {e.name for e in inv.entries}, "entries-not-listed", f"{len(db)} of {len(inv.entries)} entries", remote=remote)
        C.check(db.index.to_raw() == index, "entries-changed", f"the index of {len(inv.entries)} entries is not the original one")
        C.count("large_indexes")
        C.count("large_index_bytes", len(text))
        # more than a few are asked for
        entries = rng.sample(inv.entries, rng.randint(150, 200))
        filters = [{"input": short(e.gin), "output": short(e.gout), "method": e.method} for e in entries]
        res, err = outcome(db.subset_index, filters)
        C.check(err is None and set(res) == {e.name for e in entries}, "wrong-selection", f"{err!r}", asked=len(entries))
        conf = os.path.join(fresh_dir("conf"), "conf.yaml")
        with open(conf, "w") as f:
            yaml.safe_dump(filters, f)
        out = os.path.join(fresh_dir("out"), "sub")
        err = run_tool(rng, tool, db, conf, out, False, False, False)
        C.evaluate()
        if not C.check(err is None, "tool-fails", f"{err!r}", asked=len(entries)):
            continue
        files = {n for n in tree(out) if n.endswith(".npz")}
        C.check(files == {e.path for e in entries}, "wrong-files", f"{len(files)} files for {len(entries)} entries")
        for e in [entries[-1], *rng.sample(entries, 40)]:
            q.has(out, e, "subset-entry-lost", asked=len(entries))
        C.count("large_subsets")
        C.nontrivial(("many", len(inv.entries), len(entries)))
        shutil.rmtree(path)


class FileLimit:
    """No file can be longer than this: the disk is full"""

    def __init__(self, limit):
        self.limit = limit

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.handler = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.limit, self.old[1]))

    def __exit__(self, *args):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        signal.signal(signal.SIGXFSZ, self.handler)


def full_disks():
    """The disk gets full while files of an inventory that is in use are replaced"""
    from earthkit.regrid.backends import db as module

    rng = C.rng("full")
    srv = server()
    tool = load_tool("subset", "subset_remote_db.py")
    path = list(sys.path)
    merge = load_tool("manage", "merge_index.py")
    sys.path[:] = path
    pool = [healpix(n, o) for n in (1, 2, 4) for o in ("ring", "nested")] + [octahedral(8)]
    url = module._SYSTEM_URL
    for i in range(pick(60, 1200)):
        what = rng.choice(["copy", "subset", "subset", "subset index", "merge"])
        # an index that is longer than the weights
        large = what == "subset index"
        inv = random_inventory(fresh_dir("inv"), rng, n=20 if large else rng.randint(4, 8), pool=pool[:4] if large else pool)
        inv.write()
        inv.write_index()
        db = MatrixDb.from_path(inv.path)
        out = os.path.join(fresh_dir("out"), "x")

        def subset(entries, limit=None):
            conf = os.path.join(fresh_dir("conf"), "conf.yaml")
            with open(conf, "w") as f:
                yaml.safe_dump([{"input": short(e.gin), "output": short(e.gout), "method": e.method} for e in entries], f)
            with FileLimit(resource.RLIM_INFINITY if limit is None else limit):
                return run_tool(rng, tool, db, conf, out, False, False, False)

        first = rng.sample(inv.entries, rng.randint(2, len(inv.entries)))
        err = subset(first)
        if not C.check(err is None, "tool-fails", f"{err!r}", asked=len(first)):
            continue
        before = tree(out)
        # the weights of the source are other ones now
        for e in inv.entries:
            e.w.data *= 1.5
        inv.write()
        source = tree(inv.path)
        sizes = sorted(len(source[e.path]) for e in inv.entries)
        case = dict(what=what, sizes=sizes, index=len(before["index.json"]))
        C.evaluate()
        if what == "copy":
            e = rng.choice(inv.entries)
            limit = rng.randrange(1, int(1.3 * len(source[e.path])))
            with FileLimit(limit):
                err = outcome(db.copy_matrix_file, db.find_entry(short(e.gin), short(e.gout), e.method), out, exist_ok=True)[1]
            if err is None:
                C.check(tree(out) == {**before, e.path: source[e.path]}, "wrong-copy", "the copy is not the original", **case)
        elif what == "merge":
            published = random_inventory(os.path.join(srv.root, f"full{i}"), rng, n=rng.randint(1, 8), pool=pool)
            published.entries = [e for e in published.entries if e.name not in {x.name for x in inv.entries}]
            published.write_index(remote=True)
            # the downloaded index fits, or not
            n = len(before["index.json"])
            with FileLimit(rng.choice([n - 1, n, n + 1, n // 2, rng.randrange(1, 4 * n)])):
                module._SYSTEM_URL = f"{srv.url}/full{i}"
                try:
                    err = run_merge(merge, rng.choice(["local", "system"]), inv.path, out, False)
                finally:
                    module._SYSTEM_URL = url
        else:
            second = rng.sample(inv.entries, rng.randint(1, len(inv.entries)))
            if large:
                second, limit = inv.entries, rng.randrange(sizes[-1], 3 * sizes[-1])
            else:
                limit = rng.randrange(1, 2 * sizes[-1])
            err = subset(second, limit)
            if err is None:
                C.check(all(tree(out).get(e.path) == source[e.path] for e in second), "wrong-copy", "the copies are not the original", **case)
        if err is None:
            C.count("full_disk_enough")
            continue
        C.count("full_disk_" + what.replace(" ", "_"))
        C.nontrivial(("full", what, str(sizes), i))
        after = tree(out)
        C.check(after.get("index.json") == before["index.json"], "index-damaged", f"the disk was full, the index has changed: {err!r}", **case)
        for e in first:
            now = after.get(e.path)
            C.check(now in (before[e.path], source[e.path]), "weights-damaged", f"the disk was full, weights of the inventory are incomplete: {err!r}", **case)


C.require(full_disk_copy=1, full_disk_subset=4, full_disk_subset_index=2, full_disk_merge=2, full_disk_enough=3)
C.require(large_indexes=2, large_subsets=2, large_index_bytes=200000)
C.require(
    merged_local=5,
    merged_system=8,
    merges_refused=8,
    merges_dry=3,
    merges_common=1,
    asked=300,
    asked_absent=60,
    indexes_local=15,
    indexes_remote=5,
    versions=40,
    selections=30,
    tool_runs=20,
    tool_dry=3,
    tool_strict_refused=2,
    tool_missing_refused=2,
    tool_written=8,
    subset_compared=10,
    copies=100,
    copies_refused=10,
)
main(C, loading, versions, subsets, many_entries, copies, merges, full_disks)
