"""Payloads and creators of cached files that record what they do."""

import hashlib
import json
import os
import random
import threading
import time

NOT_FILES = (".tmp", ".lock")


def is_entry(name):
    """Final names of cached files, as opposed to the database and work files."""
    return not (name.endswith(NOT_FILES) or ".tmp." in name or name.startswith("cache-") or name.startswith("."))


def payload(key, nonce, size):
    """Lines that tell which request they belong to and whether anything is missing."""
    head = json.dumps({"key": key, "nonce": nonce, "size": size})
    out = [head]
    n = 0
    i = 0
    while n < size:
        line = f"{i} " + hashlib.sha1(f"{head}{i}".encode()).hexdigest()
        out.append(line)
        n += len(line)
        i += 1
    out.append("END " + hashlib.sha1("".join(out).encode()).hexdigest())
    return "\n".join(out) + "\n"


def parse(text):
    """(key, nonce) of a complete payload, or None"""
    lines = text.split("\n")
    if len(lines) < 3 or lines[-1] != "" or not lines[-2].startswith("END "):
        return None
    if lines[-2][4:] != hashlib.sha1("".join(lines[:-2]).encode()).hexdigest():
        return None
    d = json.loads(lines[0])
    if payload(d["key"], d["nonce"], d["size"]) != text:
        return None
    return d["key"], d["nonce"]


def read(path):
    """(key, nonce) of what is at the path, None when incomplete; raises when there is nothing"""
    if os.path.isdir(path):
        names = sorted(os.listdir(path))
        found = []
        for n in names:
            with open(os.path.join(path, n)) as f:
                found.append(parse(f.read()))
        if names != ["a", "b", "c"] or None in found or len({x[1] for x in found}) != 1:
            return None
        return found[0]
    with open(path) as f:
        return parse(f.read())


def size_of(path):
    if os.path.isdir(path):
        return sum(os.path.getsize(os.path.join(r, f)) for r, _, fs in os.walk(path) for f in fs)
    return os.path.getsize(path)


class Maker:
    """create() functions; each writes its content in pieces and logs begin and end."""

    def __init__(self, log, seed=0, slow=0.0):
        self.log = log
        self.rng = random.Random(seed)
        self.slow = slow
        self.lock = threading.Lock()

    def event(self, *what):
        fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
        try:
            os.write(fd, (json.dumps(what) + "\n").encode())
        finally:
            os.close(fd)

    def pause(self):
        if self.slow:
            with self.lock:
                r = self.rng.random()
            time.sleep(r * self.slow)

    def write(self, path, text):
        step = max(64, len(text) // 5)
        with open(path, "w") as f:
            for i in range(0, len(text), step):
                f.write(text[i : i + step])
                f.flush()
                self.pause()

    def __call__(self, key, size=2000, directory=False, owner_data=None):
        def create(path, args):
            with self.lock:
                nonce = f"{os.getpid()}-{threading.get_ident()}-{self.rng.randrange(1 << 60)}"
            self.event("begin", key, nonce)
            if directory:
                os.makedirs(path, exist_ok=True)
                # only there while the creation is in progress
                work = os.path.join(path, f"work-{nonce}")
                with open(work, "w"):
                    pass
                for n in "abc":
                    self.write(os.path.join(path, n), payload(key, nonce, size))
                os.unlink(work)
            else:
                self.write(path, payload(key, nonce, size))
            self.event("end", key, nonce)
            return owner_data

        return create


def events(log):
    if not os.path.exists(log):
        return []
    with open(log) as f:
        return [json.loads(x) for x in f]


ZONES = ["UTC", "Asia/Tokyo", "America/Los_Angeles", "XXX-12", "YYY+11", "ZZZ-1"]


def zone(rng):
    """The local time of the process is that of another zone from now on, as at the end of the daylight
    saving time or for a process that runs in another zone."""
    name = rng.choice(ZONES)
    os.environ["TZ"] = name
    time.tzset()
    return name
