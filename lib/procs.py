"""Child processes forked from the check, with a watchdog, that report a JSON result."""

import json
import os
import signal
import sys
import time
import traceback

from harness import SCRATCH
from harness import jsonable

_n = 0


class Child:
    """Runs func(*args) in a forked process. The result is None when it did not end by itself."""

    def __init__(self, func, *args, quiet=True):
        global _n
        _n += 1
        self.path = os.path.join(SCRATCH, f"child-{os.getpid()}-{_n}.json")
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                sys.settrace(None)
                res = {"ok": func(*args)}
            except BaseException as e:  # noqa: B902
                res = {"error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-3000:]}
                code = 9
            try:
                with open(self.path + ".part", "w") as f:
                    json.dump(res, f, default=jsonable)
                os.rename(self.path + ".part", self.path)
            finally:
                os._exit(code)
        self.status = None
        self.hung = False
        self.data = None

    def poll(self):
        if self.status is None:
            pid, st = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                self.status = os.waitstatus_to_exitcode(st)
                if os.path.exists(self.path):
                    with open(self.path) as f:
                        self.data = json.load(f)
                    os.unlink(self.path)
        return self.status is not None

    def kill(self):
        if self.status is None:
            os.kill(self.pid, signal.SIGKILL)
            _, st = os.waitpid(self.pid, 0)
            self.status = os.waitstatus_to_exitcode(st)

    @property
    def result(self):
        return self.data.get("ok") if self.data else None

    @property
    def error(self):
        if self.hung:
            return "hung"
        if self.data is None:
            return f"ended with {self.status} and no result"
        return self.data.get("error")

    @property
    def trace(self):
        return self.data.get("trace") if self.data else None


def wait(children, timeout):
    """Waits for all of the children; those that do not end in time are killed (hung)."""
    end = time.time() + timeout
    pause = 0.001
    while True:
        left = [c for c in children if not c.poll()]
        if not left:
            return True
        if time.time() > end:
            for c in left:
                c.hung = True
                c.kill()
            return False
        time.sleep(pause)
        pause = min(pause * 1.5, 0.02)


def call(func, *args, timeout=60):
    c = Child(func, *args)
    wait([c], timeout)
    return c
