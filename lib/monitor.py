"""Monitors: events of the process (audit hook), state of the public API."""

import contextlib
import os
import sys
import threading

_listeners = []


def _hook(event, args):
    for f in _listeners:
        f(event, args)


_installed = False


def listen(f):
    global _installed
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True
    _listeners.append(f)


class WeightLoads:
    """Counts the weight files (.npz) that are opened for reading."""

    def __init__(self):
        self.lock = threading.Lock()
        self.paths = []
        listen(self._event)

    def _event(self, event, args):
        if event == "open" and isinstance(args[0], (str, os.PathLike)):
            p = os.fspath(args[0])
            if isinstance(p, str) and p.endswith(".npz") and (args[1] is None or "r" in args[1]):
                with self.lock:
                    self.paths.append(os.path.abspath(p))

    def take(self):
        with self.lock:
            r, self.paths = self.paths, []
        return r


@contextlib.contextmanager
def switch_interval(seconds):
    old = sys.getswitchinterval()
    sys.setswitchinterval(seconds)
    try:
        yield
    finally:
        sys.setswitchinterval(old)
