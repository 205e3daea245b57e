"""Threads with injected delays at the source lines of earthkit.regrid."""

import os
import random
import sys
import threading
import time

PACKAGE = None


def _package():
    global PACKAGE
    if PACKAGE is None:
        import earthkit.regrid

        PACKAGE = os.path.dirname(os.path.realpath(earthkit.regrid.__file__)) + os.sep
    return PACKAGE


class Delays:
    """Line tracer that sleeps, or gives up the interpreter lock, at random lines of the package."""

    def __init__(self, seed, p_yield=0.2, p_sleep=0.01, longest=0.002, only=None):
        self.rng = random.Random(seed)
        self.p_yield = p_yield
        self.p_sleep = p_sleep
        self.longest = longest
        self.lines = 0
        self.sleeps = 0
        self.only = only
        self.package = _package()

    def __call__(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(self.package):
            return None
        if self.only and not name.endswith(self.only):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            r = self.rng.random()
            if r < self.p_sleep:
                self.sleeps += 1
                time.sleep(self.rng.random() * self.longest)
            elif r < self.p_sleep + self.p_yield:
                time.sleep(0)
        return self.line


class Team:
    """Runs functions in threads that start together. alive is the list of the threads that did
    not end in time."""

    def __init__(self):
        self.threads = []
        self.jobs = []
        self.errors = []
        self.delays = []

    def add(self, func, *args, delays=None):
        self.jobs.append((func, args, delays))

    def run(self, timeout=60):
        barrier = threading.Barrier(len(self.jobs))

        def go(func, args, delays):
            barrier.wait()
            try:
                if delays is not None:
                    sys.settrace(delays)
                func(*args)
            except BaseException as e:  # noqa: B902
                sys.settrace(None)
                import traceback

                self.errors.append((e, traceback.format_exc()))
            finally:
                sys.settrace(None)

        for func, args, delays in self.jobs:
            if delays is not None:
                self.delays.append(delays)
            t = threading.Thread(target=go, args=(func, args, delays), daemon=True)
            self.threads.append(t)
            t.start()
        end = time.time() + timeout
        for t in self.threads:
            t.join(max(0.01, end - time.time()))
        self.alive = [t for t in self.threads if t.is_alive()]
        return not self.alive

    def stacks(self):
        import traceback

        frames = sys._current_frames()
        return ["".join(traceback.format_stack(frames[t.ident])[-6:]) for t in self.alive if t.ident in frames]


class At:
    """Line tracer that runs an action at the k-th line of the package that is executed
    (the lines are counted in every frame, or only in the given files)."""

    def __init__(self, k, action, only=None):
        self.k = k
        self.action = action
        self.only = only
        self.lines = 0
        self.where = None
        self.package = _package()

    def __call__(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(self.package) or (self.only and not name.endswith(self.only)):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.lines == self.k:
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                self.action()
        return self.line


def preempted(first, second, k, only=None, patience=0.02, timeout=30):
    """Runs first(), and second() in another thread when first() reaches its k-th line: to its end,
    unless it is blocked by something that first() holds, then along with the rest of first().
    Returns (lines of first, place of the preemption, result of first, result of second, deadlocked);
    a result is (value, exception)."""
    res = {}

    def other():
        try:
            res["second"] = (second(), None)
        except Exception as e:
            res["second"] = (None, e)

    def one():
        try:
            sys.settrace(at)
            try:
                r = first()
            finally:
                sys.settrace(None)
            res["first"] = (r, None)
        except Exception as e:
            res["first"] = (None, e)

    t2 = threading.Thread(target=other, daemon=True)

    def action():
        t2.start()
        t2.join(patience)

    at = At(k, action, only)
    t1 = threading.Thread(target=one, daemon=True)
    t1.start()
    t1.join(timeout)
    if t2.ident is not None:
        t2.join(timeout)
    stuck = t1.is_alive() or (t2.ident is not None and t2.is_alive())
    return at.lines, at.where, res.get("first"), res.get("second"), stuck
