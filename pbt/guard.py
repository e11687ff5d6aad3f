"""Containment of the code under test: output, step budget, virtual clock, global alarm."""
import contextlib
import os
import signal
import sys
import threading
import time
import timeit
import types

import numpy as np

REPO = "/repo/"
real_stdout = sys.stdout
_mon = sys.monitoring
_TOOL = 4


def silence():
    """The code under test prints a lot. Its output goes nowhere; ours to the saved stream."""
    global real_stdout
    real_stdout = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get("PBT_STDERR"):
        sys.stderr_saved = os.fdopen(os.dup(2), "w")
        os.dup2(null, 2)


# --- step budget -------------------------------------------------------------------------------------------------
# Counts the backward jumps and function entries inside /repo: a deterministic measure of work, unlike wall time.

class StepLimit(BaseException):
    pass


class _Steps:
    n = 0
    limit = None


def _jump(code, offset, dest):
    if not code.co_filename.startswith(REPO):
        return _mon.DISABLE
    if dest <= offset:
        _tick()


def _start(code, offset):
    if not code.co_filename.startswith(REPO):
        return _mon.DISABLE
    _tick()


def _tick():
    _Steps.n += 1
    if _Steps.limit is not None and _Steps.n > _Steps.limit:
        _Steps.limit = None
        raise StepLimit("more than the step budget in one case")


def install_steps():
    _mon.use_tool_id(_TOOL, "pbt")
    _mon.register_callback(_TOOL, _mon.events.JUMP, _jump)
    _mon.register_callback(_TOOL, _mon.events.PY_START, _start)
    _mon.set_events(_TOOL, _mon.events.JUMP | _mon.events.PY_START)


@contextlib.contextmanager
def steps(limit=10_000_000):
    _Steps.n, _Steps.limit = 0, limit
    try:
        yield
    finally:
        _Steps.limit = None


# --- virtual clock -----------------------------------------------------------------------------------------------

_REAL = {
    "time": time.time, "monotonic": time.monotonic, "perf_counter": time.perf_counter, "process_time": time.process_time,
    "time_ns": time.time_ns, "monotonic_ns": time.monotonic_ns, "perf_counter_ns": time.perf_counter_ns, "sleep": time.sleep,
}


class Clock:
    """The time the code under test sees. It only passes when the harness, a sleep or a reading of the clock says so."""

    def __init__(self, start=1.7e9, per_read=0.0):
        self.t0 = start
        self.now = 0.0
        self.per_read = per_read
        self.reads = 0

    def advance(self, dt):
        self.now += dt

    def _read(self):
        self.reads += 1
        # A number, or costs that come in turns
        self.now += self.per_read if np.isscalar(self.per_read) else self.per_read[self.reads % len(self.per_read)]
        return self.now

    def functions(self):
        return {
            "time": lambda: self.t0 + self._read(), "monotonic": self._read, "perf_counter": self._read,
            "process_time": self._read, "time_ns": lambda: int((self.t0 + self._read()) * 1e9),
            "monotonic_ns": lambda: int(self._read() * 1e9), "perf_counter_ns": lambda: int(self._read() * 1e9),
            "sleep": self.advance,
        }


@contextlib.contextmanager
def virtual_time(clock):
    fake = clock.functions()
    by_id = {id(f): fake[k] for k, f in _REAL.items()}
    undo = []
    # timeit.default_timer and "from time import ..." copies in the modules under test
    targets = [(time, k) for k in _REAL] + [(timeit, "default_timer")]
    for name, mod in list(sys.modules.items()):
        if name.startswith("ais_benchmarks") and isinstance(mod, types.ModuleType):
            targets += [(mod, k) for k, v in vars(mod).items() if id(v) in by_id]
    for mod, k in targets:
        old = getattr(mod, k)
        if id(old) in by_id:
            undo.append((mod, k, old))
    for mod, k, old in undo:
        setattr(mod, k, by_id[id(old)])
    try:
        yield clock
    finally:
        for mod, k, old in undo:
            setattr(mod, k, old)


# --- global alarm ------------------------------------------------------------------------------------------------

def alarm(seconds):
    """The check gives no answer (exit 3) rather than outlive its time."""
    def end(signum, frame):
        os._exit(3)
    signal.signal(signal.SIGALRM, end)
    signal.alarm(int(seconds))
