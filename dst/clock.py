"""
Clock seam. This module must be imported before anything that does
``from time import ...`` (vcorelib, runtimepy): it replaces the functions of
the ``time`` module by dispatchers which read the simulated clock while a
simulation is running and the real clock otherwise.
"""

import time as _time

REAL_MONOTONIC = _time.monotonic
REAL_PERF_NS = _time.perf_counter_ns
_REAL = {
    name: getattr(_time, name)
    for name in (
        "time",
        "time_ns",
        "monotonic",
        "monotonic_ns",
        "perf_counter",
        "perf_counter_ns",
        "process_time",
        "process_time_ns",
        "sleep",
    )
}

# 2024-01-01T00:00:00Z: an arbitrary, fixed simulated epoch.
EPOCH_NS = 1_704_067_200 * 10**9


class SimClock:
    """The one clock of a simulation (integer nanoseconds)."""

    def __init__(self) -> None:
        self.now_ns = 1_000 * 10**9
        # Wall clock offset (jumps with 'clock' faults); monotonic does not.
        self.wall_offset_ns = EPOCH_NS

    @property
    def wall_ns(self) -> int:
        return self.now_ns + self.wall_offset_ns


ACTIVE = None


def activate(clock):
    global ACTIVE
    ACTIVE = clock


def _install() -> None:
    def t_time():
        return _REAL["time"]() if ACTIVE is None else ACTIVE.wall_ns / 1e9

    def t_time_ns():
        return _REAL["time_ns"]() if ACTIVE is None else ACTIVE.wall_ns

    def t_mono():
        return _REAL["monotonic"]() if ACTIVE is None else ACTIVE.now_ns / 1e9

    def t_mono_ns():
        return _REAL["monotonic_ns"]() if ACTIVE is None else ACTIVE.now_ns

    def t_perf():
        return (
            _REAL["perf_counter"]() if ACTIVE is None else ACTIVE.now_ns / 1e9
        )

    def t_perf_ns():
        return _REAL["perf_counter_ns"]() if ACTIVE is None else ACTIVE.now_ns

    def t_proc():
        return (
            _REAL["process_time"]() if ACTIVE is None else ACTIVE.now_ns / 1e9
        )

    def t_proc_ns():
        return _REAL["process_time_ns"]() if ACTIVE is None else ACTIVE.now_ns

    def t_sleep(secs):
        # A blocking sleep stalls the whole (single-threaded) process.
        if ACTIVE is None:
            return _REAL["sleep"](secs)
        ACTIVE.now_ns += int(secs * 1e9)
        return None

    _time.time = t_time
    _time.time_ns = t_time_ns
    _time.monotonic = t_mono
    _time.monotonic_ns = t_mono_ns
    _time.perf_counter = t_perf
    _time.perf_counter_ns = t_perf_ns
    _time.process_time = t_proc
    _time.process_time_ns = t_proc_ns
    _time.sleep = t_sleep


_install()
