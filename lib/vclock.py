"""Clock which runs with the real one, except that the library's sleeps are skipped.

Must be imported before the library. Only the calls made by /repo's code are replaced.
"""

from __future__ import annotations

import asyncio
import sys
import time

_real = {n: getattr(time, n) for n in ("perf_counter_ns", "perf_counter", "monotonic_ns", "monotonic", "time_ns", "time", "sleep")}
_aio_sleep = asyncio.sleep
BASE = _real["perf_counter_ns"]()


class Clock:
    def __init__(self):
        self.active = False
        self.skipped = 0  # ns
        self.sleeps = 0
        self.reads = 0

    def now_ns(self) -> int:
        return _real["perf_counter_ns"]() - BASE + self.skipped

    def advance(self, ns: int) -> None:
        self.skipped += int(ns)


CLOCK = Clock()


def _ours(depth: int = 2) -> bool:
    if not CLOCK.active:
        return False
    f = sys._getframe(depth)
    return f.f_code.co_filename.startswith("/repo/")


def _reader(name: str, scale: float | None):
    real = _real[name]

    def fn():
        if not _ours():
            return real()
        CLOCK.reads += 1
        return real() + (CLOCK.skipped if scale is None else CLOCK.skipped / scale)

    fn.__name__ = name
    return fn


def _sleep(x):
    if not _ours():
        return _real["sleep"](x)
    CLOCK.sleeps += 1
    CLOCK.advance(round(max(x, 0) * 1e9))
    return None


async def _asleep(delay, result=None):
    if not (CLOCK.active and _from_repo()):
        return await _aio_sleep(delay, result)
    CLOCK.sleeps += 1
    CLOCK.advance(round(max(delay, 0) * 1e9))
    await _aio_sleep(0)
    return result


def _from_repo() -> bool:
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename.endswith(("asyncio/tasks.py", "asyncio/timeouts.py")):
        f = f.f_back
    return f is not None and f.f_code.co_filename.startswith("/repo/")


def install() -> None:
    if "gufo.snmp" in sys.modules:
        raise RuntimeError("too late")
    for n in ("perf_counter_ns", "monotonic_ns", "time_ns"):
        setattr(time, n, _reader(n, None))
    for n in ("perf_counter", "monotonic", "time"):
        setattr(time, n, _reader(n, 1e9))
    time.sleep = _sleep
    asyncio.sleep = _asleep
