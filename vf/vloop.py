"""Deterministic asyncio loop with virtual time and deadlock detection.

Nothing the drivers do touches real I/O, so when no callback is ready the loop either
jumps to the next timer or, with no timer left, every task waits on something that can
never happen: that is reported as Deadlock instead of hanging.
"""
import asyncio
import heapq
import selectors
import time as _time

_real_monotonic = _time.monotonic


class Deadlock(BaseException):
    pass


# errors nobody handled, as the loop of the last run reports them
NOISE = []


def _report(loop, ctx):
    m = ctx.get("message") or ""
    if m.startswith("Exception in callback") or "never retrieved" in m:
        NOISE.append("%s: %s" % (m[:100], type(ctx.get("exception")).__name__))


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, max_steps=200000):
        super().__init__(selectors.SelectSelector())
        self._vt = 1000.0
        self._steps = 0
        self._max = max_steps

    def time(self):
        return self._vt

    def _run_once(self):
        self._steps += 1
        if self._steps > self._max:
            raise Deadlock("livelock: too many loop steps")
        if not self._ready and not self._stopping:
            while self._scheduled and self._scheduled[0]._cancelled:
                h = heapq.heappop(self._scheduled)
                h._scheduled = False
                self._timer_cancelled_count -= 1
            if self._scheduled:
                self._vt = max(self._vt, self._scheduled[0]._when)
            else:
                raise Deadlock("all tasks wait forever")
        super()._run_once()


def run_virtual(coro_fn, *args):
    """Run coroutine function on a fresh virtual loop; returns (result, error)."""
    loop = VLoop()
    loop.set_exception_handler(_report)
    NOISE.clear()
    asyncio.set_event_loop(loop)
    old = _time.monotonic
    _time.monotonic = loop.time
    try:
        return loop.run_until_complete(coro_fn(*args)), None
    except Deadlock as d:
        return None, "deadlock: %s" % d
    finally:
        _time.monotonic = old
        try:
            tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in tasks:
                t.cancel()
            loop._steps = 0
            if tasks:
                async def fin():
                    await asyncio.wait(tasks, timeout=1)
                try:
                    loop.run_until_complete(fin())
                except BaseException:
                    pass
            try:
                loop._steps = 0
                loop.run_until_complete(loop.shutdown_asyncgens())
            except BaseException:
                pass
        finally:
            asyncio.set_event_loop(None)
            loop.close()
