"""Deterministic virtual-time asyncio loop.

`loop.time()` only moves when nothing is runnable and the next thing to happen is a timer.  While
operations run in helper threads (SQLite), time stands still and the loop blocks on the self-pipe.
"""
from __future__ import annotations

import asyncio
import selectors


class Hang(BaseException):
    """The code under test can make no progress any more although somebody waits for it."""


class _Selector(selectors.DefaultSelector):
    def __init__(self, loop):
        super().__init__()
        self._vl = loop

    def select(self, timeout=None):
        ev = super().select(0)
        if ev:
            return ev
        loop = self._vl
        if loop.busy():
            # a thread is working for us: wait for its call_soon_threadsafe wake-up
            return super().select(0.05)
        if timeout is None:
            raise Hang("no runnable callback, no timer, no I/O")
        if timeout > 0:
            if loop.horizon is not None and loop.vtime + timeout > loop.horizon:
                raise Hang(f"virtual time horizon {loop.horizon} passed")
            loop.vtime += timeout
        return super().select(0)


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, start: float = 1000.0):
        self.vtime = start
        self.horizon = None
        self.busy_checks = []
        super().__init__(_Selector(self))
        self._clock_resolution = 1e-9
        self.unhandled = []
        self.set_exception_handler(self._on_exc)

    def _on_exc(self, loop, ctx):
        self.unhandled.append(ctx)

    def time(self):
        return self.vtime

    def busy(self):
        return any(c() for c in self.busy_checks)

    def idle(self):
        """True if no callback is ready to run (timers excepted)."""
        return not self._ready and not self.busy()


async def settle(max_rounds: int = 10000):
    """Run everything that can run at the current instant (timers excluded)."""
    loop = asyncio.get_running_loop()
    for n in range(max_rounds):
        if n > 100:
            # code that polls the clock: a real clock would move on too
            loop.vtime += 1e-9
        # after this coroutine resumes, _ready holds what the others scheduled meanwhile
        await asyncio.sleep(0)
        if not loop._ready:
            if loop.busy():
                await _thread_tick(loop)
                continue
            # process I/O events (threadsafe wake-ups) once more
            await asyncio.sleep(0)
            if not loop._ready and not loop.busy():
                return
    raise Hang("does not settle: busy loop")


async def _thread_tick(loop):
    import time
    time.sleep(0.0005)
    await asyncio.sleep(0)


async def advance(dt: float):
    """Let exactly dt seconds of virtual time pass, running all timers that are due."""
    loop = asyncio.get_running_loop()
    target = loop.time() + dt
    await settle()
    while True:
        nxt = None
        for h in loop._scheduled:
            if not h._cancelled and (nxt is None or h._when < nxt):
                nxt = h._when
        if nxt is None or nxt > target:
            break
        fut = loop.create_future()
        loop.call_at(nxt, lambda f=fut: f.done() or f.set_result(None))
        await fut
        await settle()
    if loop.time() < target:
        loop.vtime = target
        await settle()


def run(coro_fn, *args, horizon=None, start=1000.0):
    """Run `coro_fn(*args)` on a fresh virtual loop and return its result."""
    loop = VLoop(start)
    loop.horizon = None if horizon is None else start + horizon
    asyncio.set_event_loop(loop)
    try:
        res = loop.run_until_complete(coro_fn(*args))
        for ctx in loop.unhandled:
            # a callback of the event loop (reception of a packet, a timer) must not raise
            if ctx.get("handle") is not None and ctx.get("exception") is not None:
                raise ctx["exception"]
        return res
    finally:
        try:
            loop.horizon = None
            tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in tasks:
                t.cancel()
            if tasks:
                try:
                    loop.run_until_complete(
                        asyncio.wait_for(asyncio.gather(*tasks, return_exceptions=True), 5)
                    )
                except BaseException:
                    pass
            try:
                loop.run_until_complete(loop.shutdown_asyncgens())
            except BaseException:
                pass
        finally:
            asyncio.set_event_loop(None)
            loop.close()
