"""C25: retries and combined calls."""
from __future__ import annotations

import asyncio

from . import vloop


class RetryableA(Exception):
    pass


class Fatal(Exception):
    pass


def _ms(loop, t0):
    return round((loop.time() - t0) * 1000)


def drive_retry(script, events):
    """script: {api, tries, delay(ms), outcomes:[[kind, dur_ms]], cancel_at(ms)|-1, exc}"""
    from zigpy import util
    import zigpy.exceptions as ze

    over = []

    def ev(e):
        if not over:
            events.append(e)

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        api, tries, delay = script["api"], script["tries"], script["delay"]
        left = list(script["outcomes"])
        count = [0]
        made = {}
        retry_excs = {
            "a": (RetryableA,), "two": (KeyError, RetryableA), "zigbee": None,
        }[script["exc"]]

        def make(kind, v):
            if kind == "fatal":
                e = Fatal(v)
            elif retry_excs is None:
                e = [ze.DeliveryError(str(v)), asyncio.TimeoutError(), ze.ParsingError(str(v)),
                     ze.ControllerException(str(v))][v % 4]
            else:
                e = RetryableA(v)
            made[id(e)] = (kind, v, e)
            return e

        async def func(*args, **kwargs):
            count[0] += 1
            n = count[0]
            ev({"ev": "attempt", "args": fingerprint(args, kwargs), "t": _ms(loop, t0)})
            kind, dur = left.pop(0) if left else ("ok", 0)
            try:
                if dur:
                    await asyncio.sleep(dur / 1000)
            except asyncio.CancelledError:
                raise
            ev({"ev": "outcome", "kind": kind, "v": n, "t": _ms(loop, t0)})
            if kind == "ok":
                return n
            raise make(kind, n)

        def fingerprint(args, kwargs):
            return sum(args) * 100 + sum(kwargs.values())

        if api == "retry":
            coro = lambda: util.retry(lambda: func(1, k=2), retry_excs, tries=tries, delay=delay / 1000)  # noqa: E731
        elif api == "retry_default":
            tries, delay = 3, 100
            coro = lambda: util.retry(lambda: func(1, k=2), retry_excs)  # noqa: E731
        elif api == "retryable":
            dec = util.retryable(retry_excs, tries=tries, delay=delay / 1000)(func)
            coro = lambda: dec(1, k=2)  # noqa: E731
        elif api == "retryable_request":
            dec = util.retryable_request(tries=tries, delay=delay / 1000)(func)
            coro = lambda: dec(1, k=2)  # noqa: E731
        ev({"ev": "call", "tries": max(tries, 0), "delay": delay, "args": 102, "t": 0})

        async def caller():
            try:
                r = await coro()
                ev({"ev": "return", "kind": "ok", "v": r, "t": _ms(loop, t0)})
            except asyncio.CancelledError:
                ev({"ev": "return", "kind": "cancelled", "v": 0, "t": _ms(loop, t0)})
            except BaseException as e:  # noqa: BLE001
                kind, v, _ = made.get(id(e), ("unknown:" + repr(e), 0, None))
                ev({"ev": "return", "kind": kind, "v": v, "t": _ms(loop, t0)})

        task = loop.create_task(caller())
        if script["cancel_at"] >= 0:
            await vloop.advance(script["cancel_at"] / 1000)
            if not task.done():
                ev({"ev": "cancel", "t": _ms(loop, t0)})
                task.cancel()
        await vloop.advance(1000)
        if not task.done():
            ev({"ev": "stuck"})
        over.append(1)

    vloop.run(main)


def retry_scripts(rng, n):
    out = []
    import itertools
    # exhaustive small: every outcome sequence of length <= 4 for tries 0..4 and each API
    for api in ("retry", "retryable", "retryable_request"):
        for tries in (0, 1, 2, 3, 4):
            for k in range(1, 4):
                for seq in itertools.product(["ok", "retry", "fatal"], repeat=k):
                    exc = "zigbee" if api == "retryable_request" else "a"
                    out.append({"api": api, "tries": tries, "delay": 500, "cancel_at": -1, "exc": exc,
                                "outcomes": [[o, 10] for o in seq] + [["retry", 0]] * 4})
    for seq in itertools.product(["ok", "retry", "fatal"], repeat=3):
        out.append({"api": "retry_default", "tries": 3, "delay": 100, "cancel_at": -1, "exc": "a",
                    "outcomes": [[o, 10] for o in seq] + [["retry", 0]] * 4})
    for _ in range(n):
        api = rng.choice(["retry", "retryable", "retryable_request"])
        out.append({"api": api, "tries": rng.choice([-1, 0, 1, 2, 3, 5, 8]),
                    "delay": rng.choice([0, 1, 100, 250, 2000]),
                    "cancel_at": rng.choice([-1, -1, -1, 0, 5, 15, 120, 300, 700]),
                    "exc": "zigbee" if api == "retryable_request" else rng.choice(["a", "two"]),
                    "outcomes": [[rng.choices(["ok", "retry", "fatal"], [1, 5, 1])[0], rng.choice([0, 0, 7, 100])]
                                 for _ in range(9)]})
    return out


def drive_combine(script, events):
    """ops: call c k style | finish i kind (i-th running op) | cancel c | tick | settle"""
    from zigpy import util

    over = []

    def ev(e):
        if not over:
            events.append(e)

    async def main():
        loop = asyncio.get_running_loop()
        n_ops = [0]
        running = {}

        class Boom(Exception):
            pass

        @util.combine_concurrent_calls
        async def work(a, b=0, *, c=5):
            n_ops[0] += 1
            n = n_ops[0]
            k = a * 100 + b * 10 + c
            fut = loop.create_future()
            running[n] = fut
            ev({"ev": "start", "n": n, "k": k})
            try:
                kind, v = await fut
            except asyncio.CancelledError:
                running.pop(n, None)
                ev({"ev": "abort", "n": n})
                raise
            if kind == "ok":
                return v
            raise Boom(v)

        callers = {}

        async def caller(c, style):
            try:
                if style == 0:
                    r = await work(1)
                elif style == 1:
                    r = await work(a=1, c=5)
                elif style == 2:
                    r = await work(1, 0, c=5)
                elif style == 3:
                    r = await work(2)
                elif style == 4:
                    r = await work(1, 1)
                else:
                    r = await work(1, c=6)
                ev({"ev": "return", "c": c, "kind": "ok", "v": r})
            except asyncio.CancelledError:
                if c not in cancelled:
                    ev({"ev": "return", "c": c, "kind": "cancelled_by_someone_else", "v": 0})
            except Boom as e:
                ev({"ev": "return", "c": c, "kind": "error", "v": e.args[0]})

        cancelled = set()
        keys = [105, 105, 105, 205, 115, 106]
        ser = 0
        for cmd in script:
            op = cmd[0]
            if op == "call":
                ser += 1
                c = ser
                ev({"ev": "call", "c": c, "k": keys[cmd[1]]})
                callers[c] = asyncio.eager_task_factory(loop, caller(c, cmd[1]))
            elif op == "finish":
                if running:
                    n = sorted(running)[cmd[1] % len(running)]
                    fut = running.pop(n)
                    if not fut.done():
                        v = 1000 + n
                        ev({"ev": "finish", "n": n, "kind": cmd[2], "v": v})
                        fut.set_result((cmd[2], v))
                    # the operation ends in the next loop iteration
                    await asyncio.sleep(0)
            elif op == "cancel":
                live = sorted(c for c, t in callers.items() if not t.done() and c not in cancelled)
                if live:
                    c = live[cmd[1] % len(live)]
                    # not when its operation has finished already
                    await vloop.settle()
                    if callers[c].done():
                        continue
                    cancelled.add(c)
                    ev({"ev": "cancel", "c": c})
                    callers[c].cancel()
            elif op == "tick":
                await asyncio.sleep(0)
            else:
                await vloop.settle()
                ev({"ev": "quiet"})
        for _ in range(40):
            await vloop.settle()
            ev({"ev": "quiet"})
            if not running:
                break
            n = sorted(running)[0]
            fut = running.pop(n)
            ev({"ev": "finish", "n": n, "kind": "ok", "v": 1000 + n})
            fut.set_result(("ok", 1000 + n))
        await vloop.settle()
        if any(not t.done() for t in callers.values()):
            ev({"ev": "stuck"})
        over.append(1)

    vloop.run(main)


def combine_script(rng, n):
    s = []
    for _ in range(n):
        op = rng.choices(["call", "finish", "cancel", "tick", "settle"], [5, 2, 2, 2, 2])[0]
        if op == "call":
            s.append(["call", rng.choice([0, 0, 0, 1, 2, 3, 4, 5])])
        elif op == "finish":
            s.append(["finish", rng.randrange(4), rng.choice(["ok", "ok", "error"])])
        elif op == "cancel":
            s.append(["cancel", rng.randrange(6)])
        else:
            s.append([op])
    return s


def check_c25(ctx):
    ctx.model_check("MC_Retry")
    ctx.model_check("MC_Combine")
    ctx.check_traces("retry", "Retry_Trace", drive_retry, retry_scripts(ctx.rng, ctx.n(600, 8000)))
    ctx.check_traces("combined calls", "Combine_Trace", drive_combine,
                     [combine_script(ctx.rng, ctx.rng.choice([4, 8, 16, 30])) for _ in range(ctx.n(600, 8000))])
