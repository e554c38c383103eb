"""C02: the priority limiter (datastructures.PriorityDynamicBoundedSemaphore, PriorityLock)."""
from __future__ import annotations

import asyncio

from . import vloop


def drive(script, events):
    """Run a script of calls against the real limiter.

    Ops: init cap | lock | acq t prio | acqc t prio (cancel scope: `async with`) | cancel t | rel t |
    over (one release too many) | resize n | tick (one loop iteration) | settle
    """
    from zigpy.datastructures import PriorityDynamicBoundedSemaphore, PriorityLock

    over = []

    def ev(e):
        if not over:
            events.append(e)

    async def main():
        loop = asyncio.get_running_loop()
        first = script[0]
        lock = first["op"] == "lock"
        sem = PriorityLock() if lock else PriorityDynamicBoundedSemaphore(first["a"])
        ev({"ev": "init", "cap": 1 if lock else first["a"]})
        tasks, hold, waits, gates = {}, set(), set(), {}

        async def acquirer(t, p, style):
            try:
                if style == "with":
                    gates[t] = loop.create_future()
                    cm = sem if p == 0 else sem(priority=p)
                    async with cm:
                        got(t)
                        await gates[t]
                        # leaving the block releases
                        hold.discard(t)
                        ev({"ev": "release", "t": t})
                    return
                await (sem.acquire() if p == 0 else sem.acquire(priority=p))
                got(t)
            except asyncio.CancelledError:
                waits.discard(t)
                ev({"ev": "cancelled", "t": t})

        def got(t):
            ev({"ev": "acquired", "t": t})
            waits.discard(t)
            hold.add(t)

        def quiet():
            ev({"ev": "quiet", "value": sem.value, "max": sem.max_value, "waiting": sem.num_waiting,
                "locked": bool(sem.locked())})
            repr(sem)

        async def tick():
            await asyncio.sleep(0)

        for c in script[1:]:
            op, a, b = c["op"], c["a"], c["b"]
            if op in ("acq", "with"):
                if a in waits or a in hold or (a in tasks and not tasks[a].done()):
                    continue
                waits.add(a)
                co = acquirer(a, b, op)
                # the call happens now, up to its first suspension
                ev({"ev": "acquire", "t": a, "p": b})
                tasks[a] = asyncio.eager_task_factory(loop, co)
            elif op == "cancel":
                t = tasks.get(a)
                if t is None or t.done() or a in hold or a not in waits:
                    continue
                waits.discard(a)
                t.cancel()
                ev({"ev": "cancel", "t": a})
            elif op == "rel":
                if a not in hold:
                    continue
                if a in gates:
                    if not gates[a].done():
                        gates[a].set_result(None)
                    continue
                hold.discard(a)
                ev({"ev": "release", "t": a})
                sem.release()
            elif op == "over":
                if hold or waits:
                    continue
                try:
                    sem.release()
                except ValueError:
                    ev({"ev": "release_refused"})
                else:
                    ev({"ev": "release_accepted"})
            elif op == "resize":
                try:
                    sem.max_value = a
                except ValueError:
                    ev({"ev": "resize_refused", "n": a, "lock": lock})
                else:
                    ev({"ev": "resize", "n": a})
            elif op == "tick":
                await tick()
            elif op == "settle":
                await vloop.settle()
                quiet()
        await vloop.settle()
        quiet()
        # everybody leaves: whoever still waits must get its turn
        for _ in range(30):
            if not hold:
                break
            for t in sorted(hold):
                if t in gates:
                    if not gates[t].done():
                        gates[t].set_result(None)
                else:
                    hold.discard(t)
                    ev({"ev": "release", "t": t})
                    sem.release()
            await vloop.settle()
            quiet()
        over.append(1)

    vloop.run(main)


def random_script(rng, tasks=10, n=60):
    s = [{"op": "lock", "a": 1, "b": 0}] if rng.random() < 0.25 else \
        [{"op": "init", "a": rng.choice([0, 1, 1, 2, 3, 5]), "b": 0}]
    style = rng.choice(["acq", "with", "mix"])
    for _ in range(n):
        op = rng.choices(["acq", "cancel", "rel", "resize", "tick", "settle", "over"],
                         [6, 2.5, 5, 1.2, 4, 1, 0.5])[0]
        if op == "acq":
            o = rng.choice(["acq", "with"]) if style == "mix" else style
            s.append({"op": o, "a": rng.randrange(1, tasks + 1),
                      "b": rng.choice([0, 0, 0, 1, 5, -1, -10])})
        elif op in ("cancel", "rel"):
            s.append({"op": op, "a": rng.randrange(1, tasks + 1), "b": 0})
        elif op == "resize":
            s.append({"op": op, "a": rng.choice([-1, 0, 1, 2, 3, 4, 8]), "b": 0})
        else:
            s.append({"op": op, "a": 0, "b": 0})
    return s


def check(ctx):
    ctx.model_check("MC_Limiter")
    gen = ctx.generate("Gen_Limiter", "Gen_Limiter" if ctx.quick else "Gen_Limiter_deep")
    seen, scripts = set(), []
    for s in gen:
        k = str(s)
        if k not in seen:
            seen.add(k)
            scripts.append(s)
    # exhaustive up to the depth; longer ones sampled
    short = scripts
    if ctx.quick and len(short) > 9000:
        short = ctx.rng.sample(short, 9000)
    ctx.check_traces("scripts generated by TLC", "Limiter_Trace", drive, short)
    rnd = [random_script(ctx.rng, ctx.rng.choice([3, 5, 10]), ctx.rng.choice([20, 60, 120]))
           for _ in range(ctx.n(600, 6000))]
    ctx.check_traces("random histories", "Limiter_Trace", drive, rnd)
    ctx.assumptions += ["acquire() runs to its first suspension when awaited (asyncio semantics)"]
