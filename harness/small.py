"""C26 (counters, reschedulable timeout) and C31 (listener bus)."""
from __future__ import annotations

import asyncio

from . import stub, vloop

# ---------------------------------------------------------------------------------------------------
NAMES = ["a", "b", "c"]
TAGS = ["t", "u", "v"]


def drive_counters(script, events):
    from zigpy.state import Counter, CounterGroup, State

    state = State()
    if script["root"] == "state":
        root = getattr(state, script["coll"])
    else:
        root = None
    base = CounterGroup("g") if root is None else None

    def group(g):
        if root is not None:
            x = root[g[0]]
        else:
            x = base
        for tag in g[1:]:
            x = x.setdefault(tag, CounterGroup(tag))
        return x

    def walk(x, p, out):
        for k, v in dict.items(x):
            if isinstance(v, Counter):
                assert int(v) == v.value and v == v.value
                out.append({"p": [*p, k], "v": v.value, "n": v.reset_count})
            else:
                walk(v, [*p, k], out)

    def dump():
        out = []
        if root is not None:
            walk(root, [], out)
        else:
            walk(base, ["g"], out)
        events.append({"ev": "dump", "c": out})

    for op in script["ops"]:
        o, g, name = op[0], op[1], op[2]
        p = [*g, name]
        if o == "touch":
            events.append({"ev": "touch", "p": p})
            group(g)[name]
        elif o == "increment":
            n = op[3]
            if n < 0:
                events.append({"ev": "touch", "p": p})
                c = group(g)[name]
                try:
                    c.increment(n)
                except AssertionError:
                    events.append({"ev": "refused", "n": n})
            else:
                events.append({"ev": "increment", "p": p, "n": n})
                if n == 1 and op[4]:
                    group(g)[name].increment()
                else:
                    group(g)[name].increment(n)
        elif o == "update":
            events.append({"ev": "update", "p": p, "v": op[3]})
            group(g)[name].update(op[3])
        elif o == "reset":
            events.append({"ev": "reset", "p": p, "v": op[3]})
            c = group(g)[name]
            if op[3] == 0 and op[4]:
                c.reset()
            else:
                c.reset_and_update(op[3])
        elif o == "reset_group":
            x = group(g)
            events.append({"ev": "reset_group", "g": g})
            x.reset()
        elif o == "inc_tags":
            events.append({"ev": "inc_tags", "g": g, "name": name, "tags": op[3]})
            group(g).increment(name, *op[3])
        dump()


def counter_script(rng):
    root = rng.choice(["state", "plain"])
    tops = [["x"], ["y"]] if root == "state" else [["g"]]
    ops = []
    for _ in range(rng.choice([4, 10, 25])):
        g = list(rng.choice(tops))
        while rng.random() < 0.3 and len(g) < 3:
            g.append(rng.choice(TAGS))
        n = rng.choice(NAMES)
        o = rng.choices(["touch", "increment", "update", "reset", "reset_group", "inc_tags"], [1, 4, 6, 2, 1.5, 2])[0]
        v = rng.choice([0, 0, 1, 1, 2, 3, 5, 7, 100, 70000])
        if o == "increment" and rng.random() < 0.1:
            v = -1
        ops.append([o, g, n, [rng.choice(TAGS) for _ in range(rng.randrange(1, 4))] if o == "inc_tags" else v,
                    rng.random() < 0.5])
    return {"root": root, "coll": rng.choice(["counters", "broadcast_counters", "device_counters", "group_counters"]),
            "ops": ops}


# ---------------------------------------------------------------------------------------------------
def drive_timer(script, events):
    from zigpy.datastructures import ReschedulableTimeout

    over = []

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        depth = [0]

        def ev(e):
            if not over:
                e["t"] = round((loop.time() - t0) * 1000)
                events.append(e)

        again = list(script["again"])

        def fire():
            ev({"ev": "fire"})
            if again:
                d = again.pop(0)
                if d >= 0 and depth[0] < 20:
                    depth[0] += 1
                    ev({"ev": "reschedule", "d": d})
                    x.reschedule(d / 1000)
                elif d == -2:
                    ev({"ev": "cancel"})
                    x.cancel()

        x = ReschedulableTimeout(fire)
        for op in script["ops"]:
            if op[0] == "r":
                ev({"ev": "reschedule", "d": op[1]})
                x.reschedule(op[1] / 1000)
            elif op[0] == "c":
                ev({"ev": "cancel"})
                x.cancel()
            elif op[0] == "adv":
                await vloop.advance(op[1] / 1000)
                ev({"ev": "quiet"})
        await vloop.advance(1000)
        ev({"ev": "quiet"})
        over.append(1)

    vloop.run(main)


def timer_script(rng):
    ops = []
    for _ in range(rng.choice([3, 8, 20])):
        ops.append(rng.choice([["r", rng.choice([0, 1, 5, 10, 10, 30, 100])], ["adv", rng.choice([1, 4, 5, 7, 10, 12, 33])],
                               ["adv", rng.choice([2, 3, 9])], ["c"]] + [["r", rng.choice([5, 10])]]))
    return {"ops": ops, "again": [rng.choice([-1, -1, -2, 5, 10]) for _ in range(rng.choice([0, 0, 3]))]}


def check_c26(ctx):
    ctx.model_check("MC_Counters")
    ctx.model_check("MC_Timer")
    ctx.check_traces("counters", "Counters_Trace", drive_counters, [counter_script(ctx.rng) for _ in range(ctx.n(800, 12000))])
    ctx.check_traces("timer", "Timer_Trace", drive_timer, [timer_script(ctx.rng) for _ in range(ctx.n(1200, 20000))])


# ---------------------------------------------------------------------------------------------------
EMITTERS = ["app", "dev1", "dev2", "cluster1", "cluster2", "group1", "groups", "ep1", "zdo1"]
HANDLES = {li: {"e"} | ({"f"} if li != 2 else set()) | ({"g"} if li >= 3 else set()) for li in range(1, 7)}


def drive_bus(script, events):
    over = []

    def ev(e):
        if not over:
            events.append(e)

    async def main():
        app = stub.make_app()
        d1 = stub.add_device(app, 1, 0x1001, eps={1: ([0, 6], [])})
        d2 = stub.add_device(app, 2, 0x1002, eps={1: ([0, 6], [])})
        objs = {"app": app, "dev1": d1, "dev2": d2, "cluster1": d1.endpoints[1].in_clusters[0],
                "cluster2": d1.endpoints[1].in_clusters[6], "groups": app.groups,
                "group1": app.groups.add_group(5, "five", suppress_event=True), "ep1": d1.endpoints[1],
                "zdo1": d1.zdo}
        names = {id(v): k for k, v in objs.items()}
        plans = {tuple(k): list(v) for k, v in script["plans"]}
        budget = [40]
        lists = {}
        aid = [0]
        gates = {}

        def do(op):
            if op[0] == "add":
                _, o, li, ctx = op
                ev({"ev": "add", "o": o, "li": li, "ctx": ctx})
                (objs[o].add_context_listener if ctx else objs[o].add_listener)(lists[li])
            elif op[0] == "remove":
                ev({"ev": "remove", "o": op[1], "li": op[2]})
                objs[op[1]].remove_listener(lists[op[2]])
            elif op[0] == "emit":
                _, o, n, a = op
                ev({"ev": "emit", "o": o, "n": n, "a": a})
                res = objs[o].listener_event(n, *a)
                ev({"ev": "emitted", "res": list(res)})

        def handler(self_li, name, args):
            """what listener self_li does when called for event name"""
            li, ctx = self_li, "none"
            args = list(args)
            if args and id(args[0]) in names:
                ctx = names[id(args.pop(0))]
            ev({"ev": "call", "li": li, "ctx": ctx, "n": name, "a": args})
            plan = plans.get((li, name), [])
            step = plan.pop(0) if plan else []
            for op in step:
                if op[0] == "raise":
                    ev({"ev": "raised", "li": li})
                    raise [ValueError, KeyError, RuntimeError, asyncio.TimeoutError][op[1]]("planned")
                if budget[0] > 0:
                    budget[0] -= 1
                    do(op)
            budget[0] -= 1
            v = li * 1000 + (budget[0] % 1000 if budget[0] > 0 else 0)
            ev({"ev": "returned", "li": li, "v": v})
            return v

        class Listener:
            """handles only some events; two listeners are equal but not identical"""
            def __init__(self, li):
                self._li = li
                for n in HANDLES[li]:
                    if script["mode"] == "sync":
                        setattr(self, n, lambda *a, n=n: handler(self._li, n, a))

            def __eq__(self, other):
                return isinstance(other, Listener)

            __hash__ = None

        class AListener:
            def __init__(self, li):
                self._li = li
                for n in HANDLES[li]:
                    setattr(self, n, lambda *a, n=n: self.handle(n, a))

            async def handle(self, n, a):
                a = list(a)
                ctx = names[id(a.pop(0))] if a and id(a[0]) in names else "none"
                k = a.pop(0)
                ev({"ev": "acall", "k": k, "li": self._li, "ctx": ctx, "n": n, "a": a})
                g = gates[k]
                i = len(g) + 1
                g.append(asyncio.get_running_loop().create_future())
                kind, v = await g[i - 1]
                ev({"ev": "aend", "k": k, "i": i, "kind": kind, "v": v})
                if kind != "ok":
                    raise ValueError("planned")
                return v

        cls = Listener if script["mode"] == "sync" else AListener
        for li in range(1, 7):
            lists[li] = cls(li)
        tasks = []

        async def aemit(k, o, n, a):
            res = await objs[o].async_event(n, k, *a)
            ev({"ev": "aemitted", "k": k, "res": list(res)})

        for op in script["ops"]:
            if op[0] == "aemit":
                aid[0] += 1
                k = aid[0]
                gates[k] = []
                ev({"ev": "aemit", "k": k, "o": op[1], "n": op[2], "a": op[3]})
                tasks.append(asyncio.eager_task_factory(asyncio.get_running_loop(), aemit(k, *op[1:])))
                await vloop.settle()
            elif op[0] == "release":
                live = [f for g in gates.values() for f in g if not f.done()]
                if live:
                    live[op[1] % len(live)].set_result((op[2], op[1]))
                    await vloop.settle()
            else:
                do(op)
        while True:
            live = [f for g in gates.values() for f in g if not f.done()]
            if not live:
                break
            for f in live:
                f.set_result(("ok", 1))
            await vloop.settle()
        ev({"ev": "rest"})
        over.append(1)

    vloop.run(main)


def bus_script(rng, mode):
    os_ = rng.sample(EMITTERS, rng.choice([1, 2, 3]))

    def op(depth=0):
        o = rng.choices(["add", "remove", "emit"], [4, 2, 5] if depth == 0 else [2, 2, 1.2])[0]
        if o == "add":
            return ["add", rng.choice(os_), rng.randrange(1, 7), rng.random() < 0.4]
        if o == "remove":
            return ["remove", rng.choice(os_), rng.randrange(1, 7)]
        return ["emit", rng.choice(os_), rng.choice("eefg"), [rng.randrange(10) for _ in range(rng.randrange(3))]]

    ops = []
    for _ in range(rng.choice([6, 15, 40])):
        x = op()
        if mode == "async":
            if x[0] == "emit":
                x[0] = "aemit"
            if rng.random() < 0.4:
                x = ["release", rng.randrange(5), rng.choice(["ok", "ok", "err"])]
        ops.append(x)
    plans = []
    if mode == "sync":
        for li in range(1, 7):
            for n in "efg":
                steps = []
                for _ in range(rng.choice([0, 2, 5])):
                    s = [op(1) for _ in range(rng.choices([0, 1, 2], [4, 3, 1])[0])]
                    if rng.random() < 0.3:
                        s.append(["raise", rng.randrange(4)])
                    steps.append(s)
                plans.append([[li, n], steps])
    return {"mode": mode, "ops": ops, "plans": plans}


def check_c31(ctx):
    ctx.model_check("MC_Bus")
    ctx.check_traces("sync", "Bus_Trace", drive_bus, [bus_script(ctx.rng, "sync") for _ in range(ctx.n(700, 10000))])
    ctx.check_traces("async", "Bus_Trace", drive_bus, [bus_script(ctx.rng, "async") for _ in range(ctx.n(300, 4000))])
