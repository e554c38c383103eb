"""C01, C03: requests to devices (matching, timeouts, turns, radio limit)."""
from __future__ import annotations

import asyncio
import struct

from . import stub, vloop

DEVS = {"a": (1, 0x1001), "b": (2, 0x1002), "c": (3, 0x1003)}


def reply_bytes(style, tsn, v):
    """A reply carrying v: (cluster, src_ep, dst_ep, profile, data)"""
    if style == "read":
        return 0x0000, 1, 1, 260, bytes([0x18, tsn, 0x01]) + b"\x01\x40\x00\x21" + struct.pack("<H", v)
    if style == "default":
        return 0x0006, 1, 1, 260, bytes([0x18, tsn, 0x0B, v & 0xFF, v >> 8 & 0x01])
    if style == "cluster":
        return 0x0003, 1, 1, 260, bytes([0x19, tsn, 0x00]) + struct.pack("<H", v)
    if style == "manuf":
        return 0x0000, 1, 1, 260, bytes([0x1C, 0x5F, 0x11, tsn, 0x01]) + b"\x01\x40\x00\x21" + struct.pack("<H", v)
    if style == "zdo":
        return 0x8006, 0, 0, 0, bytes([tsn, 0x00, 0x01, 0x10, 0x02, v & 0xFF, v >> 8])
    if style == "bad_read":
        return 0x0000, 1, 1, 260, bytes([0x18, tsn, 0x01]) + b"\x01\x40\x00\x21" + bytes([v & 0xFF])
    if style == "bad_cluster":
        return 0x0003, 1, 1, 260, bytes([0x19, tsn, 0x00, v & 0xFF])
    if style == "bad_zdo":
        return 0x8006, 0, 0, 0, bytes([tsn, 0x00, 0x01, 0x10, 0x05, v & 0xFF, v >> 8])
    # not replies
    if style == "cmd_report":
        return 0x0000, 1, 1, 260, bytes([0x10, tsn, 0x0A]) + b"\x01\x40\x21" + struct.pack("<H", v)
    if style == "cmd_cluster":
        return 0x0003, 1, 1, 260, bytes([0x11, tsn, 0x00]) + struct.pack("<H", v)
    if style == "cmd_zdo":
        return 0x0003, 0, 0, 0, bytes([tsn]) + struct.pack("<H", v)
    raise ValueError(style)


def value_of(style, result):
    if style in ("read", "manuf"):
        return int(result.status_records[0].value.value)
    if style == "default":
        return int(result.command_id) | (int(result.status) & 1) << 8
    if style == "cluster":
        return int(result.timeout)
    if style == "zdo":
        return int(result[2][0]) | int(result[2][1]) << 8
    raise ValueError(style)


def drive(script, events):
    """script = {cap, kinds, ops}; ops: ["req", d, tsn, prio, exp, tmo, api], ["sent", i, ok],
    ["recv", d, style, tsn|-1], ["cancel", i], ["adv", ms], ["settle"], ["kind", d, k]"""
    import zigpy.exceptions as ze
    import zigpy.config as conf

    over = []

    def ev(e):
        if not over:
            events.append(e)

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()

        def now():
            return round((loop.time() - t0) * 1000)

        app = stub.make_app(**{conf.CONF_MAX_CONCURRENT_REQUESTS: script["cap"]})
        devs = {}
        for d, k in script["kinds"].items():
            n, nwk = DEVS[d]
            devs[d] = stub.add_device(app, n, nwk, kind=None if k == "unknown" else k,
                                      eps={1: ([0, 3, 6], [])})
        ev({"ev": "init", "cap": script["cap"], "kinds": dict(script["kinds"])})
        by_nwk = {DEVS[d][1]: d for d in devs}
        air = {}

        class Boom(Exception):
            pass

        async def on_send(packet):
            data = packet.data.serialize()
            i = struct.unpack("<H", data[-2:])[0]
            try:
                ev({"ev": "handed", "id": i, "d": by_nwk.get(int(packet.dst.address), "?"),
                    "tsn": int(packet.tsn), "ext": bool(packet.extended_timeout), "t": now()})
                async with app._limit_concurrency(priority=packet.priority):
                    ev({"ev": "sending", "id": i, "t": now()})
                    f = air[i] = loop.create_future()
                    try:
                        kind = await f
                    finally:
                        air.pop(i, None)
                    if kind == "ok":
                        ev({"ev": "sent", "id": i, "t": now()})
                        return
                    v = i
                    ev({"ev": "send_failed", "id": i, "v": v, "t": now()})
                    if kind == "delivery":
                        raise ze.DeliveryError(str(v))
                    raise Boom(str(v))
            except asyncio.CancelledError:
                raise

        app.on_send = on_send
        tasks, styles = {}, {}
        cancelled = set()
        last_style = {}

        async def requester(i, d, tsn, prio, exp, tmo, api):
            data = bytes([0x00, tsn, 0x00]) + struct.pack("<H", i)
            dev = devs[d]
            try:
                kw = dict(profile=260, cluster=0, src_ep=1, dst_ep=1, sequence=tsn, data=data,
                          expect_reply=exp, timeout=tmo / 1000, priority=prio)
                r = await (dev.reply(**kw) if api == "reply" else dev.request(**kw))
                if not exp:
                    ev({"ev": "done", "id": i, "k": "sent", "v": 0 if r is None else 1, "t": now()})
                else:
                    ev({"ev": "done", "id": i, "k": "reply", "v": decode(r), "t": now()})
            except asyncio.CancelledError:
                ev({"ev": "done", "id": i, "k": "cancelled" if i in cancelled else "stray cancel", "v": 0, "t": now()})
            except asyncio.TimeoutError:
                ev({"ev": "done", "id": i, "k": "timeout", "v": 0, "t": now()})
            except ze.ParsingError:
                ev({"ev": "done", "id": i, "k": "parse_error", "v": 0, "t": now()})
            except (ze.DeliveryError, Boom) as e:
                ev({"ev": "done", "id": i, "k": "send_error", "v": int(e.args[0]), "t": now()})
            except Exception as e:  # noqa: BLE001
                ev({"ev": "done", "id": i, "k": "exception " + repr(e), "v": 0, "t": now()})

        def decode(r):
            if r is None:
                return -1
            if isinstance(r, (list, tuple)) and not hasattr(r, "_fields_assigned") and len(r) == 3:
                try:
                    return value_of("zdo", r)
                except Exception:  # noqa: BLE001
                    pass
            for s, a in (("read", "status_records"), ("default", "command_id"), ("cluster", "timeout")):
                if hasattr(r, a):
                    return value_of(s, r)
            return -2

        def quiet():
            ev({"ev": "quiet", "t": now(), "pending": {d: len(devs[d]._pending) for d in devs}})

        ser, val = 0, 0
        for op in script["ops"]:
            o = op[0]
            if o == "req":
                _, d, tsn, prio, exp, tmo, api = op
                ser += 1
                ev({"ev": "request", "id": ser, "d": d, "tsn": tsn, "prio": prio, "exp": exp, "tmo": tmo, "t": now()})
                tasks[ser] = asyncio.eager_task_factory(loop, requester(ser, d, tsn, prio, exp, tmo, api))
            elif o == "sent":
                live = sorted(i for i, f in air.items() if not f.done())
                if live:
                    air[live[op[1] % len(live)]].set_result(op[2])
                    if len(op) > 3:
                        await vloop.settle()
                    else:
                        await asyncio.sleep(0)
            elif o == "recv":
                _, d, style, tsn = op
                if tsn < 0:
                    # the sequence number of something pending at that device, else any
                    p = sorted(devs[d]._pending)
                    tsn = int(p[0]) if p else 1
                val += 1
                bad = style.startswith("bad")
                v = val if style != "default" else val % 256
                cl, sep, dep, prof, data = reply_bytes(style, tsn, v)
                if style.startswith("cmd"):
                    ev({"ev": "receive_other", "d": d, "tsn": tsn, "t": now()})
                else:
                    ev({"ev": "receive", "d": d, "tsn": tsn, "k": "parse_error" if bad else "reply",
                        "v": 0 if bad else v, "t": now()})
                pkt = stub.packet(DEVS[d][1], cl, data, src_ep=sep, dst_ep=dep, profile=prof, tsn=0)
                if devs[d].node_desc is None:
                    devs[d].packet_received(pkt)
                else:
                    app.packet_received(pkt)
            elif o == "cancel":
                live = sorted(i for i, t in tasks.items() if not t.done() and i not in cancelled)
                if live:
                    i = live[op[1] % len(live)]
                    if len(op) > 2:
                        await vloop.settle()
                        if tasks[i].done():
                            continue
                    cancelled.add(i)
                    ev({"ev": "cancel", "id": i, "t": now()})
                    tasks[i].cancel()
            elif o == "kind":
                _, d, k = op
                await vloop.settle()
                devs[d].node_desc = None if k == "unknown" else stub.node_desc(k)
                # the request in progress keeps what it has decided; keep the model simple
                if any(not t.done() for t in tasks.values()):
                    devs[d].node_desc = None if script["kinds"][d] == "unknown" else stub.node_desc(script["kinds"][d])
                    continue
                script["kinds"][d] = k
                ev({"ev": "describe", "d": d, "k": k, "t": now()})
            elif o == "adv":
                await vloop.advance(op[1] / 1000)
                quiet()
            elif o == "tick":
                await asyncio.sleep(0)
            elif o == "settle":
                await vloop.settle()
                quiet()
        await vloop.settle()
        quiet()
        # drain: everything is sent, nothing answers any more: all of it has to end
        for _ in range(400):
            if all(t.done() for t in tasks.values()):
                break
            live = sorted(i for i, f in air.items() if not f.done())
            for i in live:
                air[i].set_result("ok")
            await vloop.settle()
            quiet()
            if not air:
                await vloop.advance(7.001)
                quiet()
        if any(not t.done() for t in tasks.values()):
            ev({"ev": "stuck"})
        over.append(1)

    vloop.run(main)


STYLES = ["read", "default", "cluster", "manuf", "zdo"]
BAD = ["bad_read", "bad_cluster", "bad_zdo"]
OTHER = ["cmd_report", "cmd_cluster", "cmd_zdo"]


def random_script(rng, n, focus=None):
    nd = rng.choice([1, 2, 3])
    ds = list(DEVS)[:nd]
    kinds = {d: rng.choice(["router", "router", "end", "unknown"]) for d in ds}
    cap = rng.choice([1, 1, 2, 3, 8])
    tsns = rng.choice([[1, 2], [1, 2, 3, 4], [250, 251, 252], [0, 255]])
    pool = rng.choice([[0], [0, 1], [-1, 0, 1], [0, 0, 0, 5]])
    ops = []
    w = dict(req=5, sent=6, recv=6, cancel=1.5, adv=2.5, settle=2, tick=2, kind=0.6)
    if focus == "order":
        w.update(req=9, sent=5, recv=4, adv=1, cancel=2.5)
    for _ in range(n):
        o = rng.choices(list(w), list(w.values()))[0]
        if o == "req":
            ops.append(["req", rng.choice(ds), rng.choice(tsns), rng.choice(pool), rng.random() < 0.75,
                        rng.choice([700, 5000, 5000, 12345, 60000]), rng.choice(["request", "request", "reply"])])
        elif o == "sent":
            x = ["sent", rng.randrange(4), rng.choices(["ok", "delivery", "boom"], [7, 1.3, 0.7])[0]]
            ops.append(x + ([1] if rng.random() < 0.7 else []))
        elif o == "recv":
            st = rng.choice(STYLES) if rng.random() < 0.7 else rng.choice(BAD + OTHER)
            ops.append(["recv", rng.choice(ds), st, -1 if rng.random() < 0.6 else rng.choice(tsns)])
            if rng.random() < 0.6:
                ops.append(["settle"])
        elif o == "cancel":
            ops.append(["cancel", rng.randrange(6)] + ([1] if rng.random() < 0.5 else []))
        elif o == "kind":
            ops.append(["kind", rng.choice(ds), rng.choice(["router", "end", "unknown"])])
        elif o == "adv":
            ops.append(["adv", rng.choice([3, 301, 2003, 4999, 5003, 6007, 12349, 27997, 28001, 40009])])
        else:
            ops.append([o])
    return {"cap": cap, "kinds": kinds, "ops": ops}


def check_c01(ctx):
    ctx.model_check("MC_Requests")
    if not ctx.quick:
        ctx.model_check("MC_Requests", "MC_Requests_deep")
    ctx.check_traces("requests", "Requests_Trace", drive,
                     [random_script(ctx.rng, ctx.rng.choice([6, 12, 25, 50])) for _ in range(ctx.n(900, 12000))], dfs=False)


def check_c03(ctx):
    ctx.model_check("MC_Requests")
    if not ctx.quick:
        ctx.model_check("MC_Requests", "MC_Requests_deep")
    ctx.check_traces("turns", "Requests_Trace", drive,
                     [random_script(ctx.rng, ctx.rng.choice([10, 25, 50, 80]), "order") for _ in range(ctx.n(900, 12000))])
