"""C18, C19: topology scans (spec: Topology)."""
from __future__ import annotations

import asyncio
import contextvars
import struct

from . import stub, vloop


def drive(script, events):
    import zigpy.exceptions as ze
    import zigpy.topology
    import zigpy.types as t

    over = []

    def ev(e):
        if not over:
            events.append(e)

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()

        def now():
            return round((loop.time() - t0) * 1000)

        gap = script["gap"]
        zigpy.topology.REQUEST_DELAY = (gap / 1000, gap / 1000)
        app = stub.make_app(topology_scan_skip_coordinator=script["skip"])
        ev({"ev": "init", "conf": {"gap": gap, "skip": script["skip"]}})

        def nm(ieee):
            b = ieee.serialize()
            return "zero" if b == bytes(8) else "ones" if b == b"\xff" * 8 else "c" if ieee == stub.NCP_IEEE else f"n{b[0]}"

        def addr(n):
            return {"zero": t.EUI64(b"\0" * 8), "ones": t.EUI64(b"\xff" * 8), "c": stub.NCP_IEEE}.get(n) or stub.ieee(int(n[1:]))

        def add(n, nwk, kind):
            if n == "c":
                d = app.add_device(stub.NCP_IEEE, t.NWK(0))
                d.node_desc = stub.node_desc("coordinator")
                d.schedule_initialize = lambda: None
            else:
                d = stub.add_device(app, int(n[1:]), nwk, kind=None if kind == "unknown" else kind)
            ev({"ev": "device", "d": {"n": n, "nwk": nwk, "kind": kind}, "t": now()})

        def tab_nb(rows):
            return [{"n": nm(r.ieee), "nwk": int(r.nwk), "dt": int(r.device_type), "rx": int(r.rx_on_when_idle), "rel": int(r.relationship),
                     "pj": int(r.permit_joining), "depth": int(r.depth), "lqi": int(r.lqi)} for r in rows]

        def tab_rt(rows):
            return [{"dst": int(r.DstNWK), "hop": int(r.NextHop), "st": int(r.RouteStatus), "mc": int(r.MemoryConstrained), "mto": int(r.ManyToOne),
                     "rrr": int(r.RouteRecordRequired)} for r in rows]

        class L:
            def neighbors_updated(self, ieee, rows):
                ev({"ev": "told", "tab": "nb", "n": nm(ieee), "table": tab_nb(rows), "t": now()})

            def routes_updated(self, ieee, rows):
                ev({"ev": "told", "tab": "rt", "n": nm(ieee), "table": tab_rt(rows), "t": now()})

        topo = app.topology
        topo.add_listener(L())
        plans = list(script["plans"])
        n_ask = [0]
        tables = script["tables"]

        def enc_nb(e):
            return bytes(8) + addr(e["n"]).serialize() + struct.pack("<HBBBB", e["nwk"], e["dt"] | e["rx"] << 2 | e["rel"] << 4, e["pj"], e["depth"], e["lqi"])

        def enc_rt(e):
            return struct.pack("<HBH", e["dst"], e["st"] | e["mc"] << 3 | e["mto"] << 4 | e["rrr"] << 5, e["hop"])

        async def on_send(packet):
            data = packet.data.serialize()
            cl = int(packet.cluster_id)
            n_ask[0] += 1
            i = n_ask[0]
            plan = plans.pop(0) if plans else {"kind": "ok", "delay": 0, "reply": 0, "page": 3}
            if packet.dst.addr_mode == t.AddrMode.Broadcast:
                ok = cl == 1 and packet.dst_ep == 0
                ev({"ev": "find" if ok else "?", "id": i, "nwk": struct.unpack("<H", data[1:3])[0], "t": now()})
                if plan["delay"]:
                    await asyncio.sleep(plan["delay"] / 1000)
                bad = plan["kind"] == "fail"
                ev({"ev": "radio", "find": True, "id": i, "ok": not bad, "t": now()})
                if bad:
                    raise ze.DeliveryError("planned")
                return
            dev = next((d for d in keep.values() if d.nwk == packet.dst.address), None)
            n = nm(dev.ieee) if dev is not None else "?"
            tab = {0x31: "nb", 0x32: "rt"}.get(cl, "?")
            idx = data[1]
            ev({"ev": "ask", "id": i, "n": n, "tab": tab, "idx": idx, "t": now()})
            kind = plan["kind"]
            whole = tables.get(n, {"nb": [], "rt": []})[tab]
            part = whole[idx:idx + plan["page"]]
            a, body = None, b""
            if kind in ("ok", "short", "long"):
                total = len(whole) + {"ok": 0, "short": -1, "long": 1}[kind]
                total = max(total, 0)
                a = {"kind": "page", "entries": total, "list": part}
                body = bytes([0, total, idx, len(part)]) + b"".join((enc_nb if tab == "nb" else enc_rt)(e) for e in part)
            elif kind == "refused":
                a, body = {"kind": "refused", "entries": 0, "list": []}, bytes([0x84]) + (b"\x00\x00\x00" if plan["page"] == 1 else b"")
            elif kind == "bare":
                a, body = {"kind": "bare", "entries": 0, "list": []}, b"\x00"
            elif kind == "bad":
                a, body = {"kind": "bad", "entries": 0, "list": []}, b""

            def reply():
                if app.devices.get(dev.ieee) is not dev:
                    return
                ev({"ev": "answer", "id": i, "a": a, "t": now()})
                app.packet_received(t.ZigbeePacket(
                    src=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=dev.nwk), src_ep=0, dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)),
                    dst_ep=0, profile_id=0, cluster_id=cl | 0x8000, data=t.SerializableBytes(data[:1] + body)))

            if a is not None:
                loop.call_later(plan["reply"] / 1000, reply) if plan["reply"] else loop.call_soon(reply)
            if plan["delay"]:
                await asyncio.sleep(plan["delay"] / 1000)
            ev({"ev": "radio", "find": False, "id": i, "ok": kind != "fail", "t": now()})
            if kind == "fail":
                raise ze.DeliveryError("planned")

        app.on_send = on_send
        keep = {}
        for d in script["devices"]:
            add(*d)
            keep[d[0]] = app.devices[addr(d[0])]
        tasks = {}

        async def call(i, devices):
            out = "ok"
            try:
                await topo.scan(devices)
            except asyncio.CancelledError:
                out = "CancelledError"
            except ze.DeliveryError:
                out = "DeliveryError"
            ev({"ev": "result", "id": i, "out": out, "t": now()})

        def obs():
            ev({"ev": "obs", "t": now(), "nb": {nm(k): tab_nb(v) for k, v in topo.neighbors.items()}, "rt": {nm(k): tab_rt(v) for k, v in topo.routes.items()}})

        i = 0
        for op in script["ops"]:
            k = op[0]
            if k == "scan":
                i += 1
                lst = None if op[1] is None else [n for n in op[1] if addr(n) in app.devices]
                ev({"ev": "scan", "id": i, "given": lst is not None, "list": lst or [], "t": now()})
                tasks[i] = asyncio.eager_task_factory(loop, call(i, None if lst is None else [app.devices[addr(n)] for n in lst]), context=contextvars.copy_context())
            elif k == "cancel":
                if i and not tasks[i].done():
                    ev({"ev": "cancel", "id": i, "t": now()})
                    tasks[i].cancel()
                    if op[-1] != "hurry":
                        await vloop.settle()
            elif k == "start":
                ev({"ev": "start", "period": op[1] * 1000, "t": now()})
                topo.start_periodic_scans(op[1])
                if op[-1] != "hurry":
                    await vloop.settle()
            elif k == "stop":
                ev({"ev": "stop", "t": now()})
                topo.stop_periodic_scans()
                if op[-1] != "hurry":
                    await vloop.settle()
            elif k == "add":
                if op[1] not in keep:
                    add(*op[1:])
                    keep[op[1]] = app.devices[addr(op[1])]
            elif k == "gone":
                if addr(op[1]) in app.devices:
                    ev({"ev": "gone", "n": op[1], "t": now()})
                    del app.devices[addr(op[1])]
            elif k == "adv":
                await vloop.advance(op[1] / 1000)
                obs()
            else:
                await vloop.settle()
        await vloop.advance(30)
        obs()
        ev({"ev": "stop", "t": now()})
        topo.stop_periodic_scans()
        await vloop.settle()
        obs()
        await vloop.advance(200)
        obs()
        over.append(1)

    try:
        old = None
        import zigpy.topology as zt
        old = getattr(zt, "REQUEST_DELAY", None)
        vloop.run(main)
    finally:
        if old is not None:
            zt.REQUEST_DELAY = old
    return events


def random_script(rng, focus):
    skip = rng.random() < 0.4
    devices = [("c", 0, "coordinator")] if skip or rng.random() < 0.5 else []
    for n in rng.sample([1, 2, 3], rng.choice([0, 1, 1, 2, 2, 3])):
        devices.append((f"n{n}", 0x1000 + n, rng.choice(["router", "router", "router", "end", "unknown"])))
    rng.shuffle(devices)
    names = ["n1", "n2", "n3", "n7", "n8", "zero", "ones"]

    def row_nb():
        n = rng.choice(names)
        return {"n": n, "nwk": rng.choice([0x1001, 0x1002, 0x1003, 0x2007, 0x2008, 0]) if rng.random() < 0.6 else 0x1001, "dt": rng.randrange(3), "rx": rng.randrange(3),
                "rel": rng.randrange(5), "pj": rng.randrange(3), "depth": rng.randrange(16), "lqi": rng.randrange(256)}

    def row_rt():
        return {"dst": rng.choice([0x1001, 0x1002, 0x3001, 0x3002, 0]), "hop": rng.choice([0x1001, 0x1003, 0x3003]), "st": rng.choice([0, 0, 1, 2, 3, 3, 4]),
                "mc": rng.randrange(2), "mto": rng.randrange(2), "rrr": rng.randrange(2)}

    tables = {d[0]: {"nb": [row_nb() for _ in range(rng.choice([0, 1, 2, 3, 5, 7]))], "rt": [row_rt() for _ in range(rng.choice([0, 1, 3, 4, 9]))]}
              for d in devices + [("n3", 0, "")]}
    bad = rng.choice([0, 0.1, 0.3, 0.7])
    plans = []
    for _ in range(80):
        kind = "ok" if rng.random() >= bad else rng.choice(["fail", "fail", "none", "none", "bad", "refused", "bare", "short", "long"])
        plans.append({"kind": kind, "delay": rng.choice([0, 0, 0, 100, 700]), "reply": rng.choice([0, 0, 50, 300, 4000, 5300]) if rng.random() < 0.5 else 0, "page": rng.choice([1, 2, 3, 3, 4])})
    ops = []
    for _ in range(rng.choice([2, 4, 8, 12])):
        k = rng.choice(["scan"] * 5 + (["start", "stop", "cancel", "start", "stop"] if focus == "times" else ["start"]) + ["add", "gone"])
        if k == "scan":
            ops.append([k, None if rng.random() < 0.7 else rng.sample([d[0] for d in devices], rng.randrange(len(devices) + 1))])
        elif k == "start":
            ops.append([k, rng.choice([5, 20, 61])])
        elif k == "add":
            n = rng.choice([1, 2, 3])
            ops.append([k, f"n{n}", 0x1000 + n, rng.choice(["router", "end"])])
        elif k == "gone":
            ops.append([k, rng.choice(["n1", "n2", "n3"])])
        else:
            ops.append([k])
        if k in ("start", "stop", "cancel") and rng.random() < 0.4:
            ops[-1].append("hurry")     # the event loop does not get to run in between
            if k == "start" and rng.random() < 0.5:
                ops.append(["stop"])
        r = rng.random()
        if r < 0.6:
            ops.append(["adv", rng.choice([100, 1000, 1250, 2000, 3100, 7000, 20000, 65000])])
        elif r < 0.8:
            ops.append(["settle"])
    return {"skip": skip, "gap": rng.choice([1000, 1250, 1500]), "devices": devices, "tables": tables, "plans": plans, "ops": ops}


def tables_script(rng):
    return random_script(rng, "tables")


def times_script(rng):
    return random_script(rng, "times")


def check_c18(ctx):
    ctx.model_check("MC_Topology")
    if not ctx.quick:
        ctx.model_check("MC_Topology", "MC_Topology_deep")
    ctx.check_traces("tables", "Topology_Trace", drive, [tables_script(ctx.rng) for _ in range(ctx.n(1200, 20000))])


def check_c19(ctx):
    ctx.model_check("MC_Topology")
    if not ctx.quick:
        ctx.model_check("MC_Topology", "MC_Topology_deep")
    ctx.check_traces("times", "Topology_Trace", drive, [times_script(ctx.rng) for _ in range(ctx.n(1500, 25000))])
