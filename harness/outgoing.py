"""C30: packets sent by the coordinator (spec: Outgoing)."""
from __future__ import annotations

import asyncio
import contextvars
import resource
import struct

from . import stub, vloop

CUR = contextvars.ContextVar("call", default=None)
COORD = "c"
BC = {0xFFFF: "0xFFFF", 0xFFFD: "0xFFFD", 0xFFFC: "0xFFFC"}


def addr(a):
    import zigpy.types as t
    if a is None:
        return ["none", ""]
    if a.addr_mode == t.AddrMode.IEEE:
        return ["IEEE", str(a.address)]
    return [a.addr_mode.name, "0x%04X" % int(a.address)]


def flat(p):
    import zigpy.types as t
    n = lambda x: -1 if x is None else int(x)
    return {"src": addr(p.src), "dst": addr(p.dst), "sep": n(p.src_ep), "dep": n(p.dst_ep), "prof": n(p.profile_id), "cl": n(p.cluster_id),
            "tsn": n(p.tsn), "data": list(p.data.serialize()), "ext": bool(p.extended_timeout),
            "ack": p.tx_options == t.TransmitOptions.ACK, "radius": n(p.radius), "nmr": n(p.non_member_radius), "prio": int(p.priority),
            "route": [-1] if p.source_route is None else [int(x) for x in p.source_route]}


def drive(script, events):
    import zigpy.config as conf
    import zigpy.exceptions as ze
    import zigpy.types as t
    import zigpy.zcl.foundation as f
    import zigpy.zdo
    import zigpy.zdo.types as zt

    over = []

    def ev(e):
        if not over:
            events.append(e)

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()

        def now():
            return round((loop.time() - t0) * 1000)

        class OutApp(stub.App):
            reloads = 0

            async def permit_ncp(self, time_s=60):
                ev({"ev": "opened", "id": CUR.get(), "ms": int(time_s), "t": now()})

            async def load_network_info(self, *, load_devices=False):
                self.reloads += 1
                i = CUR.get()
                if self.reloads >= chan_after[0]:
                    self.state.network_info.channel = chan_to[0]
                ev({"ev": "reloaded", "id": i, "chan": int(self.state.network_info.channel), "t": now()})

        chan_after, chan_to = [1], [0]
        app = stub.make_app(OutApp, **{conf.CONF_SOURCE_ROUTING: script["sr"]})
        app.state.node_info.nwk = t.NWK(script["nwk"])
        app.state.network_info.channel = script["chan"]
        app.state.network_info.nwk_update_id = script["upd"]
        app._send_sequence = 0
        devs = {}
        eps = {1: ([0, 3, 6, 0x1000], [25, 10]), 2: ([3, 6], [25])}
        spec = {}
        for p in script["devs"]:
            d = devs[p["d"]] = stub.add_device(app, p["n"], p["nwk"], kind=None if p["desc"] == "none" else p["desc"], eps=eps)
            if p["d"] == COORD:
                app.devices.pop(d.ieee)
                d._ieee = stub.NCP_IEEE
                d.nwk = t.NWK(script["nwk"])
                app.devices[d.ieee] = d
            if p["zll"]:
                d.endpoints[1].profile_id = 0xC05E
                d.endpoints[2].profile_id = 0xC05E
            d.schedule_initialize = lambda: None
            d._relays = list(map(t.NWK, p["relays"])) if p["relays"] != [-1] else None
            spec[p["d"]] = {"nwk": "0x%04X" % d.nwk, "ieee": str(d.ieee), "desc": p["desc"], "relays": p["relays"], "zll": p["zll"]}
        ev({"ev": "init", "cfg": {"nwk": "0x%04X" % script["nwk"], "num": script["nwk"], "me": list(stub.NCP_IEEE.serialize()), "ieee": str(stub.NCP_IEEE), "sr": script["sr"], "chan": script["chan"],
                                  "upd": script["upd"]}, "dev": spec})
        # the counters are somewhere
        for d, n in script["seq0"].items():
            if d in devs:
                last = [devs[d].get_sequence() for _ in range(n)]
                ev({"ev": "number", "d": d, "k": n, "n": int(last[-1]) if last else 0, "t": 0})
            elif d == "app":
                last = [app.get_sequence() for _ in range(n)]
                ev({"ev": "number", "d": d, "k": n, "n": int(last[-1]) if last else 0, "t": 0})
        plans = list(script["plans"])
        tasks = []
        groups = {}
        done, expects = set(), {}  # answers only to calls that are waiting for one

        async def on_send(packet):
            i = CUR.get()
            plan = plans.pop(0) if plans else {"delay": 0, "ok": True, "reply": 0}
            ev({"ev": "sent", "id": i, "p": flat(packet), "t": now()})
            if plan["reply"] is not None and packet.dst.addr_mode in (t.AddrMode.NWK, t.AddrMode.IEEE):
                loop.call_later(plan["reply"] / 1000, reply, i, packet) if plan["reply"] else loop.call_soon(reply, i, packet)
            if plan["delay"]:
                await asyncio.sleep(plan["delay"] / 1000)
            ev({"ev": "radio", "id": i, "ok": plan["ok"], "t": now()})
            if not plan["ok"]:
                raise ze.DeliveryError("planned")

        app.on_send = on_send

        def reply(i, packet):
            if over:
                return
            dev = next(d for d in devs.values() if packet.dst.address in (d.ieee, d.nwk) or packet.dst == d.ieee) \
                if any(packet.dst.address in (d.ieee, d.nwk) for d in devs.values()) else None
            if dev is None or packet.cluster_id & 0x8000:
                return
            if i in done or not expects.get(i):
                return
            ev({"ev": "replied", "id": i, "t": now()})
            src = t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=dev.ieee)
            dst = t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0))
            if packet.profile_id == 0 and packet.dst_ep == 0:
                body = {0x05: b"\0\0\0", 0x38: struct.pack("<IHHB", 0x00001800, 0, 0, 2) + b"\x10\x20"}.get(packet.cluster_id, b"")
                data = bytes([packet.tsn]) + b"\x00" + body
                kw = {"src_ep": 0, "dst_ep": 0, "profile_id": 0, "cluster_id": packet.cluster_id | 0x8000}
            else:
                data = bytes([0x18, packet.tsn, 0x0B, i % 256, 0])
                kw = {"src_ep": packet.dst_ep, "dst_ep": packet.src_ep or 1, "profile_id": 260, "cluster_id": packet.cluster_id}
            app.packet_received(t.ZigbeePacket(src=src, dst=dst, data=t.SerializableBytes(data), **kw))

        def perform(i, kind, d, a):
            dev = devs.get(d)
            if kind == "app":
                return app.request(dev, a["prof"], a["cl"], a["sep"], a["dep"], a["tsn"], bytes(a["data"]), expect_reply=a["expect"],
                                   use_ieee=a["ieee"], extended_timeout=a["ext"], ask_for_ack=[False, True, None][a["ack"]], priority=a["prio"])
            opts = dict(expect_reply=a["expect"], use_ieee=a["ieee"], ask_for_ack=[False, True, None][a["ack"]],
                        priority=a["prio"], timeout=a["timeout"] / 1000) if "timeout" in a else {}
            if kind == "dev":
                return (dev.reply if a["rep"] else dev.request)(a["prof"], a["cl"], a["sep"], a["dep"], a["tsn"], bytes(a["data"]), **opts)
            if kind == "ep":
                ep = dev.endpoints[a["sep"]]
                return (ep.reply if a["rep"] else ep.request)(a["cl"], a["tsn"], bytes(a["data"]), command_id=a["cmd"], **opts)
            if kind in ("zcl", "bad"):
                ep = dev.endpoints[a["sep"]]
                cl = (ep.out_clusters if a["client"] else ep.in_clusters)[a["cl"]]
                if kind == "bad":
                    return cl.request(False, 0, cl.server_commands[0].schema, 70000)
                kw = dict(manufacturer=None if a["manuf"] == -1 else a["manuf"], tsn=None if a["tsn"] == -1 else a["tsn"], **opts)
                if a["style"] == "read":
                    return cl.request(True, f.GeneralCommand.Read_Attributes, f.GENERAL_COMMANDS[0].schema, a["args"], **kw)
                if a["style"] == "command":
                    return cl.command(a["cmd"], *a["args"], **kw)
                if a["style"] == "defrsp":
                    return cl.reply(True, f.GeneralCommand.Default_Response, f.GENERAL_COMMANDS[0x0B].schema, *a["args"], **kw)
                if a["style"] == "general":
                    return cl.general_command(a["cmd"], a["args"], **kw)
            if kind == "zdo":
                o = dict(opts)
                if a["tsn"] != -1:
                    o["tsn"] = a["tsn"]
                if a["cl"] == 0x36:
                    return dev.zdo.Mgmt_Permit_Joining_req(*a["body"], **o)
                if a["cl"] == 0x8036:
                    return dev.zdo.Mgmt_Permit_Joining_rsp(*a["body"], **o)
                if a["cl"] == 0x34:
                    return dev.zdo.leave(*a["args"])
                if a["cl"] == 0x21:
                    return dev.endpoints[a["ep"]].in_clusters[a["of"]].bind()
                if a["cl"] == 0x22:
                    return dev.endpoints[a["ep"]].in_clusters[a["of"]].unbind()
                if a["cl"] == 0x05:
                    return dev.zdo.Active_EP_req(t.NWK(a["of"]), **o)
            if kind == "mcast":
                return app.mrequest(int(a["addr"], 16), a["prof"], a["cl"], a["sep"], a["tsn"], bytes(a["data"]), hops=a["radius"],
                                    non_member_radius=a["nmr"], priority=a["prio"])
            if kind == "bcast":
                kw = {} if a["addr"] == "0xFFFD" else {"broadcast_address": t.BroadcastAddress(int(a["addr"], 16))}
                return app.broadcast(a["prof"], a["cl"], a["sep"], a["dep"], 0, a["radius"], a["tsn"], bytes(a["data"]), priority=a["prio"], **kw)
            if kind == "group":
                g = int(a["addr"], 16)
                if g not in groups:
                    groups[g] = app.groups.add_group(g, "g", suppress_event=True)
                return groups[g].endpoint[a["cl"]].command(a["cmd"], *a["args"])
            if kind == "zdobcast":
                return zigpy.zdo.broadcast(app, zt.ZDOCmd(a["cl"]), 0, a["radius"], *a["args"], broadcast_address=t.BroadcastAddress(int(a["addr"], 16)))
            if kind == "permit":
                node = {"all": None, "self": app.state.node_info.ieee, "unknown": stub.ieee(77)}.get(a["to"]) if a["to"] in ("all", "self", "unknown") else dev.ieee
                if node is not None and a["aslist"]:
                    node = list(node)
                return app.permit(a["time"], node=node)
            if kind == "channel":
                chan_to[0], chan_after[0] = a["chan"], a["after"]
                app.reloads = 0
                return app.move_network_to_channel(a["chan"], num_broadcasts=a["num"])
            if kind == "scan":
                return app.energy_scan(t.Channels.from_channel_list(a["chans"]), 2, 1)
            raise AssertionError(kind)

        async def call(i, kind, d, a):
            CUR.set(i)
            expects[i] = a.get("expect", kind in ("permit", "channel", "scan")) and kind != "app"
            rss = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
            try:
                r = await perform(i, kind, d, a)
                what = "ok"
                if a.get("expect") and kind in ("dev", "ep", "zcl"):
                    if int(r.command_id) != i % 256:
                        what = "reply to something else"
                if kind == "scan" and {int(k): int(v) for k, v in r.items()} not in (dict.fromkeys(a["chans"], 0), {11: 16, 12: 32}):
                    what = "wrong energy"
                if kind == "scan" and resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > rss + 200_000:
                    what = "out of memory"
                if kind in ("dev", "ep", "zcl") and not a["expect"] and r is not None:
                    what = "unexpected result"
            except asyncio.TimeoutError:
                what = "timeout"
            except ze.DeliveryError:
                what = "delivery"
            except ValueError:
                what = "error"
            done.add(i)
            ev({"ev": "result", "id": i, "what": what, "t": now()})

        i = 0
        for op in script["ops"]:
            if op[0] == "call":
                i += 1
                _, kind, d, a = op
                ev({"ev": "call", "id": i, "kind": kind, "d": d, "a": a, "t": now()})
                if kind == "asked":
                    tok = CUR.set(i)
                    app.packet_received(t.ZigbeePacket(
                        src=t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=devs[d].ieee), src_ep=0,
                        dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)), dst_ep=0, profile_id=0, cluster_id=a["rq"],
                        data=t.SerializableBytes(bytes([a["tsn"]] + a["ask"])), radius=i % 250))
                    CUR.reset(tok)
                else:
                    tasks.append(asyncio.eager_task_factory(loop, call(i, kind, d, a), context=contextvars.copy_context()))
            elif op[0] == "change":
                _, d, what, v = op
                if what == "nwk":
                    devs[d].nwk = t.NWK(v)
                elif what == "relays":
                    devs[d]._relays = None if v == [-1] else list(map(t.NWK, v))
                elif what == "desc":
                    devs[d].node_desc = None if v == "none" else stub.node_desc(v)
                elif what == "own":
                    app.state.node_info.nwk = t.NWK(v)
                ev({"ev": "changed", "d": d, "what": what, "num": v if what == "own" else 0, "v": "0x%04X" % v if what in ("nwk", "own") else v, "t": now()})
            elif op[0] == "settle":
                await vloop.settle()
                ev({"ev": "quiet", "t": now()})
            else:
                await vloop.advance(op[1] / 1000)
                ev({"ev": "quiet", "t": now()})
        await vloop.advance(400)
        ev({"ev": "quiet", "t": now()})
        over.append(1)

    vloop.run(main)
    return events


def le16(n):
    return [n % 256, n // 256]


def random_script(rng):
    devs = [{"d": x, "n": n + 1, "nwk": rng.choice([1, 0x1234, 0xFFF7, 0x8001]) + n, "desc": rng.choice(["router", "end", "none", "router"]),
             "zll": rng.random() < 0.3, "relays": rng.choice([[-1], [], [0x1111], [0x1111, 0x2222, 3]])} for n, x in enumerate("xyz")]
    devs.append({"d": COORD, "n": 9, "nwk": 0, "desc": rng.choice(["coordinator", "coordinator", "none"]), "zll": False, "relays": [-1]})
    names = [p["d"] for p in devs if p["d"] != COORD]
    plans = [{"delay": rng.choice([0, 0, 0, 100, 700]), "ok": rng.random() < 0.85, "reply": rng.choice([None, 0, 0, 50, 300, 4900, 5900, 27900, 28900])}
             for _ in range(60)]
    ops = []
    moving = False
    prio = lambda: rng.choice([-1, 0, 0, 0, 1, 2])
    for _ in range(rng.choice([1, 3, 8, 16])):
        kind = rng.choice(["app", "app", "dev", "dev", "ep", "ep", "zcl", "zcl", "zcl", "zcl", "zdo", "zdo", "zdo", "mcast", "bcast", "group", "group",
                           "zdobcast", "permit", "permit", "channel", "scan", "asked", "asked", "bad", "change", "change", "change"])
        d = rng.choice(names)
        exp = rng.random() < 0.6
        opt = {"expect": exp, "ieee": rng.random() < 0.3, "ack": rng.choice([-1, -1, 0, 1]), "prio": prio(), "timeout": rng.choice([5000, 5000, 1000, 8000])}
        data = [rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 8]))]
        sep = rng.choice([1, 2])
        if kind == "change":
            what = rng.choice(["nwk", "relays", "relays", "desc", "own"])
            v = {"nwk": rng.choice([0x2000, 0x7777]) + ord(d), "relays": rng.choice([[-1], [], [5, 6], [9]]),
                 "desc": rng.choice(["router", "end", "none"]), "own": rng.choice([0, 0, 0x4321])}[what]
            ops.append(["change", d, what, v])
            if rng.random() < 0.5:
                ops.append(["settle"])
            continue
        a = {}
        if kind == "app":
            a = {**opt, "prof": rng.choice([260, 0xC05E, 0]), "cl": rng.choice([0, 6, 0x1000, 0xFC00]), "sep": rng.choice([1, 2, 242]), "dep": rng.choice([1, 2, 255]),
                 "tsn": rng.randrange(256), "data": data, "ext": rng.random() < 0.5}
            a.pop("timeout")
        elif kind == "dev":
            a = {**opt, "prof": rng.choice([260, 0xC05E]), "cl": rng.choice([3, 6]), "sep": rng.choice([1, 2, 242]), "dep": sep, "tsn": rng.randrange(256),
                 "data": data, "rep": rng.random() < 0.3}
        elif kind == "ep":
            a = {**opt, "cl": rng.choice([3, 6, 0x1000]) if sep == 1 else 6, "sep": sep, "cmd": rng.choice([0, 0x3F, 0x40, 0x41]), "tsn": rng.randrange(256),
                 "data": data, "rep": rng.random() < 0.3}
        elif kind == "zcl":
            style = rng.choice(["read", "command", "command", "defrsp", "general"])
            client = style != "command" and rng.random() < 0.4
            a = {**opt, "sep": sep, "client": client, "manuf": rng.choice([-1, -1, 0x115F, 0, 255]), "tsn": rng.choice([-1, -1, -1, rng.randrange(256)]),
                 "style": style, "general": style != "command", "reply": style == "defrsp"}
            if style in ("read", "general"):
                ids = [rng.choice([0, 4, 0x4000, 0xFFFD]) for _ in range(rng.choice([1, 2]))]
                a.update(cl=25 if client else rng.choice([3, 6]), cmd=0, args=ids, payload=[b for x in ids for b in le16(x)])
            elif style == "defrsp":
                x, y = rng.choice([0, 7]), rng.choice([0, 0x81])
                a.update(cl=25 if client else rng.choice([3, 6]), cmd=11, args=[x, y], payload=[x, y])
            else:
                c = rng.choice([(3, 0, [300]), (6, 0, []), (6, 1, []), (6, 2, []), (6, 0x42, [1, 0x0203, 0x0405])])
                pl = {0: lambda x: le16(300) if c[0] == 3 else [], 0x42: lambda x: [1, 3, 2, 5, 4]}.get(c[1], lambda x: [])(0)
                a.update(cl=c[0], cmd=c[1], args=c[2], payload=pl)
            if a["reply"]:
                a["expect"] = False
        elif kind == "bad":
            a = {"sep": sep, "client": False, "cl": 3}
        elif kind == "zdo":
            cl = rng.choice([0x36, 0x8036, 0x34, 0x21, 0x22, 0x05])
            a = {**opt, "cl": cl, "tsn": -1}
            if cl == 0x36:
                a["body"] = [rng.choice([0, 60, 254]), rng.choice([0, 1])]
            elif cl == 0x8036:
                a.update(body=[0], expect=False, tsn=rng.choice([-1, 0, 77, 255]))
            elif cl == 0x05:
                of = rng.choice([0, 0x1234])
                a.update(of=of, body=le16(of))
            else:
                a.update(expect=True, ieee=False, ack=-1, prio=0, timeout=5000)
                n = "xyz".index(d) + 1
                own = [n, 0, 0, 0, 0, 0x6F, 0x0D, 0]
                if cl == 0x34:
                    args = [rng.random() < 0.5, rng.random() < 0.5]
                    a.update(args=args, body=own + [64 * args[0] + 128 * args[1]])
                else:
                    e = rng.choice([1, 2])
                    of = rng.choice([3, 6])
                    a.update(ep=e, of=of, body=own + [e] + le16(of) + [3] + [0xEF, 0xBE, 0x44, 0x33, 0xBB, 0x22, 0x11, 0xAA] + [1])
        elif kind == "mcast":
            a = {"addr": rng.choice(["0x0001", "0xABCD"]), "sep": rng.choice([1, 2]), "prof": rng.choice([260, 0xC05E]), "cl": rng.choice([3, 6]), "tsn": rng.randrange(256), "data": data,
                 "radius": rng.choice([0, 5, 30]), "nmr": rng.choice([3, 0, 7]), "prio": prio()}
        elif kind == "bcast":
            a = {"addr": rng.choice(["0xFFFD", "0xFFFC", "0xFFFF"]), "sep": rng.choice([1, 0]), "dep": rng.choice([1, 255, 0]), "prof": rng.choice([0, 260]), "cl": rng.choice([3, 6]),
                 "tsn": rng.randrange(256), "data": data, "radius": rng.choice([0, 5, 30]), "prio": prio()}
        elif kind == "group":
            c = rng.choice([(3, 0, [300], le16(300)), (6, 1, [], []), (6, 2, [], [])])
            a = {"addr": rng.choice(["0x0001", "0xABCD"]), "cl": c[0], "cmd": c[1], "args": c[2], "payload": c[3], "general": False, "manuf": -1, "client": False}
        elif kind == "zdobcast":
            x = [rng.choice([0, 60]), rng.choice([0, 1])]
            a = {"cl": 0x36, "args": x, "body": x, "addr": rng.choice(["0xFFFD", "0xFFFC", "0xFFFF"]), "radius": rng.choice([0, 9])}
        elif kind == "permit":
            to = rng.choice(["all", "all", "self", "unknown", "dev", "dev"])
            a = {"to": to, "time": rng.choice([0, 60, 254]), "aslist": rng.random() < 0.3}
        elif kind == "channel":
            if moving:
                continue
            moving, d = True, COORD
            a = {"chan": rng.randrange(11, 27), "num": rng.choice([5, 5, 1, 2]), "after": rng.choice([1, 1, 2, 4])}
        elif kind == "scan":
            if moving:
                continue
            d = COORD
            chans = rng.choice([[11, 12, 20], list(range(11, 27)), [15]])
            m = sum(1 << c for c in chans)
            a = {"chans": chans, "body": list(m.to_bytes(4, "little")) + [2, 1]}
        elif kind == "asked":
            q = rng.choice(["nwk", "ieee", "match"])
            tsn = rng.randrange(256)
            own = [0xEF, 0xBE, 0x44, 0x33, 0xBB, 0x22, 0x11, 0xAA]
            a = {"tsn": tsn, "q": q}
            if q == "nwk":
                hit = rng.random() < 0.6
                a.update(rq=0, cl=0x8000, ask=(own if hit else [1] + own[1:]) + [rng.choice([0, 1]), 0], prio=-1)
            elif q == "ieee":
                x = rng.choice([0x0000, 0xFFFD, 0xFFFF, 0xFFFC, 0x1234])
                a.update(rq=1, cl=0x8001, ask=le16(x) + [0, 0], prio=-1)
            else:
                x = rng.choice([260, 260, 0xC05E, 0])
                a.update(rq=6, cl=0x8006, ask=le16(rng.choice([0, 0xFFFD])) + le16(x) + [1, 25, 0, 0], prio=1)
        ops.append(["call", kind, d, a])
        if rng.random() < 0.4:
            ops.append(["settle"])
        if rng.random() < 0.25:
            ops.append(["adv", rng.choice([1, 99, 300, 999, 5000, 28000])])
    return {"devs": devs, "sr": rng.random() < 0.6, "nwk": 0, "chan": rng.choice([11, 15, 20, 25]), "upd": rng.choice([0, 1, 253, 254, 255]),
            "seq0": {rng.choice(["x", "y", "app"]): rng.choice([0, 253, 255])}, "plans": plans, "ops": ops}


def check_c30(ctx):
    ctx.model_check("MC_Outgoing")
    if not ctx.quick:
        ctx.model_check("MC_Outgoing", "MC_Outgoing_deep")
    ctx.check_traces("calls", "Outgoing_Trace", drive, [random_script(ctx.rng) for _ in range(ctx.n(1500, 20000))])
