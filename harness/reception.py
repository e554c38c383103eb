"""C04 (duplicates), C05 (response listeners), C06 (reception never fails), C07 (gating)."""
from __future__ import annotations

import asyncio
import contextlib
import struct
from datetime import datetime, timezone

from . import stub, vloop

DEVS = {"a": (1, 0x1001), "b": (2, 0x1002), "c": (3, 0x1003), "e": (4, 0x1004), "z": (5, 0x1005)}
KINDS = {
    "a": dict(kind="router", eps={1: ([0, 3, 6, 4], [25]), 2: ([6], [3])}, ready=True),
    "b": dict(kind=None, eps={}, ready=False),
    "c": dict(kind="router", eps={1: ([0, 6], []), 2: ([6], [3])}, ready=False),
    "e": dict(kind=None, eps={1: ([0, 3, 6], [])}, ready=True),
    "z": dict(kind="end", eps={1: ([0, 3, 6], [5]), 242: ([], [33])}, ready=True),
}
FULL = [{"ep": 1, "cl": [0, 6]}]

# style -> (is zdo, cluster (None: any), reply, body)
STYLES = {
    "ident": (False, 3, False, "ok"), "on": (False, 6, False, "ok"), "off": (False, 6, False, "ok"),
    "report": (False, None, False, "ok"), "report_s": (False, None, False, "ok"),
    "rdrsp": (False, None, True, "ok"), "defrsp": (False, None, True, "ok"),
    "rawgen": (False, None, False, "raw"), "rawgen_r": (False, None, True, "raw"),
    "rawcl": (False, None, False, "raw"), "rawcl_r": (False, None, True, "raw"),
    "badrep": (False, None, False, "bad"), "badrd": (False, None, True, "bad"),
    "badident": (False, 3, False, "bad"),
    "aep": (True, 0x8005, True, "ok"), "permit": (True, 0x0036, False, "ok"), "udesc": (True, 0x0014, False, "ok"),
    "match": (True, 0x0006, False, "ok"), "badzdo": (True, 0x0036, False, "bad"), "badaep": (True, 0x8005, True, "bad"),
    "unkzdo": (True, 0x0777, False, "bad"), "unkzdo_r": (True, 0x8777, True, "bad"),
    "manuf": (False, 6, False, "raw"),
}


def payload(style, tsn, v):
    le = struct.pack("<H", v)
    if style == "ident":
        return bytes([0x01, tsn, 0x00]) + le
    if style in ("on", "off"):
        return bytes([0x11, tsn, 1 if style == "on" else 0])
    if style in ("report", "report_s"):
        return bytes([0x10 if style == "report" else 0x18, tsn, 0x0A, 0x01, 0x40, 0x21]) + le
    if style == "rdrsp":
        return bytes([0x18, tsn, 0x01, 0x01, 0x40, 0x00, 0x21]) + le
    if style == "defrsp":
        return bytes([0x18, tsn, 0x0B, v & 0xFF, v >> 8 & 1])
    if style == "rawgen":
        return bytes([0x10, tsn, 0x77]) + le
    if style == "rawgen_r":
        return bytes([0x18, tsn, 0x77]) + le
    if style == "rawcl":
        return bytes([0x11, tsn, 0xEE]) + le
    if style == "rawcl_r":
        return bytes([0x19, tsn, 0xEE]) + le
    if style == "badrep":
        return bytes([0x10, tsn, 0x0A, 0x01, 0x40, 0x21, v & 0xFF])
    if style == "badrd":
        return bytes([0x18, tsn, 0x01, 0x01, 0x40, 0x00, 0x21, v & 0xFF])
    if style == "badident":
        return bytes([0x01, tsn, 0x00, v & 0xFF])
    if style == "aep":
        return bytes([tsn, 0x00, 0x01, 0x10, 2, v & 0xFF, v >> 8])
    if style == "permit":
        return bytes([tsn, v & 0xFF, 0])
    if style == "udesc":
        return bytes([tsn, 0, 0]) + bytes(range(16))
    if style == "match":
        return bytes([tsn, 0, 0, 0x04, 0x01, 1, 6, 0, 0])
    if style == "badzdo":
        return bytes([tsn, v & 0xFF])
    if style == "badaep":
        return bytes([tsn, 0x00, 0x01, 0x10, 5, v & 0xFF])
    if style in ("unkzdo", "unkzdo_r"):
        return bytes([tsn]) + le
    if style == "manuf":
        return bytes([0x15, 0x5F, 0x11, tsn, 0x70]) + le
    raise ValueError(style)


def cls_of(style, v):
    return style + str(v) if style == "ident" else style


def value_of(r):
    if isinstance(r, (bytes, bytearray)):
        return struct.unpack("<H", bytes(r))[0]
    if isinstance(r, (list, tuple)) and not hasattr(r, "status_records") and not hasattr(r, "command_id") and len(r) == 3:
        return int(r[2][0]) | int(r[2][1]) << 8
    if hasattr(r, "status_records"):
        return int(r.status_records[0].value.value)
    if hasattr(r, "command_id"):
        return int(r.command_id) | (int(r.status) & 1) << 8
    return -5


def drive(script, events):
    import zigpy.exceptions as ze
    import zigpy.listeners
    import zigpy.quirks
    import zigpy.types as t
    import zigpy.endpoint
    import zigpy.zdo.types as zt
    from zigpy.zcl.clusters.general import Identify, OnOff

    over = []

    def ev(e):
        if not over:
            events.append(e)

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()

        def now():
            return round((loop.time() - t0) * 1000)

        app = stub.make_app()
        devs, cur = {}, {}
        if script["coord"]:
            co = app.add_device(stub.NCP_IEEE, t.NWK(0x0000))
            co.node_desc = stub.node_desc("coordinator")
            co.add_endpoint(1).status = zigpy.endpoint.Status.ZDO_INIT
        for d in script["devs"]:
            n, nwk = DEVS[d]
            k = KINDS[d]
            if k["ready"]:
                devs[d] = stub.add_device(app, n, nwk, kind=k["kind"], eps=k["eps"])
            else:
                devs[d] = stub.add_device(app, n, nwk, kind=k["kind"], init=False)
                for e, (i, o) in k["eps"].items():
                    ep = devs[d].add_endpoint(e)
                    for c in i:
                        ep.add_input_cluster(c)
                    for c in o:
                        ep.add_output_cluster(c)
                    if e in script.get("known", []):
                        # its interview got this far
                        ep.profile_id, ep.device_type = 260, 0
                        ep.status = zigpy.endpoint.Status.ZDO_INIT
        ev({"ev": "init", "devs": {d: {"eps": [{"ep": e, "cl": sorted(set(i + o))} for e, (i, o) in KINDS[d]["eps"].items()],
                                       "ready": KINDS[d]["ready"], "desc": KINDS[d]["kind"] is not None} for d in devs}})
        by_nwk = {DEVS[d][1]: d for d in DEVS}
        name = {id(x): d for d, x in devs.items()}
        msgs = []       # (hdr, args, n): keeps the objects alive
        npkt = [0]

        class ZdoL:
            def __init__(self, d):
                self.__dict__["d"] = d

            def __getattr__(self, n):
                if not n.startswith("zdo_"):
                    raise AttributeError(n)
                return lambda dev, dst, hdr, args: ev({"ev": "handler", "d": self.d, "sep": 0, "cl": int(hdr.command_id), "tsn": int(hdr.tsn)})

        class ZclL:
            def __init__(self, d, ep, cl):
                self.k = (d, ep, cl)

            def _h(self, tsn):
                ev({"ev": "handler", "d": self.k[0], "sep": self.k[1], "cl": self.k[2], "tsn": int(tsn)})

            def cluster_command(self, tsn, command_id, args):
                self._h(tsn)

            def general_command(self, hdr, args):
                self._h(hdr.tsn)

        def attach(d):
            for eid, ep in devs[d].endpoints.items():
                if eid:
                    for c in {**ep.out_clusters, **ep.in_clusters}.values():
                        if not any(isinstance(x[0], ZclL) for x in c._listeners.values()):
                            c.add_listener(ZclL(d, eid, c.cluster_id))

        for d in devs:
            devs[d].zdo.add_listener(ZdoL(d))
            attach(d)

        class AppL:
            def handle_message(self, dev, profile, cluster, sep, dep, message):
                p = cur["pkt"]
                same = (profile, cluster, sep, dep, message) == (p.profile_id, p.cluster_id, p.src_ep, p.dst_ep, p.data.serialize())
                ev({"ev": "announce", "d": name.get(id(dev), "?"), "key": cur["key"] if same else "something else"})

            def device_init_failure(self, dev):
                ev({"ev": "interview_failed", "d": name[id(dev)], "t": now()})

            def device_initialized(self, dev):
                ev({"ev": "initialized", "d": name[id(dev)], "t": now()})

        app.add_listener(AppL())
        completes = list(script["completes"])

        def quirk(dev, profile, cluster, sep, dep, message):
            p = cur["pkt"]
            d = name.get(id(dev), "?")
            same = (profile, cluster, sep, dep, message) == (p.profile_id, p.cluster_id, p.src_ep, p.dst_ep, p.data.serialize())
            c = completes.pop(0) if completes else False
            eps = FULL if c else []
            if c:
                dev.node_desc = stub.node_desc("router")
                for e in list(dev.endpoints):
                    if e:
                        del dev.endpoints[e]
                ep = dev.add_endpoint(1)
                ep.profile_id = 260
                ep.add_input_cluster(0)
                ep.add_input_cluster(6)
                ep.status = zigpy.endpoint.Status.ZDO_INIT
                attach(d)
            ev({"ev": "quirk", "d": d, "key": cur["key"] if same else "something else", "completes": c, "eps": eps})
            return True

        async def on_send(packet):
            data = packet.data.serialize()
            if packet.dst.addr_mode == t.AddrMode.Broadcast:
                if int(packet.cluster_id) == 0x0001:
                    ev({"ev": "discover", "src": struct.unpack("<H", data[1:3])[0], "t": now()})
                else:
                    ev({"ev": "broadcast?", "cl": int(packet.cluster_id), "t": now()})
                return
            d = by_nwk.get(int(packet.dst.address), "?")
            if packet.dst_ep == 0 and int(packet.cluster_id) in (2, 4, 5):
                ev({"ev": "asks", "d": d, "t": now()})
            elif data.endswith(b"RQ"):
                ev({"ev": "ask", "id": data[3], "d": d, "tsn": int(packet.tsn), "t": now()})

        app.on_send = on_send
        zigpy.quirks._uninitialized_device_message_handlers[:] = []
        zigpy.quirks.register_uninitialized_device_message_handler(quirk)
        tasks = []

        async def requester(i, d, tsn):
            try:
                r = await devs[d].request(profile=260, cluster=0, src_ep=1, dst_ep=1, sequence=tsn,
                                          data=bytes([0, tsn, 0, i]) + b"RQ", expect_reply=True, timeout=5)
                k, n = "reply", value_of(r)
            except asyncio.TimeoutError:
                k, n = "timeout", 0
            except ze.ParsingError:
                k, n = "parse_error", 0
            except asyncio.CancelledError:
                if over:
                    return
                k, n = "cancelled", 0
            except Exception as e:  # noqa: BLE001
                if "Duplicate TSN" in str(e):
                    return
                k, n = repr(e), 0
            ev({"ev": "done", "id": i, "d": d, "tsn": tsn, "k": k, "n": n, "t": now()})

        # ---- listeners -------------------------------------------------------------------------------
        def recorder(hdr, args):
            msgs.append((hdr, args, npkt[0]))
            return False

        def matchers(match):
            m = []
            idents = [x for x in match if x.startswith("ident")]
            rest = [x for x in match if not x.startswith("ident")]
            for x in idents:
                m.append(Identify.ServerCommandDefs.identify.schema(identify_time=int(x[5:])) if x[5:]
                         else Identify.ServerCommandDefs.identify.schema())
            if "on" in rest:
                rest.remove("on")
                m.append(OnOff.ServerCommandDefs.on.schema())
            if rest:
                m.append(lambda hdr, args: cur["cls"] in rest)
            return [recorder, *m]

        regs, waits = {}, {}
        plans = {}
        lid = [0]

        def src_of(target):
            return zigpy.listeners.ANY_DEVICE if target == "any" else devs[target]

        async def later(i):
            await asyncio.sleep(0)
            ev({"ev": "awaited", "id": i})
            if i % 2:
                raise ValueError("planned")

        def shared_callback(hdr, args):      # two registrations of one and the same callback
            return run_callback(shared_callback.ids[0], hdr, args)

        shared_callback.ids = []

        def run_callback(i, hdr, args):
            n = [x[2] for x in msgs if x[0] is hdr and x[1] is args]
            ev({"ev": "callback", "id": i, "n": n[-1] if n else 0})
            plan = plans.get(i, [])
            for op in plan.pop(0) if plan else []:
                if op[0] == "raise":
                    ev({"ev": "callback_end", "how": "raise", "id": i})
                    raise [ValueError, KeyError, asyncio.TimeoutError][op[1]]("planned")
                if op[0] == "await":
                    ev({"ev": "callback_end", "how": "await", "id": i})
                    return later(i)
                act(op)
            ev({"ev": "callback_end", "how": "ok", "id": i})
            return None

        async def waiter(i, target, match, tmo):
            with app.wait_for_response(src_of(target), matchers(match)) as fut:
                waits[i][1] = fut
                ev({"ev": "register", "id": i, "target": target, "kind": "future", "match": match})
                try:
                    try:
                        r = await (fut if tmo is None else asyncio.wait_for(fut, tmo / 1000))
                        seen(i, r)
                    except asyncio.TimeoutError:
                        ev({"ev": "give_up", "id": i})
                    except asyncio.CancelledError:
                        if fut.done() and not fut.cancelled():
                            seen(i, fut.result())
                        elif not waits[i][2]:
                            ev({"ev": "give_up", "id": i})
                            waits[i][2] = True
                finally:
                    ev({"ev": "unregister", "id": i})

        def seen(i, r):
            hdr, args = r
            n = [x[2] for x in msgs if x[0] is hdr and x[1] is args]
            ev({"ev": "resolved", "id": i, "n": n[-1] if n else -1})

        def act(op):
            if op[0] == "reg":
                _, target, kind, match, tmo, plan = op
                if target not in ("any", *devs):
                    return
                lid[0] += 1
                i = lid[0]
                if kind == "callback":
                    plans[i] = [list(x) for x in plan]
                    cm = contextlib.ExitStack()
                    ev({"ev": "register", "id": i, "target": target, "kind": kind, "match": match})
                    cm.enter_context(app.callback_for_response(src_of(target), matchers(match), lambda h, a: run_callback(i, h, a)))
                    regs[i] = cm
                else:
                    waits[i] = [None, None, False]
                    waits[i][0] = asyncio.eager_task_factory(loop, waiter(i, target, match, tmo))
                    tasks.append(waits[i][0])
            elif op[0] == "unreg":
                if regs:
                    i = sorted(regs)[op[1] % len(regs)]
                    ev({"ev": "unregister", "id": i})
                    regs.pop(i).close()
            elif op[0] == "giveup":
                live = [i for i in sorted(waits) if not waits[i][0].done() and waits[i][1] is not None and not waits[i][2]]
                if live:
                    i = live[op[1] % len(live)]
                    if not waits[i][1].done():
                        ev({"ev": "give_up", "id": i})
                    waits[i][2] = True
                    if op[2]:
                        waits[i][0].cancel()
                    else:
                        waits[i][1].cancel()

        def quiet():
            ev({"ev": "quiet", "t": now(), "devs": {
                d: {"busy": bool(x.initializing), "init": bool(x.is_initialized),
                    "meta": [-1 if x.last_seen is None else round(x.last_seen * 1000) - BASE_MS, -1 if x.lqi is None else int(x.lqi),
                             -1 if x.rssi is None else 1000 + int(x.rssi)],
                    "eps": [e for e in x.endpoints if e]} for d, x in devs.items()}})

        rid = [0]
        for op in script["ops"]:
            if op[0] == "recv":
                q = op[1]
                zdo, cl, reply, body = STYLES[q["style"]]
                cl = q["cl"] if cl is None else cl
                tsn, v = q["tsn"], q["v"]
                if q["style"] == "defrsp":
                    v %= 512
                if q["style"] in ("aep", "rdrsp"):
                    v %= 30000
                data = payload(q["style"], tsn, v)
                hdr_ok = True
                if q["trunc"] is not None:
                    k = min(q["trunc"], 0 if zdo else (4 if q["style"] == "manuf" else 2))
                    data, hdr_ok = data[:k], False
                sep, dep = (0, 0) if zdo else (q["sep"], q["dep"])
                if q["odd"] and hdr_ok:
                    if zdo and not reply and cl not in (6,):
                        sep, body = 1, "bad"
                    elif not zdo:
                        sep = 0
                if dep == 0:
                    pass
                if q["extra"] and zdo and body == "ok":
                    data += b"\xaa\xbb"
                d = q["d"]
                n, nwk = DEVS.get(d, (99, q["nwk"]))
                src = t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=stub.ieee(n)) if q["ieee"] else \
                    t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(nwk))
                dst = [t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)),
                       t.AddrModeAddress(addr_mode=t.AddrMode.Broadcast, address=t.BroadcastAddress.RX_ON_WHEN_IDLE),
                       t.AddrModeAddress(addr_mode=t.AddrMode.Group, address=t.Group(5)),
                       t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=stub.NCP_IEEE)][q["dst"]]
                prof = 0 if zdo else q["prof"]
                ts = BASE_MS + q["ts"]
                pkt = t.ZigbeePacket(
                    timestamp=datetime.fromtimestamp(ts / 1000, timezone.utc),
                    src=src, src_ep=sep, dst=dst, dst_ep=dep, profile_id=prof, cluster_id=cl, tsn=q["apstsn"],
                    data=t.SerializableBytes(data), radius=q["radius"], lqi=q["lqi"], rssi=q["rssi"])
                key = "/".join(map(str, (q["ieee"], n, sep, dep, prof, cl, data.hex(), q["dst"], q["radius"])))
                npkt[0] += 1
                cur.update(pkt=pkt, key=key, cls=cls_of(q["style"], v))
                known = d in devs
                ev({"ev": "recv", "d": d if known else "?", "nwk": not q["ieee"], "src": nwk, "key": key, "sep": sep, "dep": dep,
                    "cl": cl, "hdr": hdr_ok, "body": body, "reply": reply, "tsn": tsn, "cls": cur["cls"], "gen": q["style"], "val": v if body != "bad" else 0,
                    "ts": q["ts"], "lqi": -1 if q["lqi"] is None else q["lqi"],
                    "rssi": -1 if q["rssi"] is None else 1000 + q["rssi"], "t": now()})
                try:
                    app.packet_received(pkt)
                    ev({"ev": "recv_end"})
                except Exception as e:  # noqa: BLE001
                    ev({"ev": "recv_raised", "type": type(e).__name__, "text": str(e)[:200]})
                    break
                if q["settle"]:
                    await vloop.settle()
                    quiet()
            elif op[0] == "req":
                d = op[1]
                if d in devs:
                    rid[0] += 1
                    tasks.append(asyncio.eager_task_factory(loop, requester(rid[0], d, op[2])))
            elif op[0] == "adv":
                await vloop.advance(op[1] / 1000)
                quiet()
            elif op[0] == "settle":
                await vloop.settle()
                quiet()
            else:
                act(op)
        await vloop.settle()
        quiet()
        over.append(1)

    vloop.run(main, start=script.get("start", 1000.0))


def drive_bytes(script, events):
    """arbitrary packets, interspersed with well-formed probes"""
    import random

    import zigpy.types as t
    import zigpy.zcl
    import zigpy.zdo.types as zt

    rng = random.Random(script["seed"])

    async def main():
        app = stub.make_app()
        if script["coord"]:
            c = app.add_device(stub.NCP_IEEE, t.NWK(0))
            c.node_desc = stub.node_desc("coordinator")
            c.add_endpoint(1)
        allc = sorted(zigpy.zcl.Cluster._registry)
        some = rng.sample(allc, 40)
        devs = {0x1001: stub.add_device(app, 1, 0x1001, eps={1: (sorted({*some, 0, 3, 4, 6, 0x500, 0x501, 0x20}), [0x19, 0x0A]),
                                                             2: ([0], rng.sample(allc, 40))}),
                0x1002: stub.add_device(app, 2, 0x1002, init=False, kind=None),
                0x1003: stub.add_device(app, 3, 0x1003, init=False),
                0x1004: stub.add_device(app, 4, 0x1004, kind="end", eps={1: (some, some)})}
        devs[0x1003].add_endpoint(1).add_input_cluster(0)
        probe = [0]

        class L:
            def cluster_command(self, tsn, command_id, args):
                if probe[0] and args is not None and getattr(args, "identify_time", None) == probe[0]:
                    events.append({"ev": "handled", "n": probe[0]})

        devs[0x1001].endpoints[1].in_clusters[3].add_listener(L())
        tasks = []

        async def pend(dev, tsn):
            try:
                await dev.request(profile=260, cluster=6, src_ep=1, dst_ep=1, sequence=tsn, data=bytes([1, tsn, 0]), timeout=3)
            except Exception:  # noqa: BLE001
                pass

        def rnd(n, al=None):
            return bytes(rng.choice(al) if al else rng.randrange(256) for _ in range(n))

        def content():
            k = rng.randrange(6)
            nwk = rng.choice([0x1001] * 5 + [0x1002, 0x1003, 0x1004, 0x1004, 0x5555, 0])
            dev = devs.get(nwk)
            if k == 0:      # ZDO
                cl = rng.choice([*zt.CLUSTERS, 0x77, 0x8077])
                d = bytes([rng.randrange(256)]) + rng.choice([b"\0", rnd(1)]) + rnd(rng.randrange(40), [0, 1, 2, 0x0D, 0x6F, 255, 0x10] if rng.random() < 0.6 else None)
                if rng.random() < 0.5:
                    # well formed, possibly truncated or with something appended
                    try:
                        d = bytes([rng.randrange(256)]) + t.serialize([sample(x) for x in zt.CLUSTERS[cl][1]], zt.CLUSTERS[cl][1])
                    except Exception:  # noqa: BLE001
                        pass
                    if rng.random() < 0.3:
                        d = d[:rng.randrange(len(d) + 1)]
                    elif rng.random() < 0.3:
                        d += rnd(2)
                return nwk, 0, 0, cl, 0, d
            ep = rng.choice([1, 1, 2, 3])
            known = list(dev.endpoints[ep].in_clusters) + list(dev.endpoints[ep].out_clusters) if dev is not None and ep in dev.endpoints else []
            cl = rng.choice(known or allc) if rng.random() < 0.9 else rng.randrange(65536)
            C = zigpy.zcl.Cluster._registry.get(cl)
            tsn = rng.randrange(256)
            body = rnd(rng.randrange(30), [0, 1, 2, 3, 0x41, 0x80, 0xFF]) if rng.random() < 0.8 else rnd(rng.randrange(70))
            fc = rng.choice([0, 8, 0x10, 0x18, 4, 0x1C])
            if k == 1 and C is not None and C.attributes:
                a = rng.choice(list(C.attributes))
                ty = rng.choice([0, 8, 0x0B, 0x0F, 0x10, 0x18, 0x20, 0x21, 0x28, 0x30, 0x31, 0x38, 0x39, 0x3A, 0x41, 0x42, 0x43, 0x44,
                                 0x48, 0x4C, 0x50, 0x51, 0xE0, 0xE1, 0xE2, 0xE8, 0xE9, 0xEA, 0xF0, 0xF1, 0xFF])
                d = bytes([fc & ~4, tsn, 0x0A]) + a.to_bytes(2, "little") + bytes([ty]) + body
            elif k == 2 and C is not None:
                cmds = list(C.server_commands) if rng.random() < 0.5 else list(C.client_commands)
                d = bytes([rng.choice([1, 0x11, 9, 0x19]), tsn, rng.choice(cmds or [0])]) + body
            elif k == 3 and C is not None:
                d = bytes([fc & ~4, tsn, 0]) + b"".join(x.to_bytes(2, "little") for x in rng.sample(list(C.attributes) or [0], min(3, len(C.attributes) or 1)))
            elif k == 4:
                d = bytes([fc, tsn, rng.randrange(0x18)]) + body
            else:
                d = bytes([rng.randrange(256)]) + rnd(rng.randrange(20))
            if rng.random() < 0.15:
                d = d[:rng.randrange(len(d) + 1)]
            return nwk, ep, rng.choice([1, 1, 1, 2, 255]), cl, rng.choice([260, 260, 0, 0xC05E]), d

        def sample(ty):
            try:
                v = ty()
                v.serialize()
                return v
            except Exception:  # noqa: BLE001
                return rng.randrange(200)

        for i in range(script["n"]):
            nwk, sep, dep, cl, prof, d = content()
            if rng.random() < 0.08:
                sep, dep = rng.choice([(0, dep), (sep, 0), (0, 1), (1, 0)])
            if rng.random() < 0.03:
                sep = None
            if rng.random() < 0.03:
                dep = None
            A = t.AddrModeAddress
            src = A(addr_mode=t.AddrMode.IEEE, address=stub.ieee(rng.choice([1, 2, 9]))) if rng.random() < 0.1 else None
            dst = rng.choice([None, None, None, A(addr_mode=t.AddrMode.Group, address=t.Group(7)),
                              A(addr_mode=t.AddrMode.Broadcast, address=t.BroadcastAddress.ALL_DEVICES),
                              A(addr_mode=t.AddrMode.IEEE, address=stub.NCP_IEEE)])
            p = stub.packet(t.NWK(nwk), cl, d, src_ep=sep, dst_ep=dep, profile=prof, src=src, dst=dst,
                            lqi=rng.choice([None, 3]), rssi=rng.choice([None, -60]), tsn=rng.randrange(256))
            events.append({"ev": "recv"})
            try:
                app.packet_received(p)
                events.append({"ev": "returned"})
            except Exception as e:  # noqa: BLE001
                events.append({"ev": "raised", "type": type(e).__name__, "text": str(e)[:200], "cluster": cl, "sep": sep or 0, "data": d.hex()})
                return
            if rng.random() < 0.1:
                tasks.append(asyncio.ensure_future(pend(devs[rng.choice([0x1001, 0x1004])], rng.randrange(256))))
            if rng.random() < 0.3:
                await vloop.settle()
            if rng.random() < 0.05:
                await vloop.advance(rng.choice([1, 6, 40]))
            if rng.random() < 0.2:
                probe[0] = len(events) % 60000 + 1
                # no pending request may be confused with it: commands are not replies
                events.append({"ev": "probe", "n": probe[0]})
                app.packet_received(stub.packet(0x1001, 3, bytes([1, i % 256, 0]) + struct.pack("<H", probe[0])))
                events.append({"ev": "returned"})
                probe[0] = 0
        await vloop.settle()

    vloop.run(main)


BASE_MS = 1_600_000_000_000


def random_script(rng, n, focus):
    pool = {"C04": ["a", "z"], "C05": ["a", "z", "e"], "C06": list(DEVS), "C07": list(DEVS)}[focus]
    devs = sorted(set(rng.sample(pool, rng.randrange(1, len(pool) + 1)) + (["a"] if focus in ("C05", "C06") else [])))
    tsns = [100, 101, 102]
    classes = ["ident", "ident0", "ident7", "ident9", "on", "off", "report", "report_s", "rawgen", "rawcl", "permit", "match", "rdrsp", "defrsp", "aep", "manuf"]
    good = ["ident", "on", "off", "report", "report_s", "rdrsp", "defrsp", "aep", "permit", "match", "udesc"]
    recent = []

    def packet():
        if recent and rng.random() < {"C04": 0.6, "C05": 0.1, "C06": 0.1, "C07": 0.15}[focus]:
            q = dict(rng.choice(recent))
            x = rng.random()
            if x < 0.25:
                q[rng.choice(["radius", "dst", "v", "ieee", "dep", "prof"])] = None     # something of it is different
            for k in ("radius", "dst", "v", "ieee", "dep", "prof"):
                if q[k] is None:
                    q[k] = fresh()[k]
            q.update(ts=rng.randrange(10 ** 9), lqi=rng.choice([None, 0, 5, 255]), rssi=rng.choice([None, -100, 0, 20]),
                     apstsn=rng.randrange(256), settle=rng.random() < 0.5)
            return q
        q = fresh()
        recent.append(q)
        return q

    def fresh():
        style = rng.choice(good if focus in ("C05", "C04") and rng.random() < 0.8 else list(STYLES))
        return {"d": rng.choice(devs + (["?"] if focus in ("C07", "C06") else []) * (1 + len(devs) // 2)),
                "nwk": rng.choice([0x2001, 0x2002]), "style": style,
                "tsn": rng.choice(tsns), "v": rng.choice([7, 9, 0, 7, rng.randrange(1, 60000)]),
                "cl": rng.choice([0, 3, 6, 6, 25, 4, 0x500, 5, 33]), "sep": rng.choice([1, 1, 1, 2, 3, 242]),
                "dep": rng.choice([1, 1, 2, 255]), "prof": rng.choice([260, 0xC05E, 0]), "dst": rng.choice([0, 0, 0, 1, 2, 3]),
                "ieee": rng.random() < 0.15, "radius": rng.choice([0, 0, 30]), "trunc": rng.choice([0, 1, 2, 3, 4]) if rng.random() < {"C06": 0.25}.get(focus, 0.04) else None,
                "odd": rng.random() < {"C06": 0.15}.get(focus, 0.02), "extra": rng.random() < 0.2,
                "ts": rng.randrange(10 ** 9), "lqi": rng.choice([None, 0, 5, 255]), "rssi": rng.choice([None, -100, 0, 20]),
                "apstsn": rng.randrange(256), "settle": rng.random() < 0.6}

    def reg(depth):
        k = rng.choice(["callback", "future"])
        plan = []
        if depth == 0 and k == "callback":
            for _ in range(rng.choice([0, 1, 3])):
                plan.append([rng.choice([["raise", rng.randrange(3)], ["await"], ["unreg", rng.randrange(5)], reg(1),
                                         ["giveup", rng.randrange(4), rng.random() < 0.5]]) for _ in range(rng.choice([1, 1, 2]))])
        m = rng.choice([classes, rng.sample(classes, rng.randrange(1, 6)), ["ident7"], ["ident0"], ["ident7", "ident9"], ["ident"], ["on"]])
        return ["reg", rng.choice(["any", *devs]), k, list(m), rng.choice([None, 2003, 7001]), plan]

    w = {"C04": dict(recv=8, adv=3, reg=1, unreg=0.5, req=0.5, giveup=0.2, settle=1),
         "C05": dict(recv=8, adv=0.7, reg=5, unreg=1.5, req=2, giveup=1, settle=1),
         "C06": dict(recv=10, adv=1, reg=1.5, unreg=0.5, req=2, giveup=0.4, settle=1),
         "C07": dict(recv=9, adv=2, reg=0.5, unreg=0.2, req=0.5, giveup=0.2, settle=1)}[focus]
    ops = []
    for _ in range(n):
        o = rng.choices(list(w), list(w.values()))[0]
        if o == "recv":
            ops.append(["recv", packet()])
        elif o == "adv":
            ops.append(["adv", rng.choice([3, 777, 2999, 4003, 5009, 7777, 9991, 10007, 33333] + ([40001] if focus == "C07" else []))])
        elif o == "reg":
            ops.append(reg(0))
        elif o == "unreg":
            ops.append(["unreg", rng.randrange(5)])
        elif o == "giveup":
            ops.append(["giveup", rng.randrange(5), rng.random() < 0.5])
        elif o == "req":
            ops.append(["req", "a", rng.choice(tsns)])
        else:
            ops.append(["settle"])
    return {"devs": devs, "known": rng.choice([[], [1], [2]]), "coord": rng.random() < 0.5, "completes": [rng.random() < 0.2 for _ in range(12)], "ops": ops,
            # any value of the clock will do, also one whose rounding is about to become coarser
            "start": rng.choice([1000.0, 1015.1, 0.0, 2.0 ** 20 - 12.3])}


def _check(ctx, focus):
    ctx.model_check("MC_Reception")
    if not ctx.quick:
        ctx.model_check("MC_Reception", "MC_Reception_deep")
    ctx.check_traces(focus, "Reception_Trace", drive,
                     [random_script(ctx.rng, ctx.rng.choice([8, 20, 45]), focus) for _ in range(ctx.n(900, 12000))])


def check_c04(ctx):
    _check(ctx, "C04")


def check_c05(ctx):
    _check(ctx, "C05")


def check_c06(ctx):
    _check(ctx, "C06")
    ctx.model_check("MC_Robust")
    ctx.check_traces("bytes", "Robust_Trace", drive_bytes,
                     [{"seed": ctx.rng.randrange(10 ** 9), "n": ctx.rng.choice([20, 60, 150]), "coord": ctx.rng.random() < 0.5}
                      for _ in range(ctx.n(600, 12000))])


def check_c07(ctx):
    _check(ctx, "C07")
