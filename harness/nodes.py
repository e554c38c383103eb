"""C08 (joins), C09 (interview), C10 (removal): one area, `Nodes`."""
from __future__ import annotations

import asyncio
import contextvars
import struct

from . import stub, vloop

CUR = contextvars.ContextVar("cur", default=None)
SHORT, LONG = 5000, 28000


def make_app_class():
    class NodesApp(stub.App):
        async def request(self, *a, **k):
            CUR.set(k.get("device", a[0] if a else None))
            return await super().request(*a, **k)
    return NodesApp


ATTR = {4: "manufacturer", 5: "model"}


def drive(script, events):
    import zigpy.device
    import zigpy.endpoint
    import zigpy.exceptions as ze
    import zigpy.types as t
    import zigpy.zdo.types as zt

    over = []

    def ev(e):
        if not over:
            events.append(e)
        return e

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()

        def now():
            return round((loop.time() - t0) * 1000)

        app = stub.make_app(make_app_class())
        objs, keep = {}, []

        def name(dev):
            if id(dev) not in objs:
                keep.append(dev)
                objs[id(dev)] = len(keep)
            return objs[id(dev)]

        def node(ieee):
            return "n%d" % ieee[0] if ieee[2] == 0 else "?"

        for p in script["known"]:
            dev = stub.add_device(app, p["n"], p["nwk"], kind=None if p["desc"] == "none" else p["desc"], init=False)
            for e in p["eps"]:
                ep = dev.add_endpoint(e["id"])
                if e["st"] != "new":
                    if e["st"] == "ok":
                        ep.profile_id = 260
                        ep.device_type = 0x0100
                    ep.status = {"ok": zigpy.endpoint.Status.ZDO_INIT, "inactive": zigpy.endpoint.Status.ENDPOINT_INACTIVE}[e["st"]]
                if e["basic"]:
                    ep.add_input_cluster(0)
                    for a, v in ((4, e["cman"]), (5, e["cmod"])):
                        if v == "-":
                            ep.basic.add_unsupported_attribute(a)
                        elif v != "?":
                            ep.basic.update_attribute(a, v)
                if e["groups"]:
                    ep.add_input_cluster(4)
            if p["model"]:
                dev.model = p["model"]
            if p["manuf"]:
                dev.manufacturer = p["manuf"]
            ev({"ev": "known", "o": name(dev), "n": f"n{p['n']}", "nwk": p["nwk"], "desc": p["desc"], "eps": p["eps"],
                "model": p["model"], "manuf": p["manuf"]})

        class L:
            def device_joined(self, dev):
                ev({"ev": "announced", "what": "joined", "o": name(dev), "t": now()})

            def raw_device_initialized(self, dev):
                ev({"ev": "announced", "what": "raw", "o": name(dev), "t": now()})

            def device_initialized(self, dev):
                ev({"ev": "announced", "what": "initialized", "o": name(dev), "t": now()})

            def device_init_failure(self, dev):
                ev({"ev": "announced", "what": "failed", "o": name(dev), "t": now()})

            def device_left(self, dev):
                ev({"ev": "announced", "what": "left", "o": name(dev), "t": now()})

            def device_removed(self, dev):
                ev({"ev": "announced", "what": "removed", "o": name(dev), "t": now()})

        app.add_listener(L())
        plans = list(script["plans"])
        rid = [0]

        def from_node(ieee, sep, dep, cluster, data, profile):
            app.packet_received(t.ZigbeePacket(
                src=t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=ieee), src_ep=sep,
                dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)), dst_ep=dep,
                profile_id=profile, cluster_id=cluster, data=t.SerializableBytes(data)))

        async def on_send(packet):
            data = packet.data.serialize()
            if packet.dst.addr_mode == t.AddrMode.Broadcast:
                ev({"ev": "broadcast?", "cl": int(packet.cluster_id), "t": now()})
                return
            dev = CUR.get()
            o = name(dev)
            nwk = int(packet.dst.address)
            cl = int(packet.cluster_id)
            tsn = data[0] if packet.dst_ep == 0 else data[1]
            rid[0] += 1
            i = rid[0]
            e = {"ev": "?", "o": o, "nwk": nwk, "id": i, "t": now()}
            attrs = []
            ok = packet.tsn == tsn
            if packet.dst_ep == 0 and packet.profile_id == 0:
                if cl in (2, 5, 4):
                    if struct.unpack("<H", data[1:3])[0] != nwk:
                        ok = False
                    e.update(ev="ask", what={2: "desc", 5: "eps", 4: "simple"}[cl], ep=data[3] if cl == 4 else 0, attrs=[])
                elif cl == 0x34:
                    e.update(ev="leave", n=node(t.EUI64.deserialize(data[1:9])[0]))
            elif cl == 0 and data[2] == 0:
                attrs = list(struct.unpack("<%dH" % ((len(data) - 3) // 2), data[3:]))
                e.update(ev="ask", what="read", ep=int(packet.dst_ep), attrs=[ATTR.get(a, str(a)) for a in attrs])
            elif cl == 4 and data[2] == 2:
                e.update(ev="groups", ep=int(packet.dst_ep))
            if not ok:
                e["ev"] = "inconsistent packet"
            ev(e)
            plan = plans.pop(0) if plans else {"kind": "ok", "delay": 0, "v": 0}
            kind, delay = plan["kind"], plan["delay"]
            if kind in ("fail", "crash"):
                if delay:
                    await asyncio.sleep(delay / 1000)
                ev({"ev": "send_failed", "o": o, "id": i, "kind": kind, "t": now()})
                raise ze.DeliveryError("planned") if kind == "fail" else RuntimeError("planned")
            if kind == "timeout":
                return

            def reply():
                if over or app.devices.get(dev.ieee) is not dev:
                    return
                what = e.get("what", e["ev"])
                v = plan["v"]
                hdr, sep, prof, rcl = bytes([tsn]), 0, 0, cl | 0x8000
                st = 0x84 if kind == "status" else 0x00
                rec = 0
                k = kind
                if what == "desc":
                    d = ["router", "end", "router", "router"][v % 4]
                    rec = d if k == "ok" else 0
                    body = bytes([st]) + struct.pack("<H", nwk) + stub.node_desc(d).serialize()
                elif what == "eps":
                    lst = [[1], [1, 2], [2, 1, 242], [], [0, 1], [3]][v % 6] if k == "ok" else []
                    rec = [x for x in lst if x]
                    body = bytes([st]) + struct.pack("<HB", nwk, len(lst)) + bytes(lst)
                elif what == "simple":
                    kinds = [(True, True), (True, False), (False, True), (False, False), (True, True), None]
                    q = kinds[v % 6]
                    if k == "ok" and q is None:
                        st = 0x83     # NOT_ACTIVE
                        rec = {"st": "inactive", "basic": False, "groups": False}
                        body = bytes([st]) + struct.pack("<HB", nwk, 0)
                    else:
                        b, g = q or (False, False)
                        ins = [6] + ([0] if b else []) + ([4] if g else [])
                        rec = {"st": "ok", "basic": b, "groups": g}
                        sd = bytes([e["ep"]]) + struct.pack("<HHB", 260, 0x0100, 1) + bytes([len(ins)]) + \
                            b"".join(struct.pack("<H", c) for c in ins) + bytes([1]) + struct.pack("<H", 25)
                        body = bytes([st]) + struct.pack("<H", nwk) + bytes([len(sd)]) + sd
                        if st:
                            body = bytes([st]) + struct.pack("<HB", nwk, 0)
                elif what == "leave":
                    body = bytes([st])
                    rec = 0
                elif what == "read":
                    hdr, sep, prof, rcl = bytes([0x18, tsn, 0x01]), e["ep"], 260, cl
                    rec = {}
                    body = b""
                    for n, a in enumerate(attrs):
                        x = (v >> (3 * n)) % 8
                        val = ["m1", "m2", "m1", "m1", "m3", "-", "!", "m4"][x]
                        an = ATTR.get(a, str(a))
                        if val == "-":
                            body += struct.pack("<HB", a, 0x86)
                        elif val == "!":
                            body += struct.pack("<HB", a, 0x01)
                        else:
                            val = an[:3] + val
                            body += struct.pack("<HB", a, 0) + b"\x42" + bytes([len(val)]) + val.encode()
                        rec[an] = val
                    if k == "status":
                        hdr, body, rec = bytes([0x18, tsn, 0x0B]), b"\x00\x81", 0
                elif what == "groups":
                    hdr, sep, prof, rcl = bytes([0x19, tsn, 0x02]), e["ep"], 260, cl
                    lst = [v % 7] if v % 2 else []
                    body = bytes([5, len(lst)]) + b"".join(struct.pack("<H", x) for x in lst)
                    if k == "status":
                        hdr, body = bytes([0x18, tsn, 0x0B]), b"\x02\x81"
                else:
                    return
                if k == "bad":
                    if what == "leave":
                        body = b""
                    elif what == "read":
                        body = struct.pack("<HB", 5, 0) + b"\x42\x09abc"
                        hdr = bytes([0x18, tsn, 0x01])
                    else:
                        body = body[:2]
                    k, rec = "fail", 0
                if k == "status":
                    rec = 0
                ev({"ev": "reply", "o": o, "id": i, "kind": k, "data": rec, "t": now()})
                from_node(dev.ieee, sep, 0 if prof == 0 else 1, rcl, hdr + body, prof)

            loop.call_later(delay / 1000, reply) if delay else loop.call_soon(reply)

        app.on_send = on_send

        def tabsnap():
            return {node(x): {"o": name(d), "nwk": int(d.nwk), "init": bool(d.is_initialized), "busy": bool(d.initializing),
                              "model": d.model or "", "manuf": d.manufacturer or ""} for x, d in app.devices.items()}

        def quiet():
            ev({"ev": "quiet", "t": now(), "tab": tabsnap()})

        n_annce = 0
        for op in script["ops"]:
            k = op[0]
            if k == "join":
                _, n, nwk, how, rejoin, sender = op
                ieee = stub.ieee(n)
                e = ev({"ev": "join", "n": f"n{n}", "nwk": nwk, "rejoin": rejoin if how == "report" else how == "annce", "o": 0, "t": now()})
                snd = stub.ieee(sender) if sender and stub.ieee(sender) in app.devices else ieee
                n_annce += 1
                if how == "report":
                    snd = ieee
                    app.handle_join(t.NWK(nwk), ieee, t.NWK(0), handle_rejoin=rejoin)
                elif how == "annce":
                    snd = ieee
                    from_node(ieee, 0, 0, 0x0013, bytes([n_annce % 256]) + struct.pack("<H", nwk) + ieee.serialize() + b"\x8e", 0)
                else:
                    body = b"\x00" + ieee.serialize() + struct.pack("<H", nwk) + (b"\x00\x00" if n_annce % 2 else b"")
                    from_node(snd, 0, 0, 0x8000 if how == "nwk_rsp" else 0x8001, bytes([250 + n_annce % 6]) + body, 0)
                d = app.devices.get(ieee)
                e["o"] = name(d) if d is not None else -1
                if snd != ieee:
                    ev({"ev": "traffic", "n": node(snd), "t": now()})
            elif k == "traffic":
                ieee = stub.ieee(op[1])
                n_annce += 1
                ev({"ev": "traffic", "n": f"n{op[1]}", "t": now()})
                if op[2] == "permit":
                    from_node(ieee, 0, 0, 0x0036, bytes([n_annce % 256, 10, 0]), 0)
                else:     # a response telling of a failure
                    from_node(ieee, 0, 0, 0x8001, bytes([250 + n_annce % 6, 0x81]) + stub.ieee(2).serialize() + b"\x55\x55", 0)
            elif k == "leaves":
                ev({"ev": "leaves", "n": f"n{op[1]}", "t": now()})
                app.handle_leave(t.NWK(op[2]), stub.ieee(op[1]))
            elif k == "remove":
                ieee = stub.ieee(op[1])
                parents = [name(d) for x, d in app.devices.items() for nb in app.topology.neighbors.get(x, []) if nb.ieee == ieee]
                ev({"ev": "remove", "n": f"n{op[1]}", "parents": parents, "t": now()})
                await app.remove(ieee, remove_children=op[2], rejoin=op[3])
            elif k == "neighbors":
                nb = [zt.Neighbor(extended_pan_id=t.EUI64([0] * 8), ieee=stub.ieee(x), nwk=t.NWK(x)) for x in op[2]]
                app.topology.neighbors[stub.ieee(op[1])] = nb
            elif k == "adv":
                await vloop.advance(op[1] / 1000)
                quiet()
            elif k == "settle":
                await vloop.settle()
                quiet()
        await vloop.settle()
        quiet()
        over.append(1)

    vloop.run(main, start=script.get("start", 1000.0))
    return events


# ---- scripts ----------------------------------------------------------------------------------------
def random_eps(rng, done):
    eps = []
    for i in rng.sample([1, 2, 3, 242], rng.choice([1, 1, 2, 2, 3])):
        st = "ok" if done or rng.random() < 0.5 else rng.choice(["new", "inactive", "new"])
        b = st == "ok" and rng.random() < 0.7
        eps.append({"id": i, "st": st, "basic": b, "groups": st == "ok" and rng.random() < 0.6,
                    "cman": rng.choice(["?", "manA", "-"]) if b else "?", "cmod": rng.choice(["?", "modA", "-"]) if b else "?"})
    return eps


def random_script(rng, focus):
    known = []
    for n in rng.sample([1, 2, 3], rng.choice([0, 1, 1, 2, 3] if focus != "interview" else [0, 0, 1])):
        desc = rng.choice(["none", "router", "end", "end", "router"])
        done = rng.random() < 0.6
        eps = random_eps(rng, done) if done or rng.random() < 0.6 else []
        named = rng.random() < 0.5
        known.append({"n": n, "nwk": 0x1000 + n, "desc": desc, "eps": eps, "model": "modA" if named else "", "manuf": "manA" if named and rng.random() < 0.8 else ""})
    bad = rng.choice([0.0, 0.1, 0.3, 0.5])
    plans = []
    for _ in range(60):
        r = rng.random()
        kind = "ok"
        if r < bad:
            kind = rng.choice(["timeout", "timeout", "fail", "fail", "status", "bad", "crash"] if rng.random() < 0.6 else ["timeout", "fail", "status", "bad"])
        plans.append({"kind": kind, "delay": rng.choice([0, 0, 0, 50, 300, 1200, 4300]), "v": rng.randrange(64) if rng.random() < 0.8 else rng.choice([0, 9])})
    ops = []
    w = {"join": [6, 2, 1, 1, 2], "interview": [3, 1, 1, 1, 1], "remove": [4, 2, 1, 6, 2]}[focus]
    for _ in range(rng.randrange(3, 18)):
        k = rng.choices(["join", "traffic", "leaves", "remove", "neighbors"], weights=w)[0]
        n = rng.choice([1, 1, 2, 3])
        if k == "join":
            how = rng.choice(["report", "report", "annce", "annce", "nwk_rsp", "ieee_rsp"])
            nwk = rng.choice([0x1000 + n] * 3 + [0x1001, 0x1002, 0x2000 + n])
            ops.append([k, n, nwk, how, rng.random() < 0.7, rng.choice([0, 0, 2, 3])])
        elif k == "traffic":
            ops.append([k, n, rng.choice(["permit", "badrsp"])])
        elif k == "leaves":
            ops.append([k, n, 0x1000 + n])
        elif k == "remove":
            ops.append([k, n, rng.random() < 0.5, rng.random() < 0.4])
        else:
            ops.append([k, n, [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 2]))]])
            ops[-1][2] = [x for x in ops[-1][2] if x != n]
        r = rng.random()
        if r < 0.75:
            ops.append(["settle"])
        if r < 0.5:
            ops.append(["adv", rng.choice([1, 200, 499, 501, 700, 2500, 4999, 5600, 7100, 28100, 30100])])
    ops.append(["adv", rng.choice([1000, 60000, 300000])])
    return {"known": known, "plans": plans, "ops": ops, "start": rng.choice([1000.0, 1000.0, 0.0, 2.0 ** 20 - 32.3])}


def chain(rng):
    """one device, an interview failing at every possible place"""
    plans = []
    for _ in range(rng.randrange(3, 25)):
        plans.append({"kind": rng.choice(["ok", "ok", "ok", "timeout", "fail", "status", "bad"]), "delay": rng.choice([0, 0, 200]),
                      "v": rng.choice([0, 1, 2, 4, 5, 9, 13, 40, 45, 46, 54])})
    ops = [["join", 1, 0x1001, "annce", True, 0], ["adv", 400000]]
    for _ in range(rng.randrange(0, 4)):
        ops += [rng.choice([["traffic", 1, "permit"], ["join", 1, 0x1001, "report", True, 0], ["join", 1, 0x1002, "annce", True, 0]]),
                ["adv", rng.choice([100, 3000, 400000])]]
    return {"known": [], "plans": plans, "ops": ops}


def check(ctx, focus, quick, thorough, chains=False):
    ctx.model_check("MC_Nodes")
    if not ctx.quick:
        ctx.model_check("MC_Nodes", "MC_Nodes_deep")
    scripts = [random_script(ctx.rng, focus if ctx.rng.random() < 0.8 else "join") for _ in range(ctx.n(quick, thorough))]
    ctx.check_traces("histories", "Nodes_Trace", drive, scripts)
    if chains:
        ctx.check_traces("interviews", "Nodes_Trace", drive, [chain(ctx.rng) for _ in range(ctx.n(quick, thorough))])


def check_c08(ctx):
    check(ctx, "join", 1800, 30000)


def check_c09(ctx):
    check(ctx, "interview", 1200, 15000, chains=True)


def check_c10(ctx):
    check(ctx, "remove", 1800, 30000)
