"""C20, C21: attribute cache and answers to devices (spec: Zcl)."""
from __future__ import annotations

import asyncio
import contextvars
from datetime import datetime, timedelta, timezone

from . import stub, vloop

CUR = contextvars.ContextVar("call", default=None)
BASIC, IDENT, ONOFF, TIME, OTA, ZONE = 0, 3, 6, 0x0A, 0x19, 0x0500
U8, U16, STR, ENUM, BOOL, BITS8 = 0x20, 0x21, 0x42, 0x30, 0x10, 0x18
# attribute -> (name, type)
PLAIN = {0: ("zcl_version", U8), 4: ("manufacturer", STR), 7: ("power_source", ENUM), 0x10: ("location_desc", STR), 0x11: ("physical_env", ENUM)}
CUST = {0: ("zero", U8), 1: ("const1", U8), 2: ("text", STR), 3: ("mine", ENUM), 4: ("wide", U16), 5: ("const2", U16)}
UNKNOWN = 0xF00D


def le16(n):
    return [n % 256, n // 256]


def enc(ty, v):
    if ty in (U8, ENUM, BOOL, BITS8):
        return [v]
    if ty == U16:
        return le16(v)
    return [len(v.encode())] + list(v.encode())


def text(v):
    return str(int(v)) if isinstance(v, int) else str(v)


def custom_cluster(cid):
    import zigpy.quirks
    import zigpy.types as t
    from zigpy.zcl import foundation as f

    class Cl(zigpy.quirks.CustomCluster):
        cluster_id = cid
        ep_attribute = "custom"
        _CONSTANT_ATTRIBUTES = {1: 5, 5: 600}

        class AttributeDefs(f.BaseAttributeDefs):
            zero = f.ZCLAttributeDef(id=0, type=t.uint8_t)
            const1 = f.ZCLAttributeDef(id=1, type=t.uint8_t)
            text = f.ZCLAttributeDef(id=2, type=t.CharacterString)
            mine = f.ZCLAttributeDef(id=3, type=t.enum8, is_manufacturer_specific=True)
            wide = f.ZCLAttributeDef(id=4, type=t.uint16_t)
            const2 = f.ZCLAttributeDef(id=5, type=t.uint16_t)

    return Cl


def drive(script, events):
    import zigpy.exceptions as ze
    import zigpy.quirks.registry
    import zigpy.quirks.v2
    import zigpy.types as t
    from zigpy.zcl import foundation as f

    over = []

    def ev(e):
        if not over:
            events.append(e)

    async def main():
        loop = asyncio.get_running_loop()
        app = stub.make_app()
        custom = script["custom"]
        cid = script["cid"]
        attrs = CUST if custom else PLAIN
        dev = stub.add_device(app, 1, 0x1234, eps={1: ([BASIC, IDENT, ONOFF, ZONE], [TIME, OTA]), 2: ([ONOFF], [TIME, BASIC])})
        dev.schedule_initialize = lambda: None
        cur = {}

        class Listener:
            def attribute_updated(self, attrid, value, ts):
                attr = cur["cl"].attributes.get(attrid)
                fresh = cur["t"] <= ts <= datetime.now(timezone.utc)
                ev({"ev": "event", "e": {"k": "updated" if fresh else "old", "id": int(attrid), "val": text(value),
                                         "typed": attr is None or isinstance(value, attr.type)}})

            def attribute_cleared(self, attrid):
                ev({"ev": "event", "e": {"k": "cleared", "id": int(attrid), "val": "", "typed": True}})

            def unsupported_attribute_added(self, attrid):
                ev({"ev": "event", "e": {"k": "marked", "id": int(attrid), "val": "", "typed": True}})

            def unsupported_attribute_removed(self, attrid):
                ev({"ev": "event", "e": {"k": "unmarked", "id": int(attrid), "val": "", "typed": True}})

        def watch():
            cl = cur["cl"] = cur["dev"].endpoints[1].in_clusters[cid]
            cl.add_listener(Listener())

        cur["dev"] = dev
        if custom:
            dev.endpoints[1].add_input_cluster(cid, custom_cluster(cid)(dev.endpoints[1], is_server=True))
        watch()
        # what is provided to devices; the clock's bytes are replaced by ones where they are right
        zone = int(datetime.now().astimezone().utcoffset().total_seconds())
        local = [{"cl": BASIC, "id": 0, "bytes": [0x20, 8]}, {"cl": BASIC, "id": 7, "bytes": [0x30, 4]},
                 {"cl": TIME, "id": 0, "bytes": [0xE2, 1, 1, 1, 1]}, {"cl": TIME, "id": 1, "bytes": [0x18, 7]},
                 {"cl": TIME, "id": 2, "bytes": [0x2B] + list(zone.to_bytes(4, "little", signed=True))},
                 {"cl": TIME, "id": 7, "bytes": [0x23, 1, 1, 1, 1]}]
        ev({"ev": "init", "cfg": {"custom": custom, "consts": [{"id": 1, "val": "5"}, {"id": 5, "val": "600"}] if custom else [],
                                  "mspec": [3] if custom else [], "mall": cid >= 0xFC00, "manuf": 4476, "local": local, "named": sorted(attrs)}})
        plans = list(script["plans"])

        def clocks(data):
            """replace the values of time and local time in a read response if they are right"""
            out, k = list(data[:3]), 3
            now = datetime.now(timezone.utc)
            while k < len(data):
                aid, st = data[k] + 256 * data[k + 1], data[k + 2]
                out += data[k:k + 3]
                k += 3
                if st:
                    continue
                size = {0xE2: 4, 0x23: 4, 0x2B: 4}.get(data[k], 1)
                v = data[k + 1:k + 1 + size]
                if aid in (0, 7) and len(v) == 4:
                    want = now + (timedelta(seconds=zone) if aid == 7 else timedelta()) - datetime(2000, 1, 1, tzinfo=timezone.utc)
                    v = [1, 1, 1, 1] if abs(int.from_bytes(bytes(v), "little") - want.total_seconds()) <= 3 else v
                out += [data[k]] + list(v)
                k += 1 + size
            return out

        async def on_send(packet):
            i = CUR.get()
            data = list(packet.data.serialize())
            if i is None:
                if packet.cluster_id == TIME and data[2] == 1:
                    data = clocks(data)
                ok = packet.dst.address == cur["dev"].nwk and packet.profile_id == 260
                ev({"ev": "answered", "ep": int(packet.dst_ep) if ok else -1, "dst_ep": int(packet.src_ep), "cl": int(packet.cluster_id), "data": data})
                if script["rsp_fail"]:
                    raise ze.DeliveryError("planned")
                return
            manuf = -1
            k = 1
            if data[0] & 4:
                manuf, k = data[1] + 256 * data[2], 3
            ok = packet.cluster_id == cid and data[0] & ~4 == 0
            ev({"ev": "sent", "id": i, "frame": {"cmd": data[k + 1] if ok else -1, "manuf": manuf, "body": data[k + 2:]}})
            plan = plans.pop(0) if plans else {"delay": 0, "ok": True, "reply": 0, "pick": 0}
            answer = scripted.get(i)
            if plan["reply"] is not None and answer is not None:
                loop.call_later(plan["reply"] / 1000, reply, i, data[k], answer) if plan["reply"] else loop.call_soon(reply, i, data[k], answer)
            if plan["delay"]:
                await asyncio.sleep(plan["delay"] / 1000)
            ev({"ev": "radio", "id": i, "ok": plan["ok"]})
            if not plan["ok"]:
                raise ze.DeliveryError("planned")

        app.on_send = on_send
        radius = [0]

        def receive(ep, cl, data, **kw):
            radius[0] = radius[0] % 250 + 1
            cur["t"] = datetime.now(timezone.utc)
            app.packet_received(t.ZigbeePacket(src=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=cur["dev"].nwk), src_ep=ep,
                                               dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)), dst_ep=1, profile_id=260,
                                               cluster_id=cl, data=t.SerializableBytes(bytes(data)), radius=radius[0]))

        def reply(i, tsn, answer):
            if over or (i in done and cur["dev"] is not dev):
                return  # (a new device object counts its requests from one again)
            if i not in done:
                ev({"ev": "answer", "id": i, "a": answer["a"]})
            tok = CUR.set(None)
            receive(1, cid, [0x18, tsn] + answer["body"])
            CUR.reset(tok)

        scripted, done, tasks = {}, set(), []

        async def call(i, o, how):
            CUR.set(i)
            cl = cur["cl"]
            cur["t"] = datetime.now(timezone.utc)
            out, good, bad = "ok", [], []
            kw = {} if o["manuf"] == -1 else {"manufacturer": o["manuf"]}
            try:
                if o["op"] == "read":
                    keys = how["keys"]
                    okd, badd = await cl.read_attributes(keys, allow_cache=o["allow"], only_cache=o["only"], **kw)
                    ids = {k: (k if isinstance(k, int) else cl.attributes_by_name[k].id) for k in keys}
                    num = lambda k: ids[k] if k in ids else (k if isinstance(k, int) and k not in ids.values() else -1)
                    good = [[num(k), text(v)] for k, v in okd.items()]
                    bad = [[num(k), int(v)] for k, v in badd.items()]
                elif o["op"] == "write":
                    await cl.write_attributes(dict(how["items"]), **kw)
                elif o["op"] == "undivided":
                    await cl.write_attributes_undivided(dict(how["items"]), **kw)
                elif o["op"] == "conf" and len(how["items"]) == 1:
                    await cl.configure_reporting(how["items"][0][0], *how["items"][0][1], **kw)
                else:
                    await cl.configure_reporting_multiple({k: tuple(v) for k, v in how["items"]}, **kw)
            except (asyncio.TimeoutError, ze.DeliveryError, KeyError, ValueError) as e:
                out = type(e).__name__
            done.add(i)
            ev({"ev": "result", "id": i, "out": out, "ok": good, "bad": bad})

        async def observe():
            cl = cur["cl"]
            ids = sorted(attrs) + [UNKNOWN]
            okd, _ = await cl.read_attributes(ids, only_cache=True)
            for k, v in okd.items():
                if k in attrs and not (custom and k in (1, 5)) and (cl.get(k) != v or cl.get(attrs[k][0]) != v or cl[k] != v):
                    okd[k] = "differs"
            ev({"ev": "obs", "vals": [[int(k), text(v)] for k, v in okd.items()], "by_id": [k for k in ids if k in cl.unsupported_attributes],
                "by_name": [k for k in sorted(attrs) if attrs[k][0] in cl.unsupported_attributes]})

        i = 0
        for op in script["ops"]:
            if op[0] == "call":
                i += 1
                _, o, how, answer = op
                if answer is not None:
                    scripted[i] = answer
                ev({"ev": "call", "id": i, "o": o})
                tasks.append(asyncio.eager_task_factory(loop, call(i, o, how), context=contextvars.copy_context()))
            elif op[0] == "local":
                _, what, attr, val, key = op
                cl = cur["cl"]
                cur["t"] = datetime.now(timezone.utc)
                ev({"ev": "local", "what": what, "attr": attr, "val": text(val), "typed": attr not in attrs})
                if what in ("update", "clear"):
                    cl.update_attribute(attr, None if what == "clear" else val)
                elif what == "mark":
                    cl.add_unsupported_attribute(key)
                else:
                    cl.remove_unsupported_attribute(key)
            elif op[0] == "recv":
                _, n, m, data = op
                m = dict(m, updating=bool(cur["dev"].ota_in_progress))
                ev({"ev": "received", "n": n, "m": m})
                receive(m["ep"], m["cl"], data)
            elif op[0] == "updating":
                cur["dev"].ota_in_progress = op[1]
            elif op[0] == "adopt":
                if not all(x.done() for x in tasks) or custom or cur["dev"] is not dev:
                    continue
                reg = zigpy.quirks.registry.DeviceRegistry()
                zigpy.quirks.v2.QuirkBuilder("Manufacturer", "Model", registry=reg).add_to_registry()
                old = cur["dev"]
                new = reg.get_device(old)
                app.devices[old.ieee] = new
                new.schedule_initialize = lambda: None
                cur["dev"] = new
                ev({"ev": "adopt"})
                watch()
            elif op[0] == "obs":
                await vloop.settle()
                await observe()
            elif op[0] == "settle":
                await vloop.settle()
            else:
                await vloop.advance(op[1] / 1000)
        await vloop.advance(400)
        for x in tasks:
            if x.done():
                x.result()
        await observe()
        ev({"ev": "end"})
        over.append(1)

    vloop.run(main)
    return events


STATUSES = [0x86, 0x86, 0x86, 0x88, 0x8D, 0xC3, 0x01]


def value(rng, ty):
    if ty == STR:
        return rng.choice(["", "abc", "Model X", "déjà"])
    if ty == U16:
        return rng.choice([0, 7, 600, 65535])
    if ty == ENUM:
        return rng.choice([0, 3, 4, 255])
    return rng.choice([0, 1, 8, 254, 255])


def wire_value(rng, attrs, aid):
    """(type, value, fits) of a reported or read value, sometimes of another type than the attribute's"""
    ty = attrs[aid][1] if aid in attrs else rng.choice([U8, U16, STR])
    if aid in attrs and rng.random() < 0.15:
        if ty in (U8, ENUM):
            return rng.choice([(U16, 300, False), (STR, "wrong", False)])
        if ty == U16:
            return rng.choice([(STR, "wrong", False), (U8, 9, True)])
    return ty, value(rng, ty), True


def random_script(rng, bias="mixed"):
    custom = rng.random() < 0.4
    attrs = CUST if custom else PLAIN
    cid = rng.choice([0x3456, 0x3456, 0xFC77]) if custom else BASIC
    every = sorted(attrs) + [UNKNOWN]
    ops = []
    n = 0
    plans = [{"delay": rng.choice([0, 0, 0, 100, 6000]), "ok": rng.random() < 0.9, "reply": rng.choice([0, 0, 0, 50, 200, 4900, 5500, None])} for _ in range(30)]
    key = lambda a: attrs[a][0] if a in attrs and rng.random() < 0.5 else a
    for _ in range(rng.choice([2, 5, 10, 20])):
        kinds = {"cache": ["read"] * 5 + ["write"] * 3 + ["undivided", "conf", "conf"] + ["report"] * 4 + ["local"] * 3 + ["adopt", "obs"],
                 "answers": ["report"] * 4 + ["readreq"] * 4 + ["zone", "zone", "query", "block", "other", "other", "other", "updating", "read", "conf"]}
        kind = rng.choice(kinds[bias])
        if kind in ("read", "write", "undivided", "conf"):
            ids = rng.sample(every, rng.choice([1, 1, 2, 3, 5]))
            o = {"op": kind, "ids": ids, "allow": rng.random() < 0.4, "only": rng.random() < 0.15, "manuf": rng.choice([-1, -1, -1, 0x1111]), "attrs": []}
            how = {}
            cmd = {"read": 0, "write": 2, "undivided": 3, "conf": 6}[kind]
            answer = None
            how_answered = rng.choice(["recs"] * 7 + ["default", "default", "none"])
            if how_answered == "default":
                st = rng.choice(STATUSES) if kind == "read" or rng.random() < 0.7 else 0
                answer = {"a": {"kind": "default", "recs": [], "status": st}, "body": [0x0B, cmd, st]}
            if kind == "read":
                how["keys"] = [key(a) for a in ids]
                if how_answered == "recs":
                    wire = [a for a in ids if not (custom and a in (1, 5))]
                    if rng.random() < 0.2:
                        wire = rng.sample(wire, rng.randrange(len(wire) + 1))
                    if rng.random() < 0.1:
                        rng.shuffle(wire)
                    if rng.random() < 0.1:
                        wire.append(rng.choice([a for a in every if not (custom and a in (1, 5))]))
                    recs, body = [], [1]
                    for a in wire:
                        if rng.random() < 0.3:
                            st = rng.choice(STATUSES)
                            recs.append({"id": a, "st": st, "val": "", "fits": True})
                            body += le16(a) + [st]
                        else:
                            ty, v, fits = wire_value(rng, attrs, a)
                            recs.append({"id": a, "st": 0, "val": text(v), "fits": fits})
                            body += le16(a) + [0, ty] + enc(ty, v)
                    answer = {"a": {"kind": "recs", "recs": recs, "status": 0}, "body": body}
            elif kind in ("write", "undivided"):
                how["items"] = []
                for a in ids:
                    r = rng.random()
                    if a == UNKNOWN:
                        if r < 0.8:
                            how["items"].append([a, 5])
                            o["attrs"].append({"id": a, "kind": "skip", "bytes": [], "val": "", "fits": True})
                        else:
                            how["items"].append(["no_such", 5])
                            o["attrs"].append({"id": a, "kind": "KeyError", "bytes": [], "val": "", "fits": True})
                        continue
                    ty = attrs[a][1]
                    if r < 0.07 and ty != STR:
                        how["items"].append([key(a), 70000])
                        o["attrs"].append({"id": a, "kind": "ValueError", "bytes": [], "val": "", "fits": True})
                        continue
                    v = value(rng, ty)
                    how["items"].append([key(a), v])
                    o["attrs"].append({"id": a, "kind": "ok", "bytes": le16(a) + [ty] + enc(ty, v), "val": text(v), "fits": True})
                usable = [x for x in o["attrs"] if x["kind"] == "ok"]
                if how_answered == "recs":
                    bad = [x["id"] for x in usable if rng.random() < 0.3]
                    if not bad:
                        recs, body = [{"id": -1, "st": 0, "val": "", "fits": True}], [cmd == 2 and 4 or 4, 0]
                    else:
                        sts = [rng.choice(STATUSES) for _ in bad]
                        recs = [{"id": a, "st": s, "val": "", "fits": True} for a, s in zip(bad, sts)]
                        body = [4] + [b for a, s in zip(bad, sts) for b in [s] + le16(a)]
                    answer = {"a": {"kind": "recs", "recs": recs, "status": 0}, "body": body}
            else:
                how["items"] = []
                for a in ids:
                    if a == UNKNOWN:
                        if rng.random() < 0.7 and len(ids) > 1:
                            continue
                        how["items"].append([rng.choice([a, "no_such"]), [0, 1, 1]])
                        o["attrs"].append({"id": a, "kind": "ValueError", "bytes": [], "val": "", "fits": True})
                        continue
                    ty = attrs[a][1]
                    lo, hi, ch = rng.choice([0, 30]), rng.choice([300, 65535]), rng.choice([1, 5])
                    how["items"].append([key(a), [lo, hi, ch]])
                    o["attrs"].append({"id": a, "kind": "ok", "val": "", "fits": True,
                                       "bytes": [0] + le16(a) + [ty] + le16(lo) + le16(hi) + (enc(ty, ch) if ty in (U8, U16) else [])})
                if how_answered == "recs":
                    if rng.random() < 0.4:
                        recs, body = [{"id": -1, "st": 0, "val": "", "fits": True}], [7, 0]
                    else:
                        recs, body = [], [7]
                        for x in o["attrs"]:
                            st = rng.choice([0] + STATUSES)
                            if st or rng.random() < 0.5:
                                recs.append({"id": x["id"], "st": st, "val": "", "fits": True})
                                body += [st, 0] + le16(x["id"])
                        if len(recs) == 1 and recs[0]["st"] == 0:
                            recs[0]["id"] = -1
                    if recs:
                        answer = {"a": {"kind": "recs", "recs": recs, "status": 0}, "body": body}
                o["ids"] = [x["id"] for x in o["attrs"]]
            ops.append(["call", o, how, answer])
        elif kind == "report":
            n += 1
            cl, ep = (cid, 1) if rng.random() < 0.7 else rng.choice([(ONOFF, 1), (ONOFF, 2), (TIME, 2), (BASIC, 2)])
            here = cl == cid and ep == 1
            recs, body = [], []
            for a in rng.sample(every, rng.choice([1, 1, 2, 4])):
                ty, v, fits = wire_value(rng, attrs, a) if here else (U8, 1, True)
                recs.append({"id": a, "val": text(v), "fits": fits})
                body += le16(a) + [ty] + enc(ty, v)
            ddr, tsn = rng.random() < 0.5, rng.randrange(256)
            manuf = rng.random() < 0.2
            ops.append(["recv", n, {"kind": "report", "ep": ep, "cl": cl, "here": here, "client": cl in (TIME, OTA) or (cl, ep) == (BASIC, 2), "ddr": ddr, "tsn": tsn, "cmd": 10, "recs": recs, "ids": []},
                        [rng.choice([0, 8]) + 16 * ddr + 4 * manuf] + ([0x11, 0x11] if manuf else []) + [tsn, 10] + body])
        elif kind == "readreq":
            n += 1
            ep, cl = rng.choice([(1, TIME), (1, TIME), (1, BASIC), (2, TIME), (2, BASIC), (1, ONOFF)])
            ids = [rng.choice([0, 1, 2, 7, 3, 8, 4, 0xFFFD, UNKNOWN]) for _ in range(rng.choice([0, 1, 1, 2, 4, 8]))]
            tsn = rng.randrange(256)
            ops.append(["recv", n, {"kind": "readreq", "ep": ep, "cl": cl, "here": False, "client": cl in (TIME, OTA) or (cl, ep) == (BASIC, 2), "ddr": False, "tsn": tsn, "cmd": 0, "recs": [], "ids": ids},
                        [rng.choice([0, 8, 16])] + [tsn, 0] + [b for a in ids for b in le16(a)]])
        elif kind in ("zone", "query", "block", "other"):
            n += 1
            tsn, ddr = rng.randrange(100, 256), rng.random() < 0.5  # (no answer to a request of ours)
            if kind == "zone":
                cmd = rng.choice([0, 0, 1])
                cl, data = ZONE, [1 + 8 + 16 * ddr, tsn, cmd] + ([1, 0, 0, 0, 0, 0] if cmd == 0 else [0x0D, 0, 1, 2])
            elif kind == "query":
                cmd, cl, data = 1, OTA, [1 + 16 * ddr, tsn, 1, 0, 1, 2, 3, 4, 5, 6, 7, 8]
            elif kind == "block":
                cmd, cl, data = 3, OTA, [1 + 16 * ddr, tsn, 3, 0, 1, 2, 3, 4, 5, 6, 7, 8, 0, 0, 0, 0, 40]
            else:
                cl, data = rng.choice([
                    (ONOFF, [1 + 16 * ddr, tsn, rng.choice([0, 1, 2])]), (BASIC, [0, tsn, 0x0B, rng.choice([0, 10]), rng.choice([0, 0x86])]),
                    (BASIC, [0x18, tsn, 0x0B, rng.choice([0, 10]), 0]), (BASIC, [0, tsn, 2, 0x10, 0, 0x42, 1, 65]), (BASIC, [0, tsn, 0x0C, 0, 0, 10]),
                    (BASIC, [0, tsn, 0x77, 1]), (BASIC, [0, tsn]), (BASIC, [0, tsn, 10, 0]), (OTA, [1, tsn, 6, 0] + [1] * 8), (OTA, [0x19, tsn, 1] + [0] * 9), (ONOFF, [0x19, tsn, 9]),
                    (TIME, [0, tsn, 0, 0]), (BASIC, [0x18, tsn, 1, 0, 0, 0x86]), (0x0999, [0, tsn, 0, 0, 0]), (BASIC, [0, tsn, 6, 0, 4, 0, 0x20, 0, 0, 0, 0, 0])])
                cmd = 0
            ops.append(["recv", n, {"kind": kind, "ep": 1, "cl": cl, "here": False, "client": cl in (TIME, OTA), "ddr": ddr, "tsn": tsn, "cmd": cmd, "recs": [], "ids": []}, data])
        elif kind == "local":
            what = rng.choice(["update", "clear", "clear", "mark", "unmark"])
            a = rng.choice(every)
            ops.append(["local", what, a, value(rng, attrs[a][1]) if a in attrs else 5, key(a)])
        elif kind == "updating":
            ops.append(["updating", rng.random() < 0.5])
        else:
            ops.append([kind])
        if rng.random() < 0.5:
            ops.append(["settle"])
        if rng.random() < 0.25:
            ops.append(["adv", rng.choice([50, 150, 5000, 11000])])
        if rng.random() < 0.1:
            ops.append(["obs"])
    return {"custom": custom, "cid": cid, "rsp_fail": rng.random() < 0.2, "plans": plans, "ops": ops}


def cache_script(rng):
    return random_script(rng, "cache")


def answers_script(rng):
    return random_script(rng, "answers")


def check_c20(ctx):
    ctx.model_check("MC_Zcl")
    if not ctx.quick:
        ctx.model_check("MC_Zcl", "MC_Zcl_deep")
    ctx.check_traces("cache", "Zcl_Trace", drive, [cache_script(ctx.rng) for _ in range(ctx.n(2500, 40000))])


def check_c21(ctx):
    ctx.model_check("MC_Zcl")
    ctx.check_traces("answers", "Zcl_Trace", drive, [answers_script(ctx.rng) for _ in range(ctx.n(2500, 40000))])
