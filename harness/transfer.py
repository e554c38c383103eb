"""C22: firmware updates of devices.  Area `Transfer`."""
from __future__ import annotations

import asyncio
import struct

from . import stub, vloop

OTA = 0x0019
KINDS = {0x00: "notify", 0x02: "query", 0x05: "block", 0x07: "end"}


def small(v):
    return v - 2**31 if v >= 2**31 else v


def image_bytes(i, *, force=False):
    """an OTA file, by the book"""
    fc = (1 if i["sec"] else 0) | (2 if i["dest"] else 0) | (4 if i["hw"] else 0)
    opt = b""
    if i["sec"]:
        opt += bytes([i["sec"]])
    if i["dest"]:
        opt += bytes(range(8))
    if i["hw"]:
        opt += struct.pack("<HH", *i["hw"])
    body = b"".join(struct.pack("<HI", tag, n) + bytes((7 * k + tag + n) % 256 for k in range(n)) for tag, n in i["elements"])
    return struct.pack("<IHHHHHIH32sI", 0x0BEEF11E, 0x0100, 56 + len(opt), fc, i["manuf"], i["type"],
                       0xFFFFFFFE if force else i["version"], 2, b"An image".ljust(32, b"\0"), 56 + len(opt) + len(body)) + opt + body


def meta(i, force):
    return {"version": small(0xFFFFFFFE if force else i["version"]), "manuf": i["manuf"], "type": i["type"], "minhw": i["hw"][0] if i["hw"] else -1,
            "maxhw": i["hw"][1] if i["hw"] else -1, "mincur": i["mincur"], "maxcur": i["maxcur"], "spec": -1, "names": i["names"], "models": i["models"]}


def drive(script, events):
    import zigpy.exceptions as ze
    import zigpy.ota
    import zigpy.ota.image
    import zigpy.ota.providers
    import zigpy.types as t

    over = []

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()

        def ev(e):
            if not over:
                events.append({**e, "t": round((loop.time() - t0) * 1000)})

        app = stub.make_app()
        devs, eps = {}, {}
        for n, d in enumerate(script["devs"], 1):
            eps[d["d"]] = d["ep"]
            dev = devs[d["d"]] = stub.add_device(app, n, 0x1000 + n, kind=d["kind"], eps={1: ([0], [3]), d["ep"]: ([0], [6, OTA]), 200: ([0], [3])})
            dev.schedule_initialize = lambda: None
            cl = dev.endpoints[d["ep"]].out_clusters[OTA]

            class Listener:
                def __init__(self, d):
                    self.d = d

                def attribute_cleared(self, attrid):
                    ev({"ev": "cleared", "d": self.d})

            cl.add_listener(Listener(d["d"]))
            if d["cached"]:
                cl.update_attribute(2, t.uint32_t(1))
        names = {dev.nwk: d for d, dev in devs.items()}
        events.append({"ev": "init", "devs": sorted(devs)})
        plans = {d["d"]: list(d["plans"]) for d in script["devs"]}
        reads = {d["d"]: list(d["reads"]) for d in script["devs"]}

        def cluster(d):
            return devs[d].endpoints[eps[d]].out_clusters[OTA]

        async def on_send(packet):
            d = names[packet.dst.address]
            data = packet.data.serialize()
            fc, tsn, cmd = data[0], data[1], data[2]
            assert packet.cluster_id == OTA and packet.dst_ep == eps[d] and packet.profile_id == 260, packet
            e = {"d": d, "tsn": tsn}
            if fc & 3 == 0:
                assert data[2] == 0 and data[3:] == b"\x02\x00", packet
                ev({"ev": "tx", **e, "kind": "read"})
                how = reads[d].pop(0) if reads[d] else "ok"
                if how == "fail":
                    raise ze.DeliveryError("planned")
                if how != "lost":
                    body = b"\x02\x00\x86" if how == "bad" else b"\x02\x00\x00\x23" + struct.pack("<I", 77)
                    loop.call_later(0.05, receive, d, bytes([0x18 if fc & 8 == 0 or True else 0x18, tsn, 0x01]) + body)
                return
            # to the device from the server side of the cluster, nothing to be confirmed
            assert fc & 3 == 1 and fc & 8 and not fc & 4, packet
            e["kind"] = KINDS[cmd]
            e["status"] = -1 if cmd in (0, 7) else data[3]
            body = data[4:] if cmd in (2, 5) else data[3:]
            if e["kind"] == "notify":
                assert body == b"\x00\x64", packet
            elif e["kind"] == "block" and e["status"] == 0:
                m, ty, v, off, n = struct.unpack_from("<HHIIB", body)
                assert len(body) == 13 + n
                e.update(manuf=m, type=ty, version=small(v), off=off, data=list(body[13:]))
            elif e["kind"] == "query" and e["status"] == 0:
                m, ty, v, size = struct.unpack("<HHII", body)
                e.update(manuf=m, type=ty, version=small(v), size=size)
            elif e["kind"] == "end":
                m, ty, v, a, b = struct.unpack("<HHIII", body)
                assert a == 0 and b == 0
                e.update(manuf=m, type=ty, version=small(v))
            ev({"ev": "tx", **e})
            plan = plans[d].pop(0) if plans[d] else {"delay": 0, "ok": True}
            if plan["delay"]:
                await asyncio.sleep(plan["delay"] / 1000)
            ev({"ev": "sent", "d": d, "kind": e["kind"], "tsn": tsn, "ok": plan["ok"], "cached": cluster(d).get("current_file_version") is not None})
            if not plan["ok"]:
                raise (ze.DeliveryError("planned") if plan["delay"] % 2 else asyncio.TimeoutError())

        app.on_send = on_send
        count = [0]

        def receive(d, data):
            if not over:
                count[0] += 1
                app.packet_received(stub.packet(devs[d].nwk, OTA, data, src_ep=eps[d], dst_ep=1, radius=count[0] % 200))

        tasks = {}

        def progress(d):
            def cb(cur, total, pct):
                ev({"ev": "progress", "d": d, "cur": int(cur), "total": int(total), "pct": int(pct * 1000)})
            return cb

        async def update(d, i, o):
            im = o["img"]
            firmware, rest = zigpy.ota.image.OTAImage.deserialize(image_bytes(im))
            md = zigpy.ota.providers.BaseOtaImageMetadata(
                file_version=im["version"], manufacturer_id=im["manuf"] if im["known"] else None, image_type=im["type"] if im["known"] else None,
                manufacturer_names=tuple(im["names"]), model_names=tuple(im["models"]),
                min_current_file_version=None if im["mincur"] == -1 else im["mincur"], max_current_file_version=None if im["maxcur"] == -1 else im["maxcur"])
            img = zigpy.ota.OtaImageWithMetadata(metadata=md, firmware=firmware)
            try:
                r = await devs[d].update_firmware(img, progress_callback=progress(d), force=o["force"])
                r = -1 if r is None else int(r)
            except asyncio.CancelledError:
                raise
            except Exception as e:
                r = -2
                ev({"ev": "error", "what": repr(e)[:80]})
            ev({"ev": "returned", "d": d, "id": i, "status": r})

        n = 0
        for o in script["ops"]:
            k = o["op"]
            d = o.get("d")
            if k == "start":
                n += 1
                data = image_bytes(o["img"], force=o["force"])
                ev({"ev": "start", "d": d, "id": n, "img": list(data), "force": o["force"], "meta": meta(o["img"], o["force"]),
                    "hdr": {"manuf": o["img"]["manuf"], "type": o["img"]["type"], "version": small(0xFFFFFFFE if o["force"] else o["img"]["version"]), "size": len(data)}})
                tasks[n] = (d, asyncio.ensure_future(update(d, n, o)))
                await vloop.settle()
            elif k == "cancel":
                for i, (x, task) in tasks.items():
                    if x == d and not task.done():
                        ev({"ev": "cancel", "d": d, "id": i})
                        task.cancel()
                await vloop.settle()
            elif k == "wait":
                await vloop.advance(o["ms"] / 1000)
            else:
                e = {"ev": "rx", "d": d, "n": count[0], "kind": k, "tsn": o["tsn"], "off": 0, "max": 0, "status": 0, "q": {}}
                if k == "block":
                    fc = o["fc"]
                    data = bytes([0x11, o["tsn"], 0x03, fc]) + struct.pack("<HHIIB", o["manuf"], o["type"], 5, o["off"], o["max"])
                    data += (bytes(8) if fc & 1 else b"") + (b"\x01\x00" if fc & 2 else b"")
                    e.update(off=min(o["off"], 2**30), max=o["max"])
                elif k == "query":
                    data = bytes([0x11, o["tsn"], 0x01, 0 if o["hw"] == -1 else 1]) + struct.pack("<HHI", o["manuf"], o["type"], o["cur"])
                    data += b"" if o["hw"] == -1 else struct.pack("<H", o["hw"])
                    e["q"] = {"manuf": o["manuf"], "type": o["type"], "cur": o["cur"], "hw": o["hw"], "name": "Manufacturer", "model": "Model"}
                elif k == "end":
                    data = bytes([0x11, o["tsn"], 0x06, o["status"]]) + struct.pack("<HHI", o["manuf"], o["type"], 5)
                    e["status"] = o["status"]
                ev(e)
                receive(d, data)
                if o["settle"]:
                    await vloop.settle()
        await vloop.advance(900)
        ev({"ev": "quiet"})
        over.append(1)

    vloop.run(main)


def random_script(rng):
    devs = [{"d": d, "ep": rng.choice([1, 11, 2]), "cached": rng.random() < 0.7, "kind": rng.choice(["router", "router", "end"]),
             "plans": [{"delay": rng.choice([0, 0, 0, 3, 50, 400, 9001]), "ok": rng.random() < rng.choice([0.85, 0.97])} if slow else {"delay": rng.choice([0, 0, 20]), "ok": True}
                       for slow in [rng.random() < 0.4] for _ in range(30)],
             "reads": [rng.choice(["ok", "ok", "ok", "lost", "fail", "bad"]) for _ in range(rng.randint(0, 6))]} for d in ("a", "b")[:rng.choice([1, 1, 2])]]
    ops, tsn = [], rng.randint(0, 255)

    def img():
        hw = rng.choice([None, None, None, [0, 0xFFFF], [2, 5], [5, 2]])
        return {"sec": rng.choice([0, 0, 1]), "dest": rng.random() < 0.2, "hw": hw, "manuf": rng.choice([4476, 4476, 1]), "type": rng.choice([9, 9, 0]), "version": rng.choice([5, 5, 6, 2**30]),
                "elements": [[rng.choice([0, 0xF000]), rng.choice([0, 1, 10, 60, 150])] for _ in range(rng.randint(0, 3))], "known": True,
                "names": rng.choice([[], [], ["Manufacturer"], ["Other"]]), "models": rng.choice([[], [], ["Model", "x"], ["model"]]),
                "mincur": rng.choice([-1, -1, 1, 3]), "maxcur": rng.choice([-1, -1, 4, 1])}

    state = {}

    def req(d, k, **kw):
        nonlocal tsn
        tsn = (tsn + rng.choice([1, 1, 1, 0, 7])) % 256
        ops.append({"op": k, "d": d, "tsn": tsn, "manuf": rng.choice([4476, 4476, 4476, 1]), "type": rng.choice([9, 9, 9, 0]), "settle": rng.random() < 0.8, **kw})

    def query(d):
        req(d, "query", cur=rng.choice([0, 1, 2, 3, 4, 5, 6]), hw=rng.choice([-1, -1, 0, 2, 3, 5, 9]))

    def block(d, off, mx=None):
        req(d, "block", off=off, max=rng.choice([40, 50, 255, 1, 39, 63]) if mx is None else mx, fc=rng.choice([0, 0, 0, 1, 2, 3]))

    for _ in range(rng.choice([1, 2, 2, 3])):
        d = rng.choice(devs)["d"]
        i = img()
        if rng.random() < 0.5:
            i.update(mincur=-1, maxcur=-1, names=[], models=[], manuf=4476, type=9)
        size = len(image_bytes(i))
        ops.append({"op": "start", "d": d, "img": i, "force": rng.random() < 0.2})
        if rng.random() < 0.5:
            ops.append({"op": "wait", "ms": rng.choice([7, 500, 29993, 30000, 30007])})
        if rng.random() < 0.6:
            req(d, "query", cur=4, hw=rng.choice([-1, 3]), manuf=4476, type=9)
            if rng.random() < 0.5:
                ops.append({"op": "wait", "ms": rng.choice([7, 500])})
        off, sz = 0, rng.choice([40, 63, 30, 13])
        while off < size and rng.random() < 0.97:
            r = rng.random()
            if r < 0.75:
                block(d, off, sz)
                off += min(40, sz)
            elif r < 0.83:
                block(d, rng.choice([0, 1, 55, 56, max(0, off - 20), size - 1]))
            elif r < 0.85:
                block(d, rng.choice([size, size + 1, 2**31, 2**32 - 1]))
            elif r < 0.86:
                block(d, 0, 0)
            elif r < 0.88:
                query(d)
            elif r < 0.90:
                block(rng.choice(devs)["d"], rng.choice([0, 40]))
            elif r < 0.92:
                ops.append({"op": "start", "d": rng.choice(devs)["d"], "img": img(), "force": False})
            elif r < 0.93:
                ops.append({"op": "cancel", "d": d})
            elif r < 0.94:
                req(d, "end", status=rng.choice([0, 0x95, 0x96, 0x01]))
            else:
                ops.append({"op": "wait", "ms": rng.choice([3, 7, 107, 3003, 15001, 29999, 30000, 30001])})
        if rng.random() < 0.85:
            req(d, "end", status=rng.choice([0, 0, 0, 0x95, 0x96, 0x99, 0x01]))
        for _ in range(rng.choice([0, 0, 1, 3])):
            r = rng.random()
            if r < 0.4:
                block(d, rng.choice([0, 40]))
            elif r < 0.6:
                query(d)
            elif r < 0.7:
                req(d, "end", status=0)
            else:
                ops.append({"op": "wait", "ms": rng.choice([7, 9993, 10000, 10007, 40003])})
        if rng.random() < 0.6:
            ops.append({"op": "wait", "ms": rng.choice([10, 5007, 20007, 120007])})
    return {"devs": devs, "ops": ops}


def check_c22(ctx):
    ctx.model_check("MC_Transfer")
    if not ctx.quick:
        ctx.model_check("MC_Transfer", "MC_Transfer_deep")
    ctx.check_traces("updates", "Transfer_Trace", drive, [random_script(ctx.rng) for _ in range(ctx.n(2500, 40000))])
