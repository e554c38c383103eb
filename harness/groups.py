"""C14: group membership (spec: Groups)."""
from __future__ import annotations

import asyncio
import contextvars

from . import stub, vloop

CUR = contextvars.ContextVar("call", default=None)


def drive(script, events):
    import zigpy.exceptions as ze
    import zigpy.types as t

    over = []

    def ev(e):
        if not over:
            events.append(e)

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()

        def now():
            return round((loop.time() - t0) * 1000)

        app = stub.make_app()
        names, keep, devs = {}, [], {}
        gen = [0]

        def nm(ep):
            return names.get(id(ep), "?")

        def add_device(n):
            gen[0] += 1
            dev = stub.add_device(app, n, 0x1000 + n, eps={i: (ins, []) for i, ins in {1: [4, 6], 2: [6], 3: [4]}.items() if i in script["eps"][n]})
            dev.schedule_initialize = lambda: None
            dn = f"n{n}#{gen[0]}"
            keep.append(dev)
            rows = []
            for ep in dev.non_zdo_endpoints:
                names[id(ep)] = f"{dn}.{ep.endpoint_id}"
                rows.append({"ep": nm(ep), "dev": dn, "able": 4 in ep.in_clusters})
            devs[n] = (dn, dev)
            ev({"ev": "device", "eps": rows})

        class L:
            def group_added(self, g):
                ev({"ev": "announce", "a": {"what": "added", "gid": int(g.group_id), "ep": ""}})

            def group_removed(self, g):
                ev({"ev": "announce", "a": {"what": "removed", "gid": int(g.group_id) if hasattr(g, "group_id") else -1, "ep": ""}})

            def group_member_added(self, g, ep):
                ev({"ev": "announce", "a": {"what": "member_added", "gid": int(g.group_id), "ep": nm(ep)}})

            def group_member_removed(self, g, ep):
                ev({"ev": "announce", "a": {"what": "member_removed", "gid": int(g.group_id), "ep": nm(ep)}})

        app.groups.add_listener(L())
        plans = list(script["plans"])

        async def on_send(packet):
            i = CUR.get()
            data = list(packet.data.serialize())
            if packet.dst_ep == 0:
                raise ze.DeliveryError("no leave")
            dev = target[i]
            eid = int(packet.dst_ep)
            ep = dev.endpoints[eid]
            ok = int(packet.cluster_id) == 4 and data[0] == 1 and packet.dst.address == dev.nwk
            cmd = data[2] if ok else -1
            gid = data[3] + 256 * data[4] if cmd in (0, 3) else 0
            name = bytes(data[6:]).decode() if cmd == 0 and data[5] == len(data) - 6 else "?" if cmd == 0 else ""
            if cmd == 2 and data[3:] != [0]:
                cmd = -1
            if cmd == 3 and len(data) != 5:
                cmd = -1
            ev({"ev": "sent", "id": i, "ep": nm(ep), "cmd": cmd, "gid": gid, "name": name, "t": now()})
            plan = plans.pop(0) if plans else {"kind": "rsp", "status": 0, "groups": [], "delay": 0, "reply": 0, "ok": True}

            def reply():
                if app.devices.get(dev.ieee) is not dev or i in done:
                    return
                st = plan["status"]
                gs = [gid if g == -1 else g for g in plan["groups"]]
                if plan["kind"] == "rsp":
                    body = [0x19, data[1], cmd] + ([st] + data[3:5] if cmd != 2 else [255, len(gs)] + [b for g in gs for b in (g % 256, g // 256)])
                else:
                    body = [0x18, data[1], 0x0B, cmd, st]
                ev({"ev": "answer", "id": i, "ep": nm(ep), "kind": plan["kind"], "status": st, "groups": gs, "t": now()})
                app.packet_received(t.ZigbeePacket(
                    src=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=dev.nwk), src_ep=eid, dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)),
                    dst_ep=1, profile_id=260, cluster_id=4, data=t.SerializableBytes(bytes(body))))

            if plan["kind"] != "none" and cmd >= 0:
                loop.call_later(plan["reply"] / 1000, reply) if plan["reply"] else loop.call_soon(reply)
            if plan["delay"]:
                await asyncio.sleep(plan["delay"] / 1000)
            ev({"ev": "radio", "id": i, "ok": plan["ok"], "t": now()})
            if not plan["ok"]:
                raise ze.DeliveryError("planned")

        app.on_send = on_send
        target, done, scans, tasks = {}, set(), {}, []
        for n in script["devices"]:
            add_device(n)

        def ended(i, out):
            done.add(i)
            ev({"ev": "result", "id": i, "out": out, "t": now()})

        async def call(i, kind, obj, gid, name):
            CUR.set(i)
            kw = {} if name is None else {"name": name}
            try:
                if kind == "add":
                    r = await obj.add_to_group(gid, **kw)
                elif kind == "remove":
                    r = await obj.remove_from_group(gid)
                else:
                    r = await obj.group_membership_scan()
                out = "ok" if r is None else str(int(r))
            except (asyncio.TimeoutError, ze.DeliveryError) as e:
                out = type(e).__name__
            ended(i, out)

        def obs():
            gs = [{"gid": int(k), "name": "-" if g.name.startswith("No name group") else g.name, "members": [nm(e) if k2 == e.unique_id and int(g.group_id) == k else "?" for k2, e in g.members.items()]}
                  for k, g in app.groups.items()]
            ms = [{"ep": nm(ep), "groups": [int(k) for k in ep.member_of]} for d in keep for ep in d.non_zdo_endpoints]
            ev({"ev": "obs", "groups": gs, "member": ms, "known": [next(dn for dn, d2 in allnames if d2 is d) for d in app.devices.values()], "t": now()})

        allnames = []
        leaving = set()
        i = 0
        for op in script["ops"]:
            k = op[0]
            allnames[:] = allnames + [x for x in devs.values() if x not in allnames]
            if k in ("add_member", "remove_member", "update"):
                n, eid = op[2]
                if n not in devs or devs[n][1] in leaving or eid not in devs[n][1].endpoints:
                    continue
                ep = devs[n][1].endpoints[eid]
                if k == "update":
                    ev({"ev": k, "ep": nm(ep), "gids": op[1]})
                    app.groups.update_group_membership(ep, set(op[1]))
                elif op[1] in app.groups:
                    ev({"ev": k, "gid": op[1], "ep": nm(ep), "quiet": op[3]})
                    f = getattr(app.groups[op[1]], k)
                    f(ep, suppress_event=True) if op[3] else f(ep)
                obs()
            elif k == "add_group":
                ev({"ev": k, "gid": op[1], "name": "-" if op[2] is None else op[2], "quiet": op[3]})
                app.groups.add_group(op[1], op[2], suppress_event=op[3])
                obs()
            elif k == "pop":
                known = op[1] in app.groups
                ev({"ev": k, "gid": op[1], "known": known})
                if op[2] == "group" and known:
                    app.groups.pop(app.groups[op[1]])
                elif op[2] == "default":
                    app.groups.pop(op[1], None)
                else:
                    try:
                        app.groups.remove_group(op[1])
                        got = True
                    except KeyError:
                        got = False
                    if got != known:
                        ev({"ev": "wrong exception"})
                obs()
            elif k == "call":
                _, kind, n, eid, gid, name = op
                if n not in devs or devs[n][1] in leaving:
                    continue
                dn, dev = devs[n]
                i += 1
                target[i] = dev
                single = eid != 0 and kind != "rejoin"
                if single and eid not in dev.endpoints:
                    continue
                todo = [nm(dev.endpoints[eid])] if single else [nm(e) for e in dev.non_zdo_endpoints]
                if kind == "rejoin" or (kind == "scan" and not single):
                    prev = scans.get(dn)
                    if prev is not None and prev not in done:
                        ev({"ev": "cancelled", "id": prev})
                    scans[dn] = i
                    ev({"ev": "call", "id": i, "kind": "scan", "single": False, "todo": todo, "gid": gid, "name": "", "named": False})
                    tok = CUR.set(i)
                    if kind == "rejoin":
                        old = dev._group_scan_task if hasattr(dev, "_group_scan_task") else None
                        orig = asyncio.all_tasks()
                        app.handle_join(dev.nwk, dev.ieee, t.NWK(0), handle_rejoin=True)
                        new = [x for x in asyncio.all_tasks() if x not in orig]
                        task = new[0]
                    else:
                        task = dev.schedule_group_membership_scan()
                    CUR.reset(tok)
                    task.add_done_callback(lambda x, i=i: ended(i, "CancelledError" if x.cancelled() else "ok" if x.exception() is None else repr(x.exception())))
                    tasks.append(task)
                else:
                    ev({"ev": "call", "id": i, "kind": kind, "single": single, "todo": todo, "gid": gid, "name": name or "", "named": name is not None})
                    tasks.append(asyncio.eager_task_factory(loop, call(i, kind, dev.endpoints[eid] if single else dev, gid, name), context=contextvars.copy_context()))
            elif k == "leave":
                if op[1] in devs and devs[op[1]][1] not in leaving:
                    leaving.add(devs[op[1]][1])
                    ev({"ev": "leaving", "dev": devs[op[1]][0]})
                    await app.remove(devs[op[1]][1].ieee)
            elif k == "join":
                if op[1] not in devs or stub.ieee(op[1]) not in app.devices:
                    add_device(op[1])
            elif k == "settle":
                await vloop.settle()
                obs()
            else:
                await vloop.advance(op[1] / 1000)
                obs()
        allnames[:] = allnames + [x for x in devs.values() if x not in allnames]
        await vloop.advance(100)
        obs()
        for x in tasks:
            if not x.cancelled():
                x.result()
        ev({"ev": "end"})
        over.append(1)

    vloop.run(main)
    return events


def random_script(rng):
    eps = {n: rng.choice([[1], [1, 2], [1, 2, 3], [1, 3], [2]]) for n in (1, 2, 3)}
    plans = []
    bad = rng.choice([0, 0.2, 0.5])
    for _ in range(60):
        good = rng.random() >= bad
        kind = "rsp" if good or rng.random() < 0.4 else rng.choice(["default", "default", "none"])
        plans.append({"kind": kind, "status": rng.choice([0, 0, 0, 138, 139]) if kind == "rsp" and good else rng.choice([0x81, 0x82, 0x89, 0x8A, 0x8B, 0x01, 0x00, 0x03]),
                      "groups": rng.sample([-1, 1, 2, 3, 0x1234], rng.choice([0, 1, 2, 3])) + rng.choice([[], [], [2]]), "ok": good or rng.random() < 0.8,
                      "delay": rng.choice([0, 0, 0, 100, 900]), "reply": rng.choice([0, 0, 60, 300, 4500]) if rng.random() < 0.7 else 5400})
    ops = []
    gids = [1, 2, 3, 0x1234]
    for _ in range(rng.choice([3, 6, 12, 20])):
        k = rng.choice(["add_group", "pop", "add_member", "add_member", "remove_member", "update"] + ["call"] * 8 + ["leave", "join"])
        g, n, e = rng.choice(gids), rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
        if k == "add_group":
            ops.append([k, g, rng.choice([None, "lamps", "Küche"]), rng.random() < 0.2])
        elif k == "pop":
            ops.append([k, g, rng.choice(["group", "id", "default"])])
        elif k in ("add_member", "remove_member"):
            ops.append([k, g, [n, e], rng.random() < 0.2])
        elif k == "update":
            ops.append([k, rng.sample(gids, rng.randrange(4)), [n, e]])
        elif k == "call":
            ops.append([k, rng.choice(["add", "add", "remove", "scan", "scan", "rejoin"]), n, rng.choice([0, 0, 1, 1, 2, 3]), g, rng.choice([None, "", "lamps", "Flur é"])])
        else:
            ops.append([k, n])
        r = rng.random()
        if r < 0.5:
            ops.append(["settle"])
        elif r < 0.8:
            ops.append(["adv", rng.choice([50, 100, 1000, 5500, 12000])])
    return {"eps": eps, "devices": rng.sample([1, 2, 3], rng.choice([1, 2, 3])), "plans": plans, "ops": ops}


def check_c14(ctx):
    ctx.model_check("MC_Groups")
    if not ctx.quick:
        ctx.model_check("MC_Groups", "MC_Groups_deep")
    ctx.check_traces("groups", "Groups_Trace", drive, [random_script(ctx.rng) for _ in range(ctx.n(3000, 40000))])
