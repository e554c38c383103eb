"""C15, C16, C24: start-up, backups, background activities, shut-down (spec: Life)."""
from __future__ import annotations

import asyncio
import contextvars
import errno
import json
import random as _random

from . import stub, vloop

KINDS = ["NetworkNotFormed", "ConnectionResetError", "ENETUNREACH", "OSError", "RuntimeError", "ControllerException", "TimeoutError"]
NEVER = 0


def _exc(kind):
    import zigpy.exceptions as ze
    import zigpy.types as t
    return {"NetworkNotFormed": lambda: ze.NetworkNotFormed("planned"), "ConnectionResetError": lambda: ConnectionResetError("planned"),
            "ENETUNREACH": lambda: OSError(errno.ENETUNREACH, "planned"), "OSError": lambda: OSError(errno.EIO, "planned"),
            "RuntimeError": lambda: RuntimeError("planned"), "ControllerException": lambda: ze.ControllerException("planned"), "TimeoutError": lambda: asyncio.TimeoutError(),
            "DeliveryError": lambda: ze.DeliveryError("planned"), "busy": lambda: ze.DeliveryError("planned", status=t.MACStatus.MAC_CHANNEL_ACCESS_FAILURE)}[kind]()


def _name(e):
    import zigpy.types as t
    if isinstance(e, OSError) and e.errno == errno.ENETUNREACH:
        return "ENETUNREACH"
    if getattr(e, "status", None) == t.MACStatus.MAC_CHANNEL_ACCESS_FAILURE:
        return "busy"
    return type(e).__name__


def drive(script, events):
    import zigpy.backups
    import zigpy.config as zc
    import zigpy.endpoint
    import zigpy.exceptions as ze
    import zigpy.state as zs
    import zigpy.topology
    import zigpy.types as t
    import zigpy.zdo.types as zdo_t

    over = []

    def ev(e):
        if not over:
            events.append(e)

    def eui(n):
        return {"unknown": t.EUI64.UNKNOWN, "ncp": stub.NCP_IEEE}.get(n) or t.EUI64(bytes([n_ for n_ in n.encode().ljust(8, b".")]))

    def eui_name(e):
        b = bytes(e.serialize())
        return "unknown" if b == b"\xff" * 8 else "ncp" if e == stub.NCP_IEEE else "zero" if b == bytes(8) else b.hex()

    def key(n):
        return t.KeyData.UNKNOWN if n == "unknown" else t.KeyData(n.encode().ljust(16, b"."))

    def key_name(k):
        b = bytes(k.serialize())
        return "unknown" if b == b"\xff" * 16 else "zero" if b == bytes(16) else b.hex()

    def info(n):
        """script network -> (NetworkInfo, NodeInfo)"""
        return (zs.NetworkInfo(
            extended_pan_id=t.ExtendedPanId(eui(n["epid"])), pan_id=t.PanId(n["pan"]), nwk_update_id=t.uint8_t(n["upd"]), nwk_manager_id=t.NWK(n["mgr"]),
            channel=t.uint8_t(n["chan"]), channel_mask=t.Channels.from_channel_list([15, 20]), security_level=t.uint8_t(5),
            network_key=zs.Key(key=key(n["key"]), tx_counter=t.uint32_t(n["tx"]), seq=t.uint8_t(n["seq"])),
            tc_link_key=zs.Key(key=key(n["tclk"]), partner_ieee=eui("ncp"), tx_counter=n["rest"]),
            children=[eui(f"child{n['rest']}")], key_table=[zs.Key(key=key("dev"), tx_counter=n["rest"], partner_ieee=eui("child1"))],
            nwk_addresses={eui("child1"): t.NWK(0x4000 + n["rest"])}, stack_specific={"x": {"y": n["rest"]}}, metadata={"m": n["rest"]}, source="stub"),
            zs.NodeInfo(nwk=t.NWK(n["nwk"]), ieee=eui(n["ieee"]), logical_type=zdo_t.LogicalType.Coordinator, model="Coord", manufacturer="Maker", version="1"))

    def net(ni, no):
        """(NetworkInfo, NodeInfo) -> record"""
        d = json.loads(json.dumps([ni.as_dict(), no.as_dict()], default=str, sort_keys=True))
        r = {"epid": eui_name(ni.extended_pan_id), "pan": int(ni.pan_id), "upd": int(ni.nwk_update_id), "mgr": int(ni.nwk_manager_id), "chan": int(ni.channel),
             "sec": int(ni.security_level), "tclk": key_name(ni.tc_link_key.key), "key": key_name(ni.network_key.key), "tx": int(ni.network_key.tx_counter),
             "seq": int(ni.network_key.seq), "tcp": eui_name(ni.tc_link_key.partner_ieee), "nwk": int(no.nwk), "ieee": eui_name(no.ieee),
             "lt": no.logical_type.name.lower()}
        d[0]["network_key"].pop("tx_counter")
        r["rest"] = json.dumps(d, sort_keys=True)
        return r

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()

        def now():
            return round((loop.time() - t0) * 1000)

        zigpy.topology.REQUEST_DELAY = (1.0, 1.0)
        c = script["conf"]
        nwk = {}
        if c["pan"] != -1:
            nwk[zc.CONF_NWK_PAN_ID] = t.PanId(c["pan"])
        if c["epid"]:
            nwk[zc.CONF_NWK_EXTENDED_PAN_ID] = t.ExtendedPanId(eui(c["epid"]))
        if c["key"]:
            nwk[zc.CONF_NWK_KEY] = list(key(c["key"]))
        if c["chan"]:
            nwk[zc.CONF_NWK_CHANNEL] = c["chan"]
        if c["chans"] is not None:
            nwk[zc.CONF_NWK_CHANNELS] = c["chans"]
        if c["tcp"]:
            nwk[zc.CONF_NWK_TC_ADDRESS] = eui(c["tcp"])
        if c["tclk"]:
            nwk[zc.CONF_NWK_TC_LINK_KEY] = list(key(c["tclk"]))
        if c["upd"]:
            nwk[zc.CONF_NWK_UPDATE_ID] = c["upd"]
        if c["seq"]:
            nwk[zc.CONF_NWK_KEY_SEQ] = c["seq"]
        conf = {"network": nwk, "watchdog_enabled": c["watchdog"], "startup_energy_scan": c["scan"], "validate_network_settings": c["validate"],
                "backup_enabled": c["backup"] > 0, "topology_scan_enabled": c["topo"] > 0, "topology_scan_skip_coordinator": True}
        if c["backup"]:
            conf["backup_period"] = c["backup"]
        if c["topo"]:
            conf["topology_scan_period"] = c["topo"]
        if c["ota"]:
            conf["ota"] = {"enabled": True, "providers": [], "broadcast_enabled": True, "broadcast_initial_delay": c["otafirst"], "broadcast_interval": c["ota"]}
        plans = {op: list(v) for op, v in script["plans"].items()}
        radio = [script["radio"]]      # what the radio has stored: (NetworkInfo, NodeInfo) or None
        radio[0] = None if radio[0] is None else info(radio[0])
        ids = [0]
        ns = [eui_name, key_name]

        async def call(op, work=None, **args):
            ids[0] += 1
            i = ids[0]
            a = {"time": 0, "form": False, "net": {"none": 0}}
            a.update(args)
            ev({"ev": "radio", "id": i, "op": op, "a": a, "t": now()})
            plan = (plans.get(op) or [None]).pop(0) if plans.get(op) else None
            delay, res = plan or (0, "ok")
            try:
                if delay:
                    await asyncio.sleep(delay / 1000)
            except asyncio.CancelledError:
                ev({"ev": "end", "id": i, "res": "cancelled", "net": {"none": 0}, "t": now()})
                raise
            n = {"none": 0}
            if res == "ok" and work is not None:
                try:
                    n = work() or n
                except ze.NetworkNotFormed:
                    res = "NetworkNotFormed"
            ev({"ev": "end", "id": i, "res": res, "net": n, "t": now()})
            if res != "ok":
                raise _exc(res)

        class App(stub.App):
            async def connect(self):
                await call("connect")

            async def disconnect(self):
                await call("disconnect")

            async def _watchdog_feed(self):
                await call("feed")

            async def start_network(self):
                def work():
                    if radio[0] is None:
                        raise ze.NetworkNotFormed()
                await call("start", work)

            async def load_network_info(self, *, load_devices=False):
                def work():
                    if radio[0] is None:
                        raise ze.NetworkNotFormed()
                    ni, no = radio[0]
                    if script["in_place"]:
                        for f in ni.__dataclass_fields__:
                            setattr(self.state.network_info, f, getattr(ni.replace(), f))
                        for f in no.__dataclass_fields__:
                            setattr(self.state.node_info, f, getattr(no, f))
                        k = ni.network_key
                        self.state.network_info.network_key = k.replace()
                    else:
                        self.state.network_info, self.state.node_info = ni.replace(network_key=ni.network_key.replace()), no.replace()
                    return net(self.state.network_info, self.state.node_info)
                await call("load", work)

            async def write_network_info(self, *, network_info, node_info):
                def work():
                    no = node_info if node_info.ieee != t.EUI64.UNKNOWN else node_info.replace(ieee=stub.NCP_IEEE)
                    ni = network_info.replace(network_key=network_info.network_key.replace())
                    radio[0] = (ni if ni.channel in range(11, 27) else ni.replace(channel=t.uint8_t(15)), no.replace())
                await call("write", work, net=net(network_info, node_info), form=bool(network_info.stack_specific.get("form_quickly", False)))

            async def energy_scan(self, channels, duration_exp, count):
                await call("scan")
                return {ch: script["energy"][ch - 11] for ch in channels}

            async def permit_ncp(self, time_s=60):
                await call("permitncp", time=time_s)

        app = stub.make_app(App, **conf)
        coord = app.add_device(stub.NCP_IEEE, t.NWK(0))
        coord.node_desc = stub.node_desc("coordinator")
        ep = coord.add_endpoint(1)
        ep.profile_id, ep.device_type = 260, 5
        coord.schedule_initialize = lambda: None
        ep.status = zigpy.endpoint.Status.ZDO_INIT
        if c["topo"]:
            dev = stub.add_device(app, 1, 0x1234)

        async def on_send(packet):
            cl = int(packet.cluster_id)
            data = packet.data.serialize()
            if cl == 0x0036 and packet.dst_ep == 0:
                await call("permit", time=data[1])
            elif cl == 0x0019:
                await call("notify")
            elif cl in (0x0031, 0x0032):
                await call({0x31: "neighbors", 0x32: "routes"}[cl])
                loop.call_soon(lambda: app.packet_received(t.ZigbeePacket(
                    src=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=dev.nwk), src_ep=0, dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)),
                    dst_ep=0, profile_id=0, cluster_id=cl | 0x8000, data=t.SerializableBytes(data[:1] + bytes([0, 0, 0, 0])))))
            else:
                ev({"ev": "?", "cl": cl})

        app.on_send = on_send
        known = {}     # id(backup) -> (number, backup)

        def number(b):
            if id(b) not in known:
                known[id(b)] = (1000 + len(known), b)
            return known[id(b)][0]

        class B:
            def network_backup_created(self, b):
                ev({"ev": "told", "what": "created", "id": number(b), "net": net(b.network_info, b.node_info), "t": now()})

            def network_backup_removed(self, b):
                ev({"ev": "told", "what": "removed", "id": number(b), "net": net(b.network_info, b.node_info), "t": now()})

        class L:
            def connection_lost(self, exc):
                ev({"ev": "told", "what": "lost", "id": 0, "net": _name(exc), "t": now()})
                if script["lost_shuts"] and "cur" in tasks and tasks["cur"].done():
                    begin("shutdown", {}, lambda: app.shutdown(db=True))

        app.backups.add_listener(B())
        app.add_listener(L())
        ev({"ev": "init", "conf": {"watchdog": c["watchdog"], "scan": c["scan"], "validate": c["validate"], "backup": c["backup"] * 60000, "topo": c["topo"] * 60000,
                                   "ota": c["ota"] * 1000, "otafirst": c["otafirst"] * 1000, "pan": c["pan"], "epid": eui_name(eui(c["epid"])) if c["epid"] else "",
                                   "key": key_name(key(c["key"])) if c["key"] else "", "chan": c["chan"], "chans": c["chans"] if c["chans"] is not None else [11, 15, 20, 25],
                                   "upd": c["upd"], "seq": c["seq"], "tclk": key_name(key(c["tclk"] or "ZigBeeAlliance09")), "tcp": eui_name(eui(c["tcp"] or "unknown"))},
            "state": net(app.state.network_info, app.state.node_info)})
        tasks = {}
        nc = [0]

        def begin(kind, a, fn):
            nc[0] += 1
            i = nc[0]
            aa = {"auto": False, "net": {"none": 0}, "inc": 0, "allow": False, "create": False}
            aa.update(a)
            ev({"ev": "call", "id": i, "kind": kind, "a": aa, "t": now()})

            async def run():
                out = "ok"
                try:
                    await fn()
                except asyncio.CancelledError:
                    out = "CancelledError"
                except BaseException as e:  # noqa: BLE001
                    out = _name(e)
                ev({"ev": "result", "id": i, "out": out, "t": now()})

            tasks["cur"] = asyncio.eager_task_factory(loop, run(), context=contextvars.copy_context())

        def backup_of(n):
            ni, no = info(n)
            return zigpy.backups.NetworkBackup(network_info=ni, node_info=no)

        def obs():
            ev({"ev": "obs", "t": now(), "hist": [{"id": number(b), "net": net(b.network_info, b.node_info)} for b in app.backups.backups]})

        busy = lambda: "cur" in tasks and not tasks["cur"].done()  # noqa: E731
        for op in script["ops"]:
            k = op[0]
            if k == "adv":
                await vloop.advance(op[1] / 1000)
                obs()
                continue
            if k in ("startup", "initialize", "shutdown", "backup", "restore", "form", "radio", "add") and busy():
                for _ in range(40):
                    if not busy():
                        break
                    await vloop.advance(5.001)
                if busy():
                    break
            if k == "startup":
                begin("startup", {"auto": op[1]}, lambda: app.startup(auto_form=op[1]))
            elif k == "initialize":
                begin("initialize", {"auto": op[1]}, lambda: app.initialize(auto_form=op[1]))
            elif k == "shutdown":
                begin("shutdown", {}, lambda: app.shutdown(db=op[1]))
            elif k == "backup":
                begin("backup", {}, lambda: app.backups.create_backup(load_devices=op[1]))
            elif k == "restore":
                b = app.backups.backups[op[1] % len(app.backups.backups)] if isinstance(op[1], int) and app.backups.backups else \
                    backup_of(op[1] if isinstance(op[1], dict) else script["spare"])
                kw = {}
                if op[2] is not None:
                    kw["counter_increment"] = op[2]
                if op[3]:
                    kw["allow_incomplete"] = True
                if not op[4]:
                    kw["create_new"] = False
                begin("restore", {"net": net(b.network_info, b.node_info), "inc": 10000 if op[2] is None else op[2], "allow": op[3], "create": op[4]},
                      lambda: app.backups.restore_backup(b, **kw))
            elif k == "form":
                begin("form", {"auto": op[1]}, lambda: app.form_network(fast=op[1]))
            elif k == "radio":      # the radio's settings change behind our back
                radio[0] = None if op[1] is None else info(op[1])
            elif k == "bump":       # time passes: the radio's frame counter moves
                if radio[0] is not None:
                    key_ = radio[0][0].network_key
                    radio[0] = (radio[0][0].replace(network_key=key_.replace(tx_counter=max(0, key_.tx_counter + op[1]))), radio[0][1])
            elif k == "add":
                b = backup_of(op[1])
                ev({"ev": "add", "id": number(b), "net": net(b.network_info, b.node_info), "quiet": op[2], "t": now()})
                app.backups.add_backup(b, suppress_event=True) if op[2] else app.backups.add_backup(b)
            elif k == "lost":
                ev({"ev": "lost", "err": op[1], "t": now()})
                app.connection_lost(_exc(op[1]))
            await vloop.settle()
        for _ in range(40):
            if not busy():
                break
            await vloop.advance(5.001)
        obs()
        if not busy():
            begin("shutdown", {}, lambda: app.shutdown())
            await vloop.advance(40)
            obs()
            if script["twice"]:
                begin("shutdown", {}, lambda: app.shutdown(db=False))
                await vloop.advance(40)
                obs()
            await vloop.advance(86400 * 2)
            obs()
        over.append(1)

    import zigpy.topology as zt
    old = getattr(zt, "REQUEST_DELAY", None)
    sr = _random.SystemRandom.randint
    try:
        if script["rand"]:
            _random.SystemRandom.randint = lambda self, a, b: a if script["rand"] == "low" else b
        vloop.run(main)
    finally:
        _random.SystemRandom.randint = sr
        if old is not None:
            zt.REQUEST_DELAY = old
    return events


def random_net(rng, base=None):
    n = {"epid": "net", "pan": 0x1234, "upd": 0, "mgr": 0, "chan": 15, "key": "k", "tx": rng.choice([0, 100, 5000, 10100, 20000]), "seq": 0, "tclk": "ZigBeeAlliance09",
         "nwk": 0, "ieee": "ncp", "rest": rng.randrange(3)}
    if base:
        n.update(base)
        n["tx"] = rng.choice([0, 99, 100, 101, 20000, base["tx"]])
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        f = rng.choice(["epid", "pan", "chan", "key", "upd", "mgr", "nwk", "tclk", "seq", "ieee"])
        n[f] = {"epid": rng.choice(["other", "unknown"]), "pan": rng.choice([0x4321, 0, 0xFFFF]), "chan": rng.choice([20, 0, 11, 26, 27]), "key": rng.choice(["k2", "unknown"]),
                "upd": rng.choice([1, 2]), "mgr": 5, "nwk": 0x11, "tclk": "linkkey2", "seq": 3, "ieee": rng.choice(["ncp2", "unknown"])}[f]
    if n["ieee"] == "ncp2":
        n["ieee"] = "ncp"
    return n


def random_script(rng, focus):
    chance = rng.random
    conf = {"watchdog": chance() < (0.9 if focus == "shutdown" else 0.5), "scan": chance() < 0.4, "validate": chance() < 0.5,
            "backup": rng.choice([0, 0, 1, 2, 7]) if focus != "backups" else rng.choice([0, 1, 2, 5]), "topo": rng.choice([0, 0, 20, 21]), "ota": rng.choice([0, 0, 50, 90]),
            "otafirst": rng.choice([0, 20, 70]), "pan": rng.choice([-1, -1, 0x1A62]), "epid": rng.choice(["", "", "cfg"]), "key": rng.choice(["", "", "cfgkey"]),
            "chan": rng.choice([0, 0, 15, 22, 26]), "chans": rng.choice([None, [11], [14, 22], [26, 12, 20]]), "tcp": rng.choice(["", "", "tc"]),
            "tclk": rng.choice(["", "", "tclk2"]), "upd": rng.choice([0, 0, 3]), "seq": rng.choice([0, 0, 2])}
    base = random_net(rng)
    base["ieee"], base["pan"] = "ncp", 0x1234
    valid = lambda n: dict(n, ieee="ncp", chan=n["chan"] if n["chan"] in range(11, 27) else 15)  # noqa: E731 - a radio has a channel and an address
    bad = {"backups": 0.15, "startup": rng.choice([0, 0.03, 0.15]), "shutdown": 0.05}[focus]
    plans = {}
    for op in ["connect", "disconnect", "feed", "start", "load", "write", "scan", "permit", "permitncp", "notify"]:
        rate = bad if op not in ("permit", "notify", "disconnect") else 0.25
        if op == "feed":
            rate = rng.choice([0, 0.02, 0.2]) if focus == "shutdown" else 0.02
        kinds = ["DeliveryError", "busy", "busy"] if op in ("permit", "notify") else KINDS if op in ("load", "start") else KINDS[1:]
        plans[op] = [(rng.choice([0, 0, 0, 10, 700, 4000, 31000] if chance() < 0.7 else [0]), rng.choice(kinds) if chance() < rate else "ok") for _ in range(40)]
    plans["neighbors"], plans["routes"] = [], []

    def nets():
        return base if chance() < 0.2 else random_net(rng, base)

    ops = []
    if focus != "backups":
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append(["add", nets(), True])
        ops.append(["startup", chance() < 0.6])
    n = {"startup": 3, "shutdown": 6, "backups": 12}[focus]
    for _ in range(rng.randrange(1, n + 1)):
        k = rng.choice({"startup": ["initialize", "startup", "shutdown", "radio", "form"],
                        "shutdown": ["shutdown", "startup", "lost", "initialize", "backup", "adv", "adv"],
                        "backups": ["add"] * 5 + ["backup"] * 3 + ["restore"] * 3 + ["radio", "bump", "bump", "form", "initialize"]}[focus])
        if k in ("initialize", "startup"):
            ops.append([k, chance() < 0.6])
        elif k == "shutdown":
            ops.append([k, chance() < 0.5])
        elif k == "radio":
            ops.append([k, None if chance() < 0.3 else valid(nets())])
        elif k == "bump":
            ops.append([k, rng.choice([-5, 1, 50])])
        elif k == "form":
            ops.append([k, chance() < 0.3])
        elif k == "backup":
            ops.append([k, chance() < 0.5])
        elif k == "restore":
            ops.append([k, rng.randrange(4) if chance() < 0.6 else nets(), rng.choice([None, None, 0, 1, 2000]), chance() < 0.3, chance() < 0.7])
        elif k == "add":
            ops.append([k, nets(), chance() < 0.3])
        elif k == "lost":
            ops.append([k, rng.choice(KINDS[1:])])
        if k == "adv" or chance() < 0.5:
            ops.append(["adv", rng.choice([10, 1000, 29000, 30000, 61000, 100000, 200000, 1250000])])
    return {"conf": conf, "radio": None if chance() < 0.4 else valid(base), "plans": plans, "ops": ops, "in_place": chance() < 0.4, "energy": [rng.randrange(256) for _ in range(16)],
            "lost_shuts": chance() < 0.5, "twice": chance() < 0.5, "rand": rng.choice([None, "low", "high"]), "spare": random_net(rng, base)}


def backups_script(rng):
    return random_script(rng, "backups")


def startup_script(rng):
    return random_script(rng, "startup")


def shutdown_script(rng):
    return random_script(rng, "shutdown")


def _models(ctx):
    ctx.model_check("MC_Life")
    if not ctx.quick:
        ctx.model_check("MC_Life", "MC_Life_deep")


def check_c15(ctx):
    _models(ctx)
    ctx.check_traces("backups", "Life_Trace", drive, [backups_script(ctx.rng) for _ in range(ctx.n(1500, 25000))])


def check_c16(ctx):
    _models(ctx)
    ctx.check_traces("startup", "Life_Trace", drive, [startup_script(ctx.rng) for _ in range(ctx.n(2500, 40000))])


def check_c24(ctx):
    _models(ctx)
    ctx.check_traces("shutdown", "Life_Trace", drive, [shutdown_script(ctx.rng) for _ in range(ctx.n(1500, 25000))])
