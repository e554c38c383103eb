"""C11 (restart), C12 (crash atomicity): one area, `Store`."""
from __future__ import annotations

import asyncio
import hashlib
import json
import os
import shutil
import sqlite3
import tempfile

from . import clock, stub, vloop

HOOK = [None]      # called before every database operation: hook(kind, sql)
RAW = []           # connections of the current process incarnation


class TConn(sqlite3.Connection):
    def execute(self, sql, *a):
        if HOOK[0] is not None:
            HOOK[0]("execute", sql)
        return super().execute(sql, *a)

    def executemany(self, sql, *a):
        if HOOK[0] is not None:
            HOOK[0]("executemany", sql)
        return super().executemany(sql, *a)

    def commit(self):
        if HOOK[0] is not None:
            HOOK[0]("commit", "")
        return super().commit()

    def close(self):
        if HOOK[0] is not None:
            HOOK[0]("close", "")
        return super().close()


_patched = []


def patch():
    """aiosqlite without its thread: every operation runs when the event loop gets to it."""
    if _patched:
        return
    _patched.append(True)
    import aiosqlite.core as ac

    real_connect = sqlite3.connect

    def connect(*a, **kw):
        kw["factory"] = TConn
        c = real_connect(*a, **kw)
        RAW.append(c)
        return c

    sqlite3.connect = connect

    async def _connect(self):
        if self._connection is None:
            await asyncio.sleep(0)
            self._connection = self._connector()
        return self

    async def _execute(self, fn, *args, **kwargs):
        if not self._running or not self._connection:
            raise ValueError("Connection closed")
        await asyncio.sleep(0)
        return fn(*args, **kwargs)

    ac.Connection._connect = _connect
    ac.Connection._execute = _execute
    ac.Connection.start = lambda self: None
    ac.Connection.join = lambda self, timeout=None: None
    ac.Connection._stop_running = lambda self: setattr(self, "_running", False)

    def run_in_executor(self, executor, fn, *args):
        fut = self.create_future()
        try:
            fut.set_result(fn(*args))
        except Exception as e:
            fut.set_exception(e)
        return fut

    vloop.VLoop.run_in_executor = run_in_executor


def val(v):
    import zigpy.types as t
    if isinstance(v, t.EUI64):
        return f"e:{v}"
    if isinstance(v, (bool, int)):
        return f"i:{int(v)}"
    if isinstance(v, float):
        return f"f:{v!r}"
    if isinstance(v, str):
        return f"s:{v}"
    if isinstance(v, (bytes, bytearray)):
        return f"b:{bytes(v).hex()}"
    if hasattr(v, "serialize"):
        return f"x:{v.serialize().hex()}"
    return f"?:{v!r}"


def dname(ieee):
    return f"d{ieee[0]}"


def device_facts(dev):
    d = dname(dev.ieee)
    out = [{"k": ["dev", d, "nwk"], "v": f"{int(dev.nwk):04x}", "t": 0},
           {"k": ["dev", d, "status"], "v": str(int(dev.status)), "t": 0},
           {"k": ["dev", d, "nd"], "v": dev.node_desc.serialize().hex() if dev.node_desc is not None else "none", "t": 0},
           {"k": ["dev", d, "model"], "v": str(dev.model), "t": 0},
           {"k": ["dev", d, "manuf"], "v": str(dev.manufacturer), "t": 0}]
    seen = clock.ms(dev.last_seen)
    if seen:
        out.append({"k": ["seen", d, ""], "v": "", "t": seen})
    for eid, ep in dev.endpoints.items():
        if eid == 0:
            continue
        pro = "none" if ep.profile_id is None else int(ep.profile_id)
        dt = "none" if ep.device_type is None else int(ep.device_type)
        out.append({"k": ["ep", d, str(eid)], "v": f"{pro}/{dt}/{int(ep.status)}", "t": 0})
        for side, cls in (("in", ep.in_clusters), ("out", ep.out_clusters)):
            for cid, cl in cls.items():
                ck = f"{eid}/{side}/{cid}"
                out.append({"k": ["cl", d, ck], "v": "", "t": 0})
                for aid, v in cl._attr_cache.items():
                    out.append({"k": ["at", d, f"{ck}/{aid}"], "v": val(v), "t": clock.ms(cl._attr_last_updated.get(aid))})
                for aid in cl.unsupported_attributes:
                    if isinstance(aid, int):
                        out.append({"k": ["un", d, f"{ck}/{aid}"], "v": "", "t": 0})
    return out


def backup_key(b):
    return hashlib.md5(json.dumps(b.as_dict(), sort_keys=True).encode()).hexdigest()[:12]


def facts(app):
    out = []
    for dev in app.devices.values():
        d = dname(dev.ieee)
        out += device_facts(dev)
        if dev.relays is not None:
            out.append({"k": ["rel", d, ""], "v": "r" + dev.relays.serialize().hex(), "t": 0})
        for kind, tab in (("nei", app.topology.neighbors), ("rou", app.topology.routes)):
            if tab.get(dev.ieee):
                out.append({"k": [kind, d, ""], "v": table(tab[dev.ieee]), "t": 0})
    for gid, g in app.groups.items():
        out.append({"k": ["grp", str(int(gid)), ""], "v": str(g.name), "t": 0})
        for (ieee, eid) in g.keys():
            out.append({"k": ["mbr", dname(ieee), f"{int(gid)}/{eid}"], "v": str(int(gid)), "t": 0})
    for b in app.backups.backups:
        out.append({"k": ["bak", "", backup_key(b)], "v": "", "t": 0})
    return out


def table(rows):
    return ",".join(r.serialize().hex() for r in rows)


_quirked = []


def quirks():
    """a v2 quirk that replaces a cluster and adds a virtual one"""
    import zigpy.quirks as zq
    import zigpy.types as t
    from zigpy.quirks.v2 import QuirkBuilder
    from zigpy.zcl.clusters.general import LevelControl
    from zigpy.zcl.foundation import BaseAttributeDefs, ZCLAttributeDef
    if _quirked:
        return
    _quirked.append(True)

    class VCluster(zq.CustomCluster):
        cluster_id = 0xFCA1
        ep_attribute = "vcluster"

        class AttributeDefs(BaseAttributeDefs):
            one = ZCLAttributeDef(id=0x0001, type=t.uint16_t)

    class QLevel(zq.CustomCluster, LevelControl):
        pass

    QuirkBuilder("QMaker", "QModel").adds(VCluster).replaces(QLevel).add_to_registry()


ATTRS = [   # side, cluster, attribute, values
    ("in", 0x0000, 0x0003, "u8"), ("in", 0x0000, 0x0006, "str"), ("in", 0x0006, 0x0000, "bool"), ("in", 0x0006, 0x4001, "u16"),
    ("in", 0x0008, 0x0000, "u8"), ("in", 0x0402, 0x0000, "i16"), ("in", 0x000C, 0x0055, "float"), ("in", 0x0500, 0x0010, "eui"),
    ("in", 0x0702, 0x0000, "u48"), ("in", 0xFC00, 0x0001, "bytes"), ("in", 0xFC00, 0x0002, "u8"), ("in", 0x0000, 0x0007, "enum"),
    ("out", 0x0019, 0x0002, "u32"), ("out", 0x0019, 0x0000, "eui"), ("in", 0xFCA1, 0x0001, "u16"), ("in", 0x0006, 0x0001, "u8"),
    ("out", 0x0006, 0x0000, "bool"), ("out", 0x0006, 0x4001, "u16"), ("out", 0x0008, 0x0000, "u8"), ("in", 0x0008, 0x0001, "u16"),
]
BOTH = [a for a in ATTRS if a[1] in (6, 8)]


def mk_value(kind, n):
    import zigpy.types as t
    from zigpy.zcl.clusters.general import Basic
    return {"u8": lambda: t.uint8_t(n % 256), "u16": lambda: t.uint16_t(n * 257 % 65536), "u32": lambda: t.uint32_t(n * 16777259 % 2**32),
            "u48": lambda: t.uint48_t(n * 1099511627791 % 2**48), "i16": lambda: t.int16s(n * 113 % 65536 - 32768),
            "bool": lambda: t.Bool(n % 2), "str": lambda: t.CharacterString(["", "20200101", "häß\u20ac", "0", "'; --", "1.0"][n % 6]),
            "float": lambda: t.Single([0.0, -1.5, 21.25, 1e10, float("inf")][n % 5]), "eui": lambda: stub.ieee(n % 256),
            "bytes": lambda: t.LVBytes(bytes([n % 256] * (n % 4))), "enum": lambda: Basic.PowerSource(n % 5),
            "bits": lambda: t.bitmap8(n), "i64": lambda: t.int64s(n - 2**63), "half": lambda: t.Half(n / 2), "double": lambda: t.Double(n / 3),
            "digits": lambda: t.CharacterString(["12", "1.50", "1e5", "a\x00b", "None", " "][n % 6]),
            # values the database cannot hold
            "big": lambda: t.uint64_t(2**64 - 1 - n), "nan": lambda: t.Single(float("nan")), "key": lambda: t.KeyData(bytes([n] * 16)),
            "list": lambda: t.LVList[t.uint8_t]([n, 2])}[kind]()


def mk_backup(n):
    import datetime
    import zigpy.backups
    import zigpy.state as zs
    import zigpy.types as t
    import zigpy.zdo.types as zt
    net, ctr, tm = n
    return zigpy.backups.NetworkBackup(
        backup_time=clock.BASE + datetime.timedelta(seconds=tm),
        network_info=zs.NetworkInfo(
            extended_pan_id=t.ExtendedPanId.convert("00:11:22:33:44:55:66:%02x" % net), pan_id=t.PanId(0x1000 + net), nwk_update_id=t.uint8_t(0),
            nwk_manager_id=t.NWK(0), channel=t.uint8_t(15), channel_mask=t.Channels.ALL_CHANNELS, security_level=t.uint8_t(5),
            network_key=zs.Key(key=t.KeyData(bytes([net + 1] * 16)), tx_counter=ctr, rx_counter=0, seq=0, partner_ieee=stub.NCP_IEEE),
            tc_link_key=zs.Key(key=t.KeyData(b"ZigBeeAlliance09"), partner_ieee=stub.NCP_IEEE), key_table=[], children=[], nwk_addresses={},
            stack_specific={}, metadata={}, source="test@1"),
        node_info=zs.NodeInfo(nwk=t.NWK(0), ieee=stub.NCP_IEEE, logical_type=zt.LogicalType.Coordinator))


def neighbor(n, d):
    import zigpy.types as t
    import zigpy.zdo.types as zt
    return zt.Neighbor(extended_pan_id=stub.ieee(900), ieee=stub.ieee(d), nwk=t.NWK(n * 37 % 65000), device_type=n % 3, rx_on_when_idle=n % 2,
                       relationship=n % 5, reserved1=0, permit_joining=n % 3, reserved2=0, depth=n % 256, lqi=n * 7 % 256)


def route(n):
    import zigpy.types as t
    import zigpy.zdo.types as zt
    return zt.Route(DstNWK=t.NWK(n * 91 % 65000), RouteStatus=0, MemoryConstrained=n % 2, ManyToOne=n // 2 % 2, RouteRecordRequired=n // 4 % 2,
                    Reserved=0, NextHop=t.NWK(n * 13 % 65000))


class Sim:
    """one process incarnation after the other on the same scratch directory"""

    def __init__(self, script, events, tmp):
        self.script, self.events, self.tmp = script, events, tmp
        self.path = os.path.join(tmp, "zigbee.db")
        self.app = None
        self.imgs = 0
        self.last = None
        self.gen = 0
        self.fault_at = list(script.get("faults", []))
        self.nsql = 0
        self.imaging = script["images"]
        self.over = False
        self.removed = set()

    def ev(self, e):
        if not self.over:
            self.events.append(e)

    # --- crash images -------------------------------------------------------------------------
    def copy(self, to):
        for suf in ("", "-wal"):
            if os.path.exists(self.path + suf):
                shutil.copyfile(self.path + suf, to + suf)

    def digest(self):
        h = hashlib.md5()
        for suf in ("", "-wal"):
            if os.path.exists(self.path + suf):
                with open(self.path + suf, "rb") as f:
                    h.update(f.read())
            h.update(b"|")
        return h.hexdigest()

    def snap(self):
        d = self.digest()
        if d != self.last:
            self.last = d
            self.imgs += 1
            p = os.path.join(self.tmp, f"img{self.imgs}.db")
            self.copy(p)
            self.ev({"ev": "img", "path": p})

    def hook(self, kind, sql):
        if self.imaging:
            self.snap()
        if self.running and kind != "close" and not sql.lstrip().upper().startswith(("SELECT", "PRAGMA", "ROLLBACK")):
            self.nsql += 1
            if self.fault_at and self.fault_at[0] <= self.nsql:
                self.fault_at.pop(0)
                self.ev({"ev": "fault", "at": " ".join(sql.split())[:60] or kind})
                raise sqlite3.OperationalError("disk I/O error (injected)")

    # --- life -----------------------------------------------------------------------------------
    async def open(self, path=None):
        import zigpy.config as conf
        app = await stub.App.new(stub.config(**{conf.CONF_DATABASE: path or self.path}), start_radio=False)
        return app

    async def start(self):
        HOOK[0], self.running = self.hook, False
        self.app = await self.open()
        self.running = True
        sim = self

        class L:
            def device_joined(self, dev):
                if dname(dev.ieee) in sim.known:
                    key = ["dev", dname(dev.ieee), "nwk"]
                    sim.ev({"ev": "put", "key": key, "v": f"{int(dev.nwk):04x}", "t": 0, "need": [key]})
                else:
                    sim.ev({"ev": "void"})

            def device_initialized(self, dev):
                sim.known.add(dname(dev.ieee))
                sim.ev({"ev": "interviewed", "d": dname(dev.ieee), "facts": device_facts(dev)})

            def device_removed(self, dev):
                sim.known.discard(dname(dev.ieee))
                # whether the topology forgets the tables of a removed device is not the subject here
                sim.app.topology.neighbors.pop(dev.ieee, None)
                sim.app.topology.routes.pop(dev.ieee, None)
                sim.ev({"ev": "rem", "d": dname(dev.ieee)})

            def group_member_added(self, group, ep):
                g, d = str(int(group.group_id)), dname(ep.device.ieee)
                sim.ev({"ev": "put", "key": ["mbr", d, f"{g}/{ep.endpoint_id}"], "v": g, "t": 0,
                        "need": [["grp", g, ""], ["ep", d, str(ep.endpoint_id)]]})

            def group_member_removed(self, group, ep):
                sim.ev({"ev": "del", "key": ["mbr", dname(ep.device.ieee), f"{int(group.group_id)}/{ep.endpoint_id}"]})

            def network_backup_created(self, b):
                sim.ev({"ev": "put", "key": ["bak", "", backup_key(b)], "v": "", "t": 0, "need": []})

            def network_backup_removed(self, b):
                sim.ev({"ev": "del", "key": ["bak", "", backup_key(b)]})

        lis = L()
        self.app.add_listener(lis)
        self.app.groups.add_listener(lis)
        self.app.backups.add_listener(lis)
        self.known = {dname(i) for i in self.app.devices}

    def abandon(self):
        """the process dies"""
        HOOK[0], self.running = None, False
        for t in asyncio.all_tasks():
            if t is not asyncio.current_task():
                t.cancel()
        for c in RAW:
            sqlite3.Connection.close(c)
        RAW.clear()

    # --- operations ------------------------------------------------------------------------------
    def dev(self, n):
        return self.app.devices.get(stub.ieee(n))

    def twice(self, dev, e):
        """every interview registers the database with the device once more, and its changes are queued that often"""
        for listener, _ in list(dev._listeners.values()):
            if listener is self.app._dblistener:
                self.ev(e)

    async def op(self, o):
        import zigpy.device
        import zigpy.endpoint
        import zigpy.types as t
        app, k = self.app, o["op"]
        dev = self.dev(o["d"]) if "d" in o else None
        d = f"d{o['d']}" if "d" in o else ""
        isdev = [["dev", d, "nwk"]]
        if "d" in o and k != "new" and dev is None:
            return
        if k == "new":
            # a device whose removal failed to be stored is still there when it is interviewed again
            if dev is not None or (self.script["faults"] and d in self.removed):
                return
            dev = app.add_device(stub.ieee(o["d"]), t.NWK(o["nwk"]))
            dev.node_desc = stub.node_desc(o["kind"], manuf=o["d"])
            for e in o["eps"]:
                ep = dev.add_endpoint(e["id"])
                if e["st"] == "inactive":
                    ep.status = zigpy.endpoint.Status.ENDPOINT_INACTIVE
                    continue
                ep.profile_id, ep.device_type = e["profile"], e["dt"]
                for c in e["ins"]:
                    ep.add_input_cluster(c)
                for c in e["outs"]:
                    ep.add_output_cluster(c)
                ep.status = zigpy.endpoint.Status.ZDO_INIT
                if 0 in e["ins"] and o["man"]:
                    dev.manufacturer, dev.model = o["man"]
                    self.ev({"ev": "void"})     # attributes of a device that is not stored yet
                    self.ev({"ev": "void"})
                    ep.basic.update_attribute(4, o["man"][0])
                    ep.basic.update_attribute(5, o["man"][1])
            dev.status = zigpy.device.Status.ENDPOINTS_INIT
            if o["seen"]:
                dev.update_last_seen()
            app.listener_event("device_joined", dev)
            app.device_initialized(dev)
        elif k == "again":
            app.device_initialized(dev)
        elif k == "move":
            self.twice(dev, {"ev": "put", "key": ["seen", d, ""], "v": "", "t": self.now(), "need": isdev})
            app.handle_join(t.NWK(o["nwk"]), dev.ieee, t.NWK(0))
        elif k == "seen":
            self.twice(dev, {"ev": "put", "key": ["seen", d, ""], "v": "", "t": self.now(), "need": isdev})
            dev.update_last_seen()
        elif k in ("att", "clr", "uns", "unr"):
            cl = self.cluster(dev, o)
            if cl is None:
                return
            key = f"{o['ep']}/{o['side']}/{o['cid']}"
            if k == "att":
                v = mk_value(o["type"], o["n"])
                self.ev({"ev": "put", "key": ["at", d, f"{key}/{o['aid']}"], "v": val(v), "t": self.now(), "need": isdev})
                cl.update_attribute(o["aid"], v)
            elif k == "clr":
                self.ev({"ev": "del", "key": ["at", d, f"{key}/{o['aid']}"]})
                cl.update_attribute(o["aid"], None)
            elif o["cid"] == 0xFCA1:
                return
            elif k == "uns":
                if o["aid"] not in cl.unsupported_attributes:
                    self.ev({"ev": "put", "key": ["un", d, f"{key}/{o['aid']}"], "v": "", "t": 0, "need": [["cl", d, key]]})
                    if o["aid"] in cl.attributes:
                        self.ev({"ev": "void"})     # attributes with a name are recorded under it as well
                cl.add_unsupported_attribute(o["aid"])
            elif o["aid"] in cl.unsupported_attributes:
                self.ev({"ev": "del", "key": ["un", d, f"{key}/{o['aid']}"]})
                if o["aid"] in cl.attributes:
                    self.ev({"ev": "void"})
                cl.remove_unsupported_attribute(o["aid"])
        elif k == "rel":
            if o["relays"] is None:
                dev.relays = None
                self.twice(dev, {"ev": "del", "key": ["rel", d, ""]})
            else:
                app.handle_relays(dev.nwk, t.Relays([t.NWK(x) for x in o["relays"]]))
                self.twice(dev, {"ev": "put", "key": ["rel", d, ""], "v": "r" + dev.relays.serialize().hex(), "t": 0, "need": isdev})
        elif k in ("nei", "rou"):
            rows = [neighbor(n, n % 5 + 1) if k == "nei" else route(n) for n in o["rows"]]
            name = {"nei": "neighbors", "rou": "routes"}[k]
            getattr(app.topology, name)[dev.ieee] = rows
            if rows:
                self.ev({"ev": "put", "key": [k, d, ""], "v": table(rows), "t": 0, "need": isdev if k == "nei" else []})
            else:
                self.ev({"ev": "del", "key": [k, d, ""]})
            app.topology.listener_event(name + "_updated", dev.ieee, rows)
        elif k == "grp":
            if o["g"] not in app.groups:
                self.ev({"ev": "put", "key": ["grp", str(o["g"]), ""], "v": o["name"], "t": 0, "need": []})
                app.groups.add_group(o["g"], o["name"])
        elif k == "gdel":
            if o["g"] in app.groups:
                app.groups.pop(o["g"])
                self.ev({"ev": "gdel", "g": str(o["g"])})
        elif k in ("mbr", "mdel"):
            if o["g"] not in app.groups or o["ep"] not in dev.endpoints:
                return
            ep = dev.endpoints[o["ep"]]
            if k == "mbr":
                app.groups[o["g"]].add_member(ep)
            else:
                app.groups[o["g"]].remove_member(ep)
        elif k == "bak":
            app.backups.add_backup(mk_backup(o["b"]))
        elif k == "rem":
            if o["quick"]:
                await self.settle()     # the interview of this device is stored before the device is removed
            self.removed.add(d)
            await app.remove(dev.ieee)
            await vloop.advance(60)
        elif k == "adv":
            await vloop.advance(o["s"])
        elif k == "drain":
            await self.settle()
        elif k == "step":
            for _ in range(o["n"]):
                await asyncio.sleep(0)
            # what a change stores is read while it is being stored: nothing else happens meanwhile, except a crash
            while not o.get("crash") and RAW and RAW[-1].in_transaction:
                await asyncio.sleep(0)
        elif k == "look":
            self.ev({"ev": "look", "facts": facts(app)})
        elif k == "restart":
            self.ev({"ev": "look", "facts": facts(app)})
            await self.settle(False)
            await app.shutdown()
            RAW.clear()
            await self.start()
            self.ev({"ev": "restart", "facts": facts(self.app)})
        elif k == "crash":
            self.gen += 1
            p = os.path.join(self.tmp, f"gen{self.gen}.db")
            self.copy(p)
            self.abandon()
            await asyncio.sleep(0)
            self.path = p
            await self.start()
            self.ev({"ev": "crash", "facts": facts(self.app)})

    def cluster(self, dev, o):
        ep = dev.endpoints.get(o["ep"])
        return None if ep is None else (ep.in_clusters if o["side"] == "in" else ep.out_clusters).get(o["cid"])

    async def settle(self, note=True):
        await vloop.settle()
        if note:
            self.ev({"ev": "drain"})

    async def finish(self):
        await vloop.settle()
        self.ev({"ev": "drain"})
        if self.imaging:
            self.snap()
        self.ev({"ev": "look", "facts": facts(self.app)})
        HOOK[0] = None
        await self.app.shutdown()
        self.app = await self.open()
        self.ev({"ev": "restart", "facts": facts(self.app)})
        await self.app.shutdown()
        self.over = True
        RAW.clear()
        for e in self.events:
            if e["ev"] == "img":
                p = e.pop("path")
                try:
                    app = await self.open(p)
                    e["facts"] = facts(app)
                    e["ok"] = True
                    await app.shutdown()
                except Exception as x:
                    e["facts"], e["ok"] = [], False
                    e["error"] = f"{type(x).__name__}: {x}"[:200]
                    self.abandon()
                RAW.clear()


def drive(script, events):
    import zigpy.quirks
    patch()
    quirks()
    tmp = tempfile.mkdtemp(prefix="zp-store-")
    try:
        async def main():
            loop = asyncio.get_running_loop()
            t0 = loop.time() - 1
            clock.install(lambda: loop.time() - t0)
            sim = Sim(script, events, tmp)
            sim.now = lambda: round((loop.time() - t0) * 1000)
            events.append({"ev": "init"})
            try:
                await sim.start()
                for o in script["ops"]:
                    await sim.op(o)
                await sim.finish()
            finally:
                sim.over = True
                HOOK[0] = None
                RAW.clear()

        vloop.run(main)
        for e in events:
            e.pop("path", None)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def random_script(rng, *, images=False, faults=False, restarts=True, n=30):
    ops = []
    t = 0
    # half of the scripts concentrate on clusters that are there on both sides of an endpoint
    attrs, sides = (ATTRS, [0x0019, 6, 5]) if rng.random() < 0.5 else (BOTH, [6, 8])
    for _ in range(n):
        d = rng.randint(1, 3)
        k = rng.choice(["new"] * 5 + ["again", "move", "move", "seen", "seen", "rel", "rel", "nei", "rou", "grp", "grp", "gdel", "mbr", "mbr", "mbr", "mdel",
                       "bak", "bak", "rem", "adv", "adv", "drain", "step", "look"] + ["att"] * 8 + ["clr", "clr", "uns", "uns", "unr", "unr"]
                       + (["restart"] * 2 if restarts else []) + (["crash"] if images else []))
        o = {"op": k}
        if k in ("new", "again", "move", "seen", "att", "clr", "uns", "unr", "rel", "nei", "rou", "mbr", "mdel", "rem"):
            o["d"] = d
        if k == "new":
            quirk = rng.random() < 0.3 and not faults
            o["nwk"] = rng.choice([0x1000 + d, 0x2000 + d])
            o["kind"] = rng.choice(["router", "end"])
            o["man"] = ["QMaker", "QModel"] if quirk else rng.choice([["Maker", "Model"], ["Ma\u00dfe", ""], None])
            o["seen"] = rng.random() < 0.7
            o["eps"] = []
            for eid in rng.sample([1, 2, 242], rng.choice([1, 1, 2, 3])):
                st = "ok" if eid == 1 or not o["eps"] or rng.random() < 0.7 else "inactive"
                ins = sorted(rng.sample([0, 4, 6, 8, 0x0402, 0x000C, 0x0500, 0x0702, 0xFC00], rng.randint(1, 6)))
                if quirk:
                    ins = sorted(set(ins) | {0, 8})
                o["eps"].append({"id": eid, "st": st, "profile": rng.choice([260, 260, 0xC05E, 0xA1E0]), "dt": rng.choice([0x0100, 0x0051, 0x0061, 0xFFF0]),
                                 "ins": ins, "outs": rng.sample(sides, rng.randint(0, 2))})
            if quirk:
                o["eps"] = [e for e in o["eps"] if e["id"] == 1] or [dict(o["eps"][0], id=1, st="ok")]
        elif k == "move":
            o["nwk"] = rng.choice([0x1000 + d, 0x2000 + d, 0x4000 + d])
        elif k in ("att", "clr", "uns", "unr"):
            side, cid, aid, typ = rng.choice(attrs)
            o.update(ep=rng.choice([1, 1, 2]), side=side, cid=cid, aid=aid, type=typ, n=rng.choice([0, 1, 2, 3, 255]))
        elif k == "rel":
            o["relays"] = rng.choice([None, [], [0x1001], [0x1001, 0x2002], [0x1001, 0x1001], [0, 0x1003]])
        elif k in ("nei", "rou"):
            o["rows"] = [rng.randint(0, 40) for _ in range(rng.choice([0, 1, 2, 3]))]
        elif k in ("grp", "gdel", "mbr", "mdel"):
            o["g"] = rng.choice([1, 2, 0xFFFE])
            o["name"] = rng.choice(["a", "", "Gr\u00fcn 'x'"])
            o["ep"] = rng.choice([1, 1, 2])
        elif k == "bak":
            t += 1
            # a superseded backup whose deletion failed is dropped when loading: not the subject here
            o["b"] = [t if faults else rng.randint(1, 3), rng.randint(0, 4), t]
        elif k == "rem":
            o["quick"] = True
        elif k == "adv":
            o["s"] = rng.choice([1, 10, 29.5, 30, 30.5, 31, 45, 100])
        elif k == "step":
            o["n"] = rng.randint(1, 12)
            if images and rng.random() < 0.3:
                o["crash"] = True
                ops += [o]
                o = {"op": "crash"}
        ops.append(o)
    f = []
    if faults:
        x = 0
        for _ in range(rng.randint(1, 4)):
            x += rng.randint(1, 25)
            f.append(x)
    return {"ops": ops, "images": images, "faults": f}


def scripts_c11(rng, n):
    return [random_script(rng, n=rng.choice([15, 30, 50])) for _ in range(n)]


def scripts_c12(rng, n):
    return [random_script(rng, images=True, faults=rng.random() < 0.5, restarts=rng.random() < 0.5, n=rng.choice([10, 20, 30])) for _ in range(n)]


def scripts_values():
    """every kind of attribute value, stored and restored"""
    new = {"op": "new", "d": 1, "nwk": 0x1001, "kind": "router", "man": None, "seen": False,
           "eps": [{"id": 1, "st": "ok", "profile": 260, "dt": 1, "ins": [0xFC00], "outs": []}]}
    out = []
    for kind in ("u8", "u16", "u32", "u48", "i16", "bool", "str", "float", "bytes", "enum", "bits", "i64", "half", "double", "digits"):
        for n in range(6):
            out.append((kind, n))
    out += [("big", 0), ("nan", 0), ("key", 7), ("list", 1), ("eui", 5)]
    return [{"ops": [new, {"op": "drain"}, {"op": "att", "d": 1, "ep": 1, "side": "in", "cid": 0xFC00, "aid": 9, "type": kind, "n": n}],
             "images": False, "faults": []} for kind, n in out]


def _models(ctx):
    ctx.model_check("MC_Store")
    if not ctx.quick:
        ctx.model_check("MC_Store", "MC_Store_deep")


def check_c11(ctx):
    _models(ctx)
    ctx.check_traces("values", "Store_Trace", drive, scripts_values())
    ctx.check_traces("restarts", "Store_Trace", drive, scripts_c11(ctx.rng, ctx.n(3000, 40000)))


def check_c12(ctx):
    _models(ctx)
    ctx.check_traces("crashes", "Store_Trace", drive, scripts_c12(ctx.rng, ctx.n(1200, 15000)))
