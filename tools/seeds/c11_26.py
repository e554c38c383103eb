import sys, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from mkseed import mk
from pre import PRE

DB = "zigpy/appdb.py"
DBPRE = PRE + '''
import sys, tempfile, os, sqlite3, datetime


async def open_app(path, **cfg):
    app = App({conf.CONF_DATABASE: path, conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"},
               conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}, **cfg})
    await app._load_db()
    return app


def device(app, n=1, out=()):
    d = app.add_device(t.EUI64.convert("00:0d:6f:00:00:00:00:%02x" % n), t.NWK(0x1000 + n))
    d.node_desc = zdo_t.NodeDescriptor(1, 64, 142, 4476, 82, 82, 11264, 82, 0)
    d.model, d.manufacturer = "m", "f"
    e = d.add_endpoint(1)
    e.profile_id = 260
    e.device_type = 0
    e.status = zigpy.endpoint.Status.ZDO_INIT
    for c in (0, 3, 6):
        e.add_input_cluster(c)
    for c in out:
        e.add_output_cluster(c)
    app.device_initialized(d)
    return app.get_device(ieee=d.ieee)
'''
mk("B11_clears_both_sides", "C11", [(DB, """                AND endpoint_id = :endpoint_id
                AND cluster_type = :cluster_type
                AND cluster_id = :cluster_id
                AND attr_id = :attr_id
            \"\"\"""", """                AND endpoint_id = :endpoint_id
                AND cluster_id = :cluster_id
                AND attr_id = :attr_id
            \"\"\"""")],
"an endpoint that has the same cluster as server and as client, with a cached value of the same attribute on both sides, one of which is cleared before a restart",
"clearing the attribute of one side also deletes the stored value of the other, which is gone after a restart",
DBPRE + '''
async def main(path):
    app = await open_app(path)
    d = device(app, out=(6,))
    e = d.endpoints[1]
    e.in_clusters[6].update_attribute(0, True)
    e.out_clusters[6].update_attribute(0, True)
    e.out_clusters[6].update_attribute(0, None)
    await app.shutdown()
    app = await open_app(path)
    e = app.get_device(ieee=d.ieee).endpoints[1]
    assert 0 not in e.out_clusters[6]._attr_cache
    assert e.in_clusters[6]._attr_cache.get(0) == 1, e.in_clusters[6]._attr_cache
    await app.shutdown()

with tempfile.TemporaryDirectory() as w:
    try:
        asyncio.run(asyncio.wait_for(main(os.path.join(w, "z.db")), 20))
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.stderr.flush()
        w_ = w
        __import__("shutil").rmtree(w_, ignore_errors=True)
        os._exit(1)
''')
mk("B12_table_emptied_first", "C12", [(DB, """        rows = [(ieee, *neighbor.as_tuple()) for neighbor in neighbors]
""", """        await self._db.commit()

        rows = [(ieee, *neighbor.as_tuple()) for neighbor in neighbors]
""")],
"the process dies between the deletion of a device's old neighbours and the insertion of the new ones",
"replacing a neighbour table is no longer atomic: a crash in between leaves the device without any neighbours",
DBPRE + '''
def neighbor(n):
    return zdo_t.Neighbor(extended_pan_id=t.EUI64.convert("00:0d:6f:00:00:00:00:aa"), ieee=t.EUI64.convert("00:0d:6f:00:00:00:01:%02x" % n), nwk=n, device_type=2,
                          rx_on_when_idle=0, relationship=1, reserved1=0, permit_joining=0, reserved2=0, depth=1, lqi=5)

async def main(path):
    app = await open_app(path)
    d = device(app)
    db = app._dblistener
    db.neighbors_updated(d.ieee, [neighbor(1)])
    await db._callback_handlers.join()
    # another connection sees only what a crash would leave behind
    left = []
    real = db._db.executemany

    async def executemany(q, rows):
        if "INTO neighbors" in q:
            con = sqlite3.connect(path)
            left.append(con.execute("select count(*) from neighbors_v%d" % zigpy.appdb.DB_VERSION).fetchone()[0])
            con.close()
        return await real(q, rows)

    db._db.executemany = executemany
    db.neighbors_updated(d.ieee, [neighbor(2), neighbor(3)])
    await db._callback_handlers.join()
    assert left == [1], left
    await app.shutdown()

import zigpy.appdb
with tempfile.TemporaryDirectory() as w:
    try:
        asyncio.run(asyncio.wait_for(main(os.path.join(w, "z.db")), 20))
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.stderr.flush()
        w_ = w
        __import__("shutil").rmtree(w_, ignore_errors=True)
        os._exit(1)
''')
mk("B14_scan_adds_silently", "C14", [("zigpy/group.py", """            group = self.add_group(grp_id)
            group.add_member(ep)
""", """            group = self.get(grp_id)

            if group is None:
                group = self.add_group(grp_id)
                group.add_member(ep)
            else:
                # The members of a known group are known already
                group.add_member(ep, suppress_event=True)
""")],
"a membership scan finds an endpoint in a group that is known already but does not list it yet",
"the membership found by the scan is not announced (and so never persisted)",
PRE + '''
async def main():
    app, (a, b) = make()
    seen = []
    class L:
        def group_member_added(self, group, ep): seen.append((int(group.group_id), ep.device.nwk))
    app.groups.add_listener(L())
    app.groups.update_group_membership(a.endpoints[1], {5})
    app.groups.update_group_membership(b.endpoints[1], {5, 6})
    assert seen == [(5, 0x1000), (5, 0x1001), (6, 0x1001)] or sorted(seen) == [(5, 0x1000), (5, 0x1001), (6, 0x1001)], seen

asyncio.run(main())
''')
mk("B18_index_of_valid_entries", "C18", [("zigpy/topology.py", "            entries = getattr(rsp, entries_attr)\n", """            entries = [
                entry
                for entry in getattr(rsp, entries_attr)
                if getattr(entry, "ieee", None) not in INVALID_NEIGHBOR_IEEES
            ]
""")],
"a neighbour table of several pages with an invalid entry on a page that is not the last",
"the next page is asked for from the number of valid entries instead of the number read: entries are stored twice",
PRE + '''
import zigpy.topology
zigpy.topology.REQUEST_DELAY = (0, 0)

def neighbor(n):
    return zdo_t.Neighbor(extended_pan_id=t.EUI64.convert("00:0d:6f:00:00:00:00:aa"), ieee=t.EUI64.convert("00:00:00:00:00:00:00:00") if n == 2 else t.EUI64.convert("00:0d:6f:00:00:00:01:%02x" % n),
                          nwk=n, device_type=2, rx_on_when_idle=0, relationship=1, reserved1=0, permit_joining=0, reserved2=0, depth=1, lqi=5)

async def main():
    app, (d, _) = make()
    table = [neighbor(n) for n in range(1, 6)]

    async def lqi(index):
        page = table[index:index + 2]
        return zdo_t.Status.SUCCESS, zdo_t.Neighbors(Entries=len(table), StartIndex=index, NeighborTableList=page)

    d.zdo.Mgmt_Lqi_req = lqi
    got = await app.topology._scan_neighbors(d)
    assert [n.nwk for n in got] == [1, 3, 4, 5], [n.nwk for n in got]

asyncio.run(main())
''')
mk("B19_restart_ignored", "C19", [("zigpy/topology.py", """        self.stop_periodic_scans()
        self._scan_loop_task = asyncio.create_task(self._scan_loop(period))
""", """        if self._scan_loop_task is not None and not self._scan_loop_task.done():
            self._scan_loop_task.cancel()

            if not self._scan_loop_task.cancelled():
                # Let the old loop wind down before replacing it
                old_task = self._scan_loop_task
                old_task.add_done_callback(
                    lambda _: self._restart_scan_loop(old_task, period)
                )
                return

        self._scan_loop_task = asyncio.create_task(self._scan_loop(period))

    def _restart_scan_loop(self, old_task: asyncio.Task, period: float) -> None:
        self._scan_loop_task = asyncio.create_task(self._scan_loop(period))
""")],
"periodic scanning is started again while it runs and stopped before the event loop has run once more",
"stopping does not stop: the delayed restart begins afterwards, and scans go on",
PRE + '''
async def main():
    app, _ = make()
    n = []
    async def scan(devices=None): n.append(1)
    app.topology.scan = scan
    app.topology.start_periodic_scans(0.05)
    await asyncio.sleep(0.12)
    app.topology.start_periodic_scans(0.05)
    app.topology.stop_periodic_scans()
    n.clear()
    await asyncio.sleep(0.3)
    assert not n, n

asyncio.run(main())
''')
mk("B20_first_status_wins", "C20", [("zigpy/zcl/__init__.py", """            failed = [rec.attrid for rec in records]
            for attr_rec in attrs:
                if attr_rec.attrid not in failed:
""", """            failed = [
                rec.attrid
                for rec in records
                if rec.status != foundation.Status.READ_ONLY
            ]
            for attr_rec in attrs:
                if attr_rec.attrid not in failed:
""")],
"a write of several attributes of which the device rejects one as read-only",
"the value of the rejected attribute is put into the cache as if it had been written",
PRE + '''
from zigpy.zcl import foundation as f

async def main():
    app, (d, _) = make()
    c = d.endpoints[1].basic

    async def write(attrs, **kw):
        return [[f.WriteAttributesStatusRecord(f.Status.READ_ONLY, 0x0010)]]

    c._write_attributes = write
    await c.write_attributes({0x0010: "here", 0x0012: True})
    assert 0x0012 in c._attr_cache and 0x0010 not in c._attr_cache, c._attr_cache

asyncio.run(main())
''')
mk("B21_no_answer_to_unknown_report", "C21", [("zigpy/zcl/__init__.py", """            if not hdr.frame_control.disable_default_response:
                self.send_default_rsp(
                    hdr,
                    foundation.Status.SUCCESS,
                )

        if hdr.command_id == foundation.GeneralCommand.Read_Attributes:""", """            if args.attribute_reports and not (
                hdr.frame_control.disable_default_response
                or hdr.manufacturer is not None
            ):
                self.send_default_rsp(
                    hdr,
                    foundation.Status.SUCCESS,
                )

        if hdr.command_id == foundation.GeneralCommand.Read_Attributes:""")],
"a manufacturer specific attribute report whose sender asks for a default response",
"manufacturer specific reports are not answered, the device repeats them",
PRE + '''
async def main():
    app, (d, _) = make()
    sent = []
    async def sender(p): sent.append(p.data.serialize())
    app.sender = sender
    for data in (bytes([0x08, 9, 0x0A, 0, 0, 0x20, 3]), bytes([0x0C, 0x5F, 0x11, 10, 0x0A, 0x40, 0xFF, 0x20, 3])):
        app.packet_received(t.ZigbeePacket(src=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=d.nwk), src_ep=1, dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=0), dst_ep=1,
            profile_id=260, cluster_id=0, data=t.SerializableBytes(data)))
    await asyncio.sleep(0.05)
    assert len(sent) == 2, sent

asyncio.run(main())
''')
mk("B24_second_backup_loop", "C24", [("zigpy/backups.py", """        self.stop_periodic_backups()
        self._backup_task = asyncio""", """        self._backup_task = asyncio""")],
"periodic backups are started twice (the radio reconnected) and then shut down",
"the first backup loop is forgotten and goes on after shutdown",
PRE + '''
async def main():
    app, _ = make()
    n = []
    async def create(**kw): n.append(1)
    app.backups.create_backup = create
    app.backups.start_periodic_backups(0.05)
    await asyncio.sleep(0.02)
    app.backups.start_periodic_backups(0.05)
    await asyncio.sleep(0.02)
    await app.shutdown()
    n.clear()
    await asyncio.sleep(0.2)
    assert not n, n

asyncio.run(main())
''')
mk("B25_pause_grows", "C25", [("zigpy/util.py", """            tries -= 1
            await asyncio.sleep(delay)
""", """            tries -= 1
            await asyncio.sleep(delay)
            delay *= 2
""")],
"an operation that is allowed more than two attempts and fails at least twice",
"the pause between the attempts is no longer the given one",
'''
import asyncio, time
import zigpy.util

async def main():
    loop = asyncio.get_running_loop()
    at = []

    async def op():
        at.append(loop.time())
        raise asyncio.TimeoutError

    try:
        await zigpy.util.retry(op, (asyncio.TimeoutError,), tries=4, delay=0.2)
    except asyncio.TimeoutError:
        pass
    gaps = [b - a for a, b in zip(at, at[1:])]
    assert len(gaps) == 3 and all(0.19 < g < 0.35 for g in gaps), gaps

asyncio.run(main())
''')
mk("B31_removed_while_adding", "C31", [("zigpy/util.py", """        for listener, include_context in tuple(self._listeners.values()):
            method = getattr(listener, method_name, None)

            if method is None:
                continue

            try:
                if include_context:""", """        for id_ in tuple(self._listeners):
            if id_ not in self._listeners:
                continue

            listener, include_context = self._listeners[id_]
            method = getattr(listener, method_name, None)

            if method is None:
                continue

            try:
                if include_context:""")],
"a listener removes another one while an event is being delivered (which was registered at the moment of the event)",
"a listener registered when the event was emitted is not called",
'''
import zigpy.util

class E(zigpy.util.ListenableMixin):
    pass

e = E()
got = []

class B:
    def ev(self, x): got.append(("b", x))

b = B()

class A:
    def ev(self, x):
        got.append(("a", x))
        e.remove_listener(b)

e.add_listener(A())
e.add_listener(b)
e.listener_event("ev", 1)
assert got == [("a", 1), ("b", 1)], got
e.listener_event("ev", 2)
assert got[2:] == [("a", 2)], got
''')
