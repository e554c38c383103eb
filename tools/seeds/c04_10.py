import sys, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from mkseed import mk
from pre import PRE

D, A = "zigpy/device.py", "zigpy/application.py"
PKT = PRE + '''

def packet(dev, data, src_ep=1, dst=None, cluster=3, dst_ep=1, profile=260, **kw):
    return t.ZigbeePacket(
        src=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=dev.nwk), src_ep=src_ep,
        dst=dst or t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=0), dst_ep=dst_ep,
        profile_id=profile, cluster_id=cluster, data=t.SerializableBytes(data), **kw)


class Seen:
    def __init__(self): self.seen = []
    def cluster_command(self, tsn, cmd, args): self.seen.append(("cmd", tsn, cmd))
    def general_command(self, hdr, args): self.seen.append(("gen", hdr.tsn, hdr.command_id))
'''
mk("B04_groups_look_alike", "C04", [(D, "tsn=None, lqi=None, rssi=None)", "tsn=None, lqi=None, rssi=None, dst=None)")],
"the same command arrives from one device for two different groups (or for a group and the coordinator) within ten seconds",
"the second of two different packets is dropped as a duplicate",
PKT + '''
async def main():
    app, (d, _) = make()
    s = Seen()
    d.endpoints[1].identify.add_listener(s)
    for g in (1, 2):
        app.packet_received(packet(d, bytes([1, 7, 1]), dst=t.AddrModeAddress(addr_mode=t.AddrMode.Group, address=g)))
    assert len(s.seen) == 2, s.seen
    app.packet_received(packet(d, bytes([1, 7, 1]), dst=t.AddrModeAddress(addr_mode=t.AddrMode.Group, address=2), lqi=3))
    assert len(s.seen) == 2, s.seen

asyncio.run(main())
''')
mk("B05_zero_is_a_wildcard", "C05", [("zigpy/types/struct.py", """            if expected is None:
                continue

            if isinstance(expected, Struct):
                if not""", """            if not expected:
                continue

            if isinstance(expected, Struct):
                if not""")],
"a listener whose filter asks for a field with the value zero, and a message with another value in it",
"fields of a filter that are zero match anything",
PKT + '''
from zigpy.zcl.clusters.general import Identify

async def main():
    app, (d, _) = make()
    got = []
    with app.callback_for_response(d, [Identify.ServerCommandDefs.identify.schema(identify_time=0)], lambda hdr, cmd: got.append(int(cmd.identify_time))):
        for n, v in enumerate((5, 0, 256)):
            app.packet_received(packet(d, bytes([1, n, 0, v & 255, v >> 8])))
    assert got == [0], got

asyncio.run(main())
''')
mk("B07_one_endpoint_is_enough", "C07", [(A, "            or device.all_endpoints_init\n            or (", "            or any(\n                ep.status != zigpy.endpoint.Status.NEW\n                for ep in device.non_zdo_endpoints\n            )\n            or (")],
"application traffic from a device with several endpoints, whose interview stopped after some but not all of them",
"application packets of a half-interviewed device are processed before all its endpoints are known",
PKT + '''
async def main():
    app, (d, _) = make()
    d.add_endpoint(2)
    async def idle(): await asyncio.sleep(5)
    d.initialize = idle
    s = Seen()
    d.endpoints[1].identify.add_listener(s)
    app.packet_received(packet(d, bytes([1, 7, 1])))
    assert not s.seen, s.seen
    assert d.initializing
    d.endpoints[2].status = zigpy.endpoint.Status.ZDO_INIT
    app.packet_received(packet(d, bytes([1, 8, 1])))
    assert len(s.seen) == 1, s.seen

asyncio.run(main())
''')
mk("B08_stale_interview_kept", "C08", [(A, "        elif not dev.is_initialized:\n            # Re-initialize partially", "        elif not dev.is_initialized and not dev.initializing:\n            # Re-initialize partially")],
"a device announces itself again at the same address while its interview is still running (stuck on a request the device lost)",
"the announcement does not restart the interview",
PKT + '''
async def main():
    app, (d, _) = make()
    d.node_desc = None
    n = []

    async def init():
        n.append(1)
        await asyncio.sleep(5)

    d.initialize = init
    for _ in range(3):
        app.handle_join(nwk=d.nwk, ieee=d.ieee, parent_nwk=None)
        await asyncio.sleep(0.01)
    assert len(n) == 3, n

asyncio.run(main())
''')
mk("B09_endpoints_one_by_one", "C09", [(D, """                if endpoint_id != 0:
                    self.add_endpoint(endpoint_id)
""", """                if endpoint_id != 0:
                    # Get to know it at once
                    await self.add_endpoint(endpoint_id).initialize()
""")],
"the simple descriptor of an endpoint that is not the last one cannot be read at the first attempt",
"the next attempt takes the endpoints found so far for all of them: the interview completes without the others",
PRE + '''
class SD:
    profile, device_type, input_clusters, output_clusters = 260, 0, [3], []

async def main():
    app, (d, _) = make()
    d.endpoints.pop(1)
    d.model, d.manufacturer = "m", "f"
    asked = []

    async def active(nwk, **kw): return 0, nwk, [1, 2, 3]

    async def simple(nwk, ep, **kw):
        asked.append(ep)
        if ep == 2 and asked.count(2) < 2:
            raise asyncio.TimeoutError
        return 0, nwk, SD

    d.zdo.Active_EP_req = active
    d.zdo.Simple_Desc_req = simple
    await d.initialize()
    assert sorted(e for e in d.endpoints if e) == [1, 2, 3], d.endpoints

asyncio.run(main())
''')
mk("B10_only_first_parent", "C10", [(A, "                    if neighbor is dev:\n                        parents.append(parent)\n", "                    if neighbor is dev and not parents:\n                        parents.append(parent)\n")],
"an end device that the topology knows as the neighbour of two routers (stale entries after it moved) is removed",
"only one of the parents the topology knows is asked to make the device leave",
PRE + '''
async def main():
    app, (a, b, d) = make(3)
    d.node_desc = zdo_t.NodeDescriptor(2, 64, 128, 4476, 82, 82, 11264, 82, 0)
    for r in (a, b):
        app.topology.neighbors[r.ieee].append(zdo_t.Neighbor(
            extended_pan_id=t.EUI64.convert("00:0d:6f:00:00:00:00:aa"), ieee=d.ieee, nwk=d.nwk, device_type=2, rx_on_when_idle=0, relationship=1,
            reserved1=0, permit_joining=0, reserved2=0, depth=1, lqi=5))
    sent = []

    async def sender(p):
        sent.append((p.dst.address, p.cluster_id))

    app.sender = sender
    await app.remove(d.ieee)
    await asyncio.sleep(0.05)
    got = sorted(a for a, c in sent if c == 0x0034)
    assert got == [a.nwk, b.nwk, d.nwk], sent

asyncio.run(main())
''')
