PRE = '''
import asyncio
import zigpy.application, zigpy.types as t, zigpy.config as conf, zigpy.exceptions as ze
import zigpy.zdo.types as zdo_t, zigpy.endpoint


class App(zigpy.application.ControllerApplication):
    async def send_packet(self, packet):
        await self.sender(packet)
    async def connect(self): pass
    async def disconnect(self): pass
    async def start_network(self): pass
    async def force_remove(self, dev): pass
    async def add_endpoint(self, descriptor): pass
    async def permit_ncp(self, time_s=60): pass
    async def permit_with_link_key(self, node, link_key, time_s=60): pass
    async def reset_network_info(self): pass
    async def write_network_info(self, *, network_info, node_info): pass
    async def load_network_info(self, *, load_devices=False): pass


def make(n=2, **cfg):
    app = App({conf.CONF_DATABASE: None, conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"},
               conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}, **cfg})
    devs = []
    for i in range(n):
        d = app.add_device(t.EUI64.convert("00:0d:6f:00:00:00:00:%02x" % (i + 1)), t.NWK(0x1000 + i))
        d.node_desc = zdo_t.NodeDescriptor(1, 64, 142, 4476, 82, 82, 11264, 82, 0)
        e = d.add_endpoint(1)
        e.profile_id = 260
        e.status = zigpy.endpoint.Status.ZDO_INIT
        e.add_input_cluster(0)
        e.add_input_cluster(3)
        devs.append(d)
    return app, devs


def reply(app, dev, tsn, v):
    app.packet_received(t.ZigbeePacket(
        src=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=dev.nwk), src_ep=1,
        dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=0), dst_ep=1, profile_id=260,
        cluster_id=3, data=t.SerializableBytes(bytes([0x19, tsn, 0, v, 0]))))


def req(dev, tsn, **kw):
    return dev.request(profile=260, cluster=3, src_ep=1, dst_ep=1, sequence=tsn,
                       data=bytes([1, tsn, 1]), **kw)
'''
