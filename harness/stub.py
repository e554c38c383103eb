"""A ControllerApplication whose radio is a recorder, and builders for devices."""
from __future__ import annotations

import asyncio
import copy

import zigpy.application
import zigpy.config as conf
import zigpy.device
import zigpy.endpoint
import zigpy.state as app_state
import zigpy.types as t
import zigpy.zdo.types as zdo_t

NCP_IEEE = t.EUI64.convert("aa:11:22:bb:33:44:be:ef")


class App(zigpy.application.ControllerApplication):
    on_send = None          # async callable(packet)

    async def send_packet(self, packet):
        if self.on_send is not None:
            return await self.on_send(packet)

    async def connect(self):
        pass

    async def disconnect(self):
        pass

    async def start_network(self):
        pass

    async def force_remove(self, dev):
        pass

    async def add_endpoint(self, descriptor):
        pass

    async def permit_ncp(self, time_s=60):
        pass

    async def permit_with_link_key(self, node, link_key, time_s=60):
        pass

    async def reset_network_info(self):
        pass

    async def write_network_info(self, *, network_info, node_info):
        pass

    async def load_network_info(self, *, load_devices=False):
        pass


def merge(obj, upd):
    r = copy.deepcopy(obj)
    for k, v in upd.items():
        r[k] = merge(r[k], v) if isinstance(v, dict) and isinstance(r.get(k), dict) else v
    return r


def config(**upd):
    return merge({
        conf.CONF_DATABASE: None,
        conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"},
        conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False},
    }, upd)


def make_app(base=App, **upd):
    app = base(config(**upd))
    app.state.node_info = app_state.NodeInfo(
        nwk=t.NWK(0x0000), ieee=NCP_IEEE, logical_type=zdo_t.LogicalType.Coordinator
    )
    return app


def ieee(n):
    return t.EUI64.convert("00:0d:6f:00:00:00:%02x:%02x" % (n >> 8, n & 0xFF))


def node_desc(kind="router", manuf=4476):
    lt = {"router": zdo_t.LogicalType.Router, "end": zdo_t.LogicalType.EndDevice,
          "coordinator": zdo_t.LogicalType.Coordinator}[kind]
    caps = {"router": 0b10001110, "end": 0b10000000, "coordinator": 0b10001111}[kind]
    return zdo_t.NodeDescriptor(
        logical_type=lt,
        complex_descriptor_available=0,
        user_descriptor_available=0,
        reserved=0,
        aps_flags=0,
        frequency_band=zdo_t.NodeDescriptor.FrequencyBand.Freq2400MHz,
        mac_capability_flags=zdo_t.NodeDescriptor.MACCapabilityFlags(caps),
        manufacturer_code=manuf,
        maximum_buffer_size=82,
        maximum_incoming_transfer_size=82,
        server_mask=11264,
        maximum_outgoing_transfer_size=82,
        descriptor_capability_field=0,
    )


def add_device(app, n, nwk, kind="router", eps=None, init=True):
    """eps: {ep_id: (in_clusters, out_clusters)}"""
    dev = app.add_device(ieee(n), t.NWK(nwk))
    if kind is not None:
        dev.node_desc = node_desc(kind)
    if init:
        for eid, (ins, outs) in (eps or {1: ([0], [])}).items():
            ep = dev.add_endpoint(eid)
            ep.profile_id = 260
            ep.device_type = 0x0100
            for c in ins:
                ep.add_input_cluster(c)
            for c in outs:
                ep.add_output_cluster(c)
            ep.status = zigpy.endpoint.Status.ZDO_INIT
        dev.model = "Model"
        dev.manufacturer = "Manufacturer"
        dev.status = zigpy.device.Status.ENDPOINTS_INIT
    return dev


def packet(dev_nwk, cluster, data, *, src_ep=1, dst_ep=1, profile=260, timestamp=None, lqi=None,
           rssi=None, tsn=None, dst=None, src=None, **kw):
    d = {}
    if timestamp is not None:
        d["timestamp"] = timestamp
    return t.ZigbeePacket(
        src=src if src is not None else t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=dev_nwk),
        src_ep=src_ep,
        dst=dst if dst is not None else t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=0x0000),
        dst_ep=dst_ep, profile_id=profile, cluster_id=cluster, tsn=tsn,
        data=t.SerializableBytes(data), lqi=lqi, rssi=rssi, **d, **kw)
