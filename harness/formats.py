"""C17: interchange formats of network backups.  Area `Formats`."""
from __future__ import annotations

import copy
import json
import random
from datetime import datetime, timedelta, timezone


def op(x):
    """numbers and nothing as opaque strings"""
    if x is None:
        return "#null"
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return f"#{int(x)}"
    if isinstance(x, dict):
        return {k: op(v) for k, v in x.items()}
    if isinstance(x, list):
        return [op(v) for v in x]
    return x


def opaque(x):
    return json.dumps(x, sort_keys=True)


def when(x):
    return datetime.fromisoformat(x.replace("Z", "+00:00")).astimezone(timezone.utc).isoformat()


def key_view(k):
    return {"key": list(k.key.serialize()), "tx": op(k.tx_counter), "rx": op(k.rx_counter), "seq": op(k.seq), "partner": list(k.partner_ieee.serialize())}


def view(b):
    import zigpy.state
    n, w = b.node_info, b.network_info
    assert b.version == 1
    return {"nwk": list(n.nwk.serialize()), "ieee": list(n.ieee.serialize()), "type": zigpy.state.LOGICAL_TYPE_TO_JSON[n.logical_type],
            "model": op(n.model), "manufacturer": op(n.manufacturer), "version": op(n.version),
            "epan": list(w.extended_pan_id.serialize()), "pan": list(w.pan_id.serialize()), "update": op(w.nwk_update_id), "manager": list(w.nwk_manager_id.serialize()),
            "channel": op(w.channel), "mask": [op(c) for c in range(11, 27) if int(w.channel_mask) >> c & 1], "level": op(w.security_level), "source": op(w.source),
            "stack": opaque(w.stack_specific), "meta": opaque(w.metadata), "created": when(b.backup_time.isoformat()),
            "nkey": key_view(w.network_key), "tkey": key_view(w.tc_link_key), "keys": [key_view(k) for k in w.key_table],
            "children": [list(c.serialize()) for c in w.children], "nwks": [{"ieee": list(i.serialize()), "nwk": list(a.serialize())} for i, a in w.nwk_addresses.items()]}


def rand_json(rng, depth=0):
    r = rng.random()
    if r < 0.5 or depth > 2:
        return rng.choice([None, True, False, 0, 5, 2 ** 40, -3, "", "text", "é漢", "00ff"])
    if r < 0.75:
        return [rand_json(rng, depth + 1) for _ in range(rng.randrange(3))]
    return {rng.choice(["a", "b", "tclk_seed", "0"]): rand_json(rng, depth + 1) for _ in range(rng.randrange(3))}


def rand_backup(rng):
    import zigpy.backups
    import zigpy.config as conf
    import zigpy.state as zs
    import zigpy.types as t
    import zigpy.zdo.types as z
    word = lambda n: rng.choice([rng.getrandbits(n), rng.getrandbits(n), 0, 2 ** n - 1, rng.randrange(1 << min(n, 8))])
    ieee = lambda: t.EUI64(rng.choice([rng.randbytes(8), rng.randbytes(8), b"\xff" * 8, b"\x00" * 8, bytes(range(1, 9))]))
    kd = lambda: rng.choice([t.KeyData(rng.randbytes(16)), t.KeyData(rng.randbytes(16)), conf.CONF_NWK_TC_LINK_KEY_DEFAULT, t.KeyData.UNKNOWN])
    key = lambda p: zs.Key(key=kd(), tx_counter=t.uint32_t(word(32)), rx_counter=t.uint32_t(word(32)), seq=t.uint8_t(word(8)), partner_ieee=p)
    text = lambda: rng.choice([None, "", "model", "EFR32 é", "20200101 build 5"])
    devices = []
    for _ in range(rng.choice([0, 1, 2, 5, 12])):
        d = ieee()
        if d not in devices:
            devices.append(d)
    pick = lambda p: [d for d in rng.sample(devices, len(devices)) if rng.random() < p]
    meta = {k: rand_json(rng) for k in rng.sample(["zigpy", "znpVersion", "date", "x", "nodes"], rng.choice([0, 0, 1, 2]))}
    if "date" in meta:
        meta["date"] = "2019-03-04T05:06:07.890Z"
    b = zigpy.backups.NetworkBackup()
    tz = rng.choice([timezone.utc, timezone.utc, timezone(timedelta(hours=2)), timezone(timedelta(hours=-9, minutes=-30))])
    b.backup_time = datetime(2020, 1, 1, tzinfo=tz) + timedelta(seconds=rng.getrandbits(28), microseconds=rng.choice([0, 761000, 123456]))
    b.node_info = zs.NodeInfo(nwk=t.NWK(word(16)), ieee=ieee(), logical_type=rng.choice([z.LogicalType.Coordinator, z.LogicalType.Router, z.LogicalType.EndDevice]),
                              model=text(), manufacturer=text(), version=text())
    b.network_info = zs.NetworkInfo(
        extended_pan_id=t.ExtendedPanId(ieee()), pan_id=t.PanId(word(16)), nwk_update_id=t.uint8_t(word(8)), nwk_manager_id=t.NWK(word(16)), channel=t.uint8_t(rng.choice([11, 15, 26, rng.randrange(11, 27), 0])),
        channel_mask=t.Channels(rng.choice([0x07FFF800, 0, word(16) << 11])), security_level=t.uint8_t(rng.choice([5, 5, 0, 7, 6])), network_key=key(rng.choice([t.EUI64.UNKNOWN, ieee()])), tc_link_key=key(ieee()),
        key_table=[key(d) for d in pick(0.5)], children=pick(0.4), nwk_addresses={d: t.NWK(word(16)) for d in pick(0.6)},
        stack_specific=rng.choice([{}, {"zstack": {"tclk_seed": "71c31555703788799d2c9d2c5a6ce1c0"}}, {"a": rand_json(rng)}]), metadata=meta, source=rng.choice(["zigpy-znp@0.5.4", None, "x"]))
    return b


def hexed(x):
    return list(bytes.fromhex(x))


def decode(obj):
    """an object of the open format for the specification"""
    internal = obj["metadata"].get("internal", {})
    j = {"source": op(obj["metadata"]["source"]), "seqs": [[hexed(k), op(v)] for k, v in internal.get("link_key_seqs", {}).items()],
         "extra": opaque({k: v for k, v in internal.items() if k not in ("node", "network", "link_key_seqs", "creation_time")})}
    if "creation_time" in internal:
        j["created"] = when(internal["creation_time"])
    if "date" in internal:
        j["date"] = when(internal["date"])
    if "node" in internal:
        j["node"] = {k: op(v) for k, v in internal["node"].items() if k in ("type", "model", "manufacturer", "version")}
        if "nwk" in internal["node"]:
            j["node"]["nwk"] = hexed(internal["node"]["nwk"])
        j["node"]["x"] = 0
    if "network" in internal:
        net = internal["network"]
        j["network"] = {"x": 0}
        if "tc_link_key" in net:
            j["network"]["tc_link_key"] = {"key": hexed(net["tc_link_key"]["key"]), **({"frame_counter": op(net["tc_link_key"]["frame_counter"])} if "frame_counter" in net["tc_link_key"] else {})}
        for k in ("tc_address", "nwk_manager"):
            if k in net:
                j["network"][k] = hexed(net[k])
    for k in ("coordinator_ieee", "pan_id", "extended_pan_id"):
        j[k] = hexed(obj[k])
    for k in ("nwk_update_id", "security_level", "channel"):
        j[k] = op(obj[k])
    j["channel_mask"] = [op(c) for c in obj["channel_mask"]]
    if obj.get("stack_specific"):
        j["stack_specific"] = opaque(obj["stack_specific"])
    j["network_key"] = {**op(obj["network_key"]), "key": hexed(obj["network_key"]["key"])}
    j["devices"] = []
    for d in obj["devices"]:
        e = {"ieee_address": hexed(d["ieee_address"]), "nwk_address": [] if d["nwk_address"] is None else hexed(d["nwk_address"])}
        if "is_child" in d:
            e["is_child"] = d["is_child"]
        if "link_key" in d:
            e["link_key"] = {**op(d["link_key"]), "key": hexed(d["link_key"]["key"])}
        j["devices"].append(e)
    return j


def lighten(rng, obj):
    """a file by other software: without what is optional, with other things, in another order"""
    obj = copy.deepcopy(obj)
    gone = lambda p=0.3: rng.random() < p
    internal = obj["metadata"]["internal"]
    for k in ("node", "network", "link_key_seqs", "creation_time"):
        if gone():
            del internal[k]
    for k in ("nwk", "type", "model", "manufacturer", "version", "ieee"):
        if "node" in internal and gone():
            del internal["node"][k]
    if "network" in internal:
        if gone():
            del internal["network"]["tc_link_key"]
        elif gone():
            del internal["network"]["tc_link_key"]["frame_counter"]
        if gone():
            del internal["network"]["nwk_manager"]
    if "link_key_seqs" in internal:
        for k in list(internal["link_key_seqs"]):
            if gone():
                del internal["link_key_seqs"][k]
    if gone(0.4):
        internal["date"] = "2021-02-08T19:35:24.761Z"
    if gone(0.15):
        del obj["metadata"]["internal"]
    if gone():
        del obj["stack_specific"]
    upper = gone(0.2)
    for d in obj["devices"]:
        if gone():
            del d["is_child"]
        if gone(0.1):
            d["link_key"] = {"key": rng.randbytes(16).hex(), "tx_counter": 2 ** 32 - 1, "rx_counter": 0}
    if upper and "internal" not in obj["metadata"]:
        for k in ("coordinator_ieee", "pan_id", "extended_pan_id"):
            obj[k] = obj[k].upper()
    rng.shuffle(obj["devices"])
    rng.shuffle(obj["channel_mask"])
    obj["network_key"]["frame_counter"] = rng.choice([0, 2 ** 32 - 1, 12345])
    return obj


def drive(script, events):
    from zigpy.backups import NetworkBackup
    rng = random.Random(script["seed"])
    wire = lambda x: json.loads(json.dumps(x))
    for _ in range(script["n"]):
        b = rand_backup(rng)
        v = view(b)
        r = rng.random()
        if r < 0.3:
            obj = wire(b.as_dict())
            assert view(b) == v
            t2 = copy.deepcopy(obj)
            w = t2["network_info"]
            nwks = [[k, x] for k, x in w.pop("nwk_addresses").items()]
            for k in ("stack_specific", "metadata"):
                w[k] = opaque(w[k])
            t2["backup_time"] = when(t2["backup_time"])
            events.append({"ev": "write", "b": v, "tree": op(t2), "nwks": nwks})
            if rng.random() < 0.3:
                # the first version
                v = dict(v)
                for k in ("model", "manufacturer", "version"):
                    del obj["node_info"][k]
                    v[k] = "#null"
                obj.pop("version")
            events.append({"ev": "read", "b": v, "got": view(NetworkBackup.from_dict(obj))})
            continue
        obj = wire(b.as_open_coordinator_json())
        assert view(b) == v
        if r < 0.7:
            t2 = copy.deepcopy(obj)
            i = t2["metadata"]["internal"]
            seqs = [[k, op(x)] for k, x in i.pop("link_key_seqs").items()]
            extra = opaque({k: i.pop(k) for k in list(i) if k not in ("creation_time", "node", "network")})
            t2["stack_specific"] = opaque(t2["stack_specific"])
            i["creation_time"] = when(i["creation_time"])
            events.append({"ev": "export", "b": v, "tree": op(t2), "seqs": seqs, "extra": extra})
            events.append({"ev": "back", "b": v, "got": view(NetworkBackup.from_dict(obj))})
        else:
            obj = lighten(rng, obj)
            before = copy.deepcopy(obj)
            got = view(NetworkBackup.from_dict(obj))
            assert obj == before
            events.append({"ev": "import", "j": decode(obj), "got": got})
        if rng.random() < 0.1:
            bad = copy.deepcopy(obj)
            k = rng.choice(["pan_id", "coordinator_ieee", "network_key", "devices", "metadata"])
            if k == "metadata":
                del bad["metadata"]
            elif k == "network_key":
                bad[k]["key"] = bad[k]["key"][:-2]
            elif k == "devices":
                bad["channel_mask"] = [10]
            else:
                bad[k] = bad[k][:-2]
            try:
                NetworkBackup.from_dict(bad)
                ok = True
            except (ValueError, KeyError, AssertionError):
                ok = False
            events.append({"ev": "refused", "ok": ok})


def random_script(rng):
    return {"seed": rng.getrandbits(40), "n": 6}


def check_c17(ctx):
    ctx.model_check("MC_Formats")
    ctx.check_traces("formats", "Formats_Trace", drive, [random_script(ctx.rng) for _ in range(ctx.n(1500, 40000))])
