"""C27: quirk selection and replacement.  Area `Quirks`."""
from __future__ import annotations

import pathlib
import random
import sys
import types as pytypes

from . import stub, vloop

NAMES = ["A", "B", "-"]
MODELS = ["X", "Y", "-"]
CLUSTERS = [0, 3, 6, 8, 0xFC01]
KONST = 0x0777


def endpoints(rng, ids):
    return [{"id": i, "p": rng.choice([260, 260, 49246]), "ty": rng.choice([0x100, 0x51]),
             "in": sorted(rng.sample(CLUSTERS, rng.choice([1, 2, 3]))), "out": sorted(rng.sample(CLUSTERS, rng.choice([0, 1])))} for i in ids]


def near(rng, eps):
    """a signature that fits these endpoints, or nearly"""
    out = []
    for e in eps:
        s = {"id": e["id"], "p": rng.choice([e["p"], e["p"], -1]), "ty": rng.choice([e["ty"], e["ty"], -1]), "in": list(e["in"]), "out": list(e["out"])}
        if rng.random() < 0.2:
            k = rng.choice(["id", "p", "ty", "in", "in", "out", "out"])
            if k in ("in", "out"):
                c = rng.choice(CLUSTERS)
                s[k] = sorted(set(s[k]) ^ {c})
            else:
                s[k] = rng.choice([7, 8])
        out.append(s)
    if rng.random() < 0.1 and len(out) > 1:
        out.pop()
    if len({s["id"] for s in out}) != len(out):
        out = out[:1]
    return out


def random_script(rng):
    ids = lambda: rng.choice([[1], [1], [1, 2], [1, 2, 242]])
    shapes = [endpoints(rng, ids()) for _ in range(rng.randint(1, 3))]
    devices = []
    for _ in range(rng.randint(2, 5)):
        eps = rng.choice(shapes)
        devices.append({"m": rng.choice(NAMES), "mo": rng.choice(MODELS), "node": rng.choice([0, 1]), "skip": rng.random() < 0.2, "eps": eps, "seed": rng.getrandbits(30)})
    defs = []
    for _ in range(rng.randint(1, 7)):
        shape = rng.choice(shapes)
        dev = rng.choice(devices)
        clusters = lambda: [{"c": c, "k": rng.choice([0, 0, 1])} for c in rng.sample(CLUSTERS, rng.choice([0, 1, 2, 4]))]
        if rng.random() < 0.55:
            keys = rng.sample([[dev["m"], dev["mo"]], [dev["m"], "-"], ["-", dev["mo"]], ["-", "-"], ["B", "Y"], ["A", "X"]], rng.choice([1, 1, 1, 2, 3]))
            keys = [k for j, k in enumerate(keys) if k not in keys[:j]]
            eps = [{"id": e["id"], "p": rng.choice([-1, 260]), "ty": rng.choice([-1, 0x100]), "in": clusters(), "out": clusters()} for e in shape if rng.random() < 0.8]
            if rng.random() < 0.3:
                eps.append({"id": 9, "p": 260, "ty": 1, "in": clusters(), "out": clusters()})
            sig = near(rng, shape)
            # what a replaced endpoint does not tell comes from the device's
            for e in eps:
                if e["id"] not in [s["id"] for s in sig]:
                    e["p"], e["ty"] = 260, 3
            defs.append({"two": False, "keys": keys, "listed": len(keys) > 1 or rng.random() < 0.5,
                         "sm": "*", "smo": "*", "has": rng.random() < 0.95, "sig": sig, "copy": rng.random() < 0.4, "auto": rng.random() < 0.3,
                         "file": rng.choice(["one", "two"]),
                         "rep": {"m": rng.choice(["*", "*", "R"]), "mo": rng.choice(["*", "*", "S"]), "node": rng.choice([-1, -1, 0, 1]), "skip": rng.choice([-1, 0, 1]), "eps": eps}})
            d = defs[-1]
            if not d["listed"]:
                # the signature itself names them
                d["sm"], d["smo"] = ["*" if x == "-" else x for x in keys[0]]
        else:
            keys = [k for k in rng.sample([[dev["m"], dev["mo"]], ["A", "X"], ["B", "Y"], ["A", "Y"]], rng.choice([1, 2])) if "-" not in k]
            keys = [k for j, k in enumerate(keys) if k not in keys[:j]] or [["A", "X"]]
            op = lambda: {"ep": 1, "side": rng.choice(["in", "in", "out"]), "c": rng.choice(CLUSTERS), "k": rng.choice([0, 1])}
            some = lambda f: [f() for _ in range(rng.choice([0, 0, 1, 2]))]
            def add():
                o = op()
                return {**o, "con": rng.choice([-1, 5, 77]) if o["k"] else -1}
            def every():
                return {"c": rng.choice(CLUSTERS), "k": 1, "in": rng.random() < 0.7, "out": rng.random() < 0.7}
            filters = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                filters.append(rng.choice([{"f": "endpoint", "n": rng.choice([1, 2])}, {"f": "node", "n": rng.choice([0, 1])}, {"f": "signature", "sig": near(rng, shape)},
                                           {"f": "signature", "sig": [{**e} for e in shape]}, {"f": "never"}]))
            defs.append({"two": True, "keys": keys, "filters": filters, "file": rng.choice(["one", "two"]), "node": rng.choice([-1, -1, 0, 1]), "skip": rng.choice([0, 0, 1]),
                         "adds": some(add), "removes": some(op), "replaces": some(lambda: {**op(), "k": 1, "old": rng.choice(CLUSTERS)}), "occ": some(every)})
    ops = []
    for _ in range(rng.randint(6, 18)):
        r = rng.random()
        q = rng.randint(1, len(defs))
        if r < 0.4:
            ops.append(["register", q])
        elif r < 0.75:
            ops.append(["get", rng.randrange(len(devices))])
        elif r < 0.83:
            ops.append(["remove", q])
        elif r < 0.86:
            ops.append(["known", q])
        elif r < 0.89:
            ops.append(["purge", rng.choice(["one", "two"])])
        elif r < 0.94:
            ops.append(["known of", 0])
        else:
            ops.append(["remove of", 0])
    return {"defs": defs, "devices": devices, "ops": [["register", q + 1] for q in range(len(defs)) if rng.random() < 0.6] + ops}


def drive(script, events):
    import zigpy.device
    import zigpy.endpoint
    import zigpy.exceptions as ze
    import zigpy.quirks as zq
    import zigpy.quirks.v2 as v2
    import zigpy.types as t
    import zigpy.zcl
    from zigpy.quirks.registry import DeviceRegistry
    from zigpy.zcl import foundation as f
    from zigpy.zcl.clusters import CLUSTERS_BY_ID

    old = zq._DEVICE_REGISTRY
    reg = zq._DEVICE_REGISTRY = zq.DEVICE_REGISTRY = DeviceRegistry()
    modules = []
    root = pathlib.Path("/nowhere")

    def module(name):
        key = f"quirks_{name}_module"
        if key not in modules:
            m = pytypes.ModuleType(key)
            m.__file__ = str(root / name / "quirk.py")
            sys.modules[key] = m
            modules.append(key)
        return key

    custom = {}

    def cluster_class(c, k):
        if not k:
            return c
        if c not in custom:
            base = CLUSTERS_BY_ID.get(c)
            bases = (zq.CustomCluster,) + ((base,) if base is not None else ())
            attrs = type("AttributeDefs", (base.AttributeDefs if base is not None else f.BaseAttributeDefs,), {"konst": f.ZCLAttributeDef(id=KONST, type=t.uint8_t)})
            custom[c] = type(f"Custom{c}", bases, {"cluster_id": c, "AttributeDefs": attrs, "ep_attribute": getattr(base, "ep_attribute", None) or "special"})
        return custom[c]

    def signature(sig):
        out = {}
        for s in sig:
            e = out[s["id"]] = {zq.SIG_EP_INPUT: list(s["in"]), zq.SIG_EP_OUTPUT: list(s["out"])}
            if s["p"] != -1:
                e[zq.SIG_EP_PROFILE] = s["p"]
            if s["ty"] != -1:
                e[zq.SIG_EP_TYPE] = s["ty"]
        return out

    nodes = [stub.node_desc("router"), stub.node_desc("end")]
    none = lambda x: None if x == "-" else x
    built, which = {}, {}

    def build(q):
        d = script["defs"][q - 1]
        if not d["two"]:
            sig = {}
            if d["has"]:
                sig[zq.SIG_ENDPOINTS] = signature(d["sig"])
            if d["listed"]:
                sig[zq.SIG_MODELS_INFO] = [(none(m), none(mo)) for m, mo in d["keys"]]
            else:
                if d["sm"] != "*":
                    sig[zq.SIG_MANUFACTURER] = none(d["sm"])
                if d["smo"] != "*":
                    sig[zq.SIG_MODEL] = none(d["smo"])
            r = d["rep"]
            rep = {zq.SIG_ENDPOINTS: {}}
            if r["m"] != "*":
                rep[zq.SIG_MANUFACTURER] = r["m"]
            if r["mo"] != "*":
                rep[zq.SIG_MODEL] = r["mo"]
            if r["node"] != -1:
                rep[zq.SIG_NODE_DESC] = nodes[r["node"]]
            if r["skip"] != -1:
                rep[zq.SIG_SKIP_CONFIG] = bool(r["skip"])
            for e in r["eps"]:
                x = rep[zq.SIG_ENDPOINTS][e["id"]] = {}
                if e["p"] != -1:
                    x[zq.SIG_EP_PROFILE] = e["p"]
                if e["ty"] != -1:
                    x[zq.SIG_EP_TYPE] = e["ty"]
                x[zq.SIG_EP_INPUT] = [cluster_class(y["c"], y["k"]) for y in e["in"]]
                x[zq.SIG_EP_OUTPUT] = [cluster_class(y["c"], y["k"]) for y in e["out"]]
            ns = {"replacement": rep, "_copy_cluster_attr_cache": d["copy"], "__module__": module(d["file"])}
            if d["auto"]:
                cls = type(f"Quirk{q}", (zq.CustomDevice,), {**ns, "signature": sig})
            else:
                cls = type(f"Quirk{q}", (zq.CustomDevice,), ns)
                cls.signature = sig
                reg.add_to_registry(cls)
            built[q] = cls
            return
        b = v2.QuirkBuilder(*d["keys"][0], registry=reg)
        for m, mo in d["keys"][1:]:
            b.applies_to(m, mo)
        b.quirk_file = root / d["file"] / "quirk.py"
        for fl in d["filters"]:
            if fl["f"] == "endpoint":
                b.filter(lambda dev, n=fl["n"]: n in dev.endpoints)
            elif fl["f"] == "node":
                b.filter(lambda dev, n=fl["n"]: dev.node_desc == nodes[n])
            elif fl["f"] == "signature":
                b.filter(zq.signature_matches({zq.SIG_ENDPOINTS: signature(fl["sig"])}))
            else:
                b.filter(lambda dev: False)
        if d["node"] != -1:
            b.node_descriptor(nodes[d["node"]])
        if d["skip"]:
            b.skip_configuration()
        side = {"in": zigpy.zcl.ClusterType.Server, "out": zigpy.zcl.ClusterType.Client}
        for a in d["adds"]:
            cls = cluster_class(a["c"], a["k"])
            b.adds(cls, side[a["side"]], a["ep"], constant_attributes={cls.AttributeDefs.konst: a["con"]} if a["con"] != -1 else None)
        for a in d["removes"]:
            b.removes(a["c"], side[a["side"]], a["ep"])
        for a in d["replaces"]:
            b.replaces(cluster_class(a["c"], 1), a["old"], side[a["side"]], a["ep"])
        for a in d["occ"]:
            b.replace_cluster_occurrences(cluster_class(a["c"], 1), a["in"], a["out"])
        # no two of different number are the same
        b.device_automation_triggers({("q", str(q)): {"q": str(q)}})
        built[q] = b
        which[b.add_to_registry()] = q

    def some(cluster):
        return [a for a in sorted(cluster.attributes) if a not in (KONST, 0xFFFD)][:3] + [0xFFFD] if 0xFFFD in cluster.attributes else []

    def side(cluster):
        return "in" if cluster.is_server else "out"

    def view(dev):
        eps, cl, cache = [], [], []
        for i, ep in dev.endpoints.items():
            if i == 0:
                continue
            eps.append({"id": i, "p": ep.profile_id, "ty": ep.device_type})
            for where, cs in (("in", ep.in_clusters), ("out", ep.out_clusters)):
                for c, x in cs.items():
                    assert x.cluster_id == c and x.endpoint is ep and side(x) == where, (c, where)
                    k = int(isinstance(x, zq.CustomCluster))
                    assert not k or type(x) is custom[c]
                    con = x.get("konst") if k else None
                    cl.append({"ep": i, "side": where, "c": c, "k": k, "con": -1 if con is None else int(con)})
                    for a in some(x):
                        v = x.get(a)
                        if v is not None:
                            cache.append([i, where, c, a, int(v)])
        return {"m": dev.manufacturer or "-", "mo": dev.model or "-", "node": nodes.index(dev.node_desc) if dev.node_desc in nodes else 9, "skip": bool(dev.skip_configuration),
                "eps": eps, "cl": cl, "cache": cache}

    def make(app, j, n):
        d = script["devices"][j]
        rng = random.Random(d["seed"])
        dev = zigpy.device.Device(app, stub.ieee(n), t.NWK(0x1000 + n))
        dev.node_desc = nodes[d["node"]]
        dev.manufacturer, dev.model = none(d["m"]), none(d["mo"])
        dev.skip_configuration = d["skip"]
        for e in d["eps"]:
            ep = dev.add_endpoint(e["id"])
            ep.profile_id, ep.device_type = e["p"], e["ty"]
            ep.status = zigpy.endpoint.Status.ZDO_INIT
            for c in e["in"]:
                x = ep.add_input_cluster(c)
                for _ in range(rng.choice([0, 1, 2]) if some(x) else 0):
                    x.update_attribute(rng.choice(some(x)), rng.randrange(200))
            for c in e["out"]:
                x = ep.add_output_cluster(c)
                if some(x) and rng.random() < 0.4:
                    x.update_attribute(rng.choice(some(x)), rng.randrange(200))
        dev.status = rng.choice([zigpy.device.Status.ENDPOINTS_INIT, zigpy.device.Status.ENDPOINTS_INIT, zigpy.device.Status.ZDO_INIT])
        dev.lqi, dev.rssi = rng.choice([None, t.uint8_t(77)]), rng.choice([None, t.int8s(-50)])
        if rng.random() < 0.8:
            dev.last_seen = 1700000000.25 + rng.randrange(1000)
        if rng.random() < 0.5:
            dev.relays = t.Relays([0x1234, 0x0001])
        return dev

    def state(dev):
        return [dev.application, dev.ieee, dev.nwk, dev.status, dev.lqi, dev.rssi, dev.last_seen, dev.relays]

    async def main():
        app = stub.make_app()
        events.append({"ev": "defs", "defs": script["defs"]})
        custom_devices = []
        n = 0
        for op, x in script["ops"]:
            if op == "register":
                if x not in built:
                    build(x)
                elif script["defs"][x - 1]["two"]:
                    which[built[x].add_to_registry()] = x
                else:
                    reg.add_to_registry(built[x])
                events.append({"ev": "register", "q": x})
            elif op in ("remove", "known"):
                if x not in built or script["defs"][x - 1]["two"]:
                    continue
                if op == "known":
                    events.append({"ev": "known", "q": x, "ok": built[x] in reg})
                    continue
                try:
                    reg.remove(built[x])
                    ok = True
                except (ValueError, KeyError):
                    ok = False
                events.append({"ev": "remove", "q": x, "ok": ok})
            elif op in ("remove of", "known of"):
                if not custom_devices:
                    continue
                q, key, dev = custom_devices[-1]
                if op == "known of":
                    events.append({"ev": "known of", "q": q, "key": key, "ok": dev in reg})
                    continue
                try:
                    reg.remove(dev)
                    ok = True
                except (ValueError, KeyError):
                    ok = False
                events.append({"ev": "remove of", "q": q, "key": key, "ok": ok})
            elif op == "purge":
                reg.purge_custom_quirks(root / x)
                events.append({"ev": "purge", "file": x})
            else:
                n += 1
                dev = make(app, x, n)
                before, was = view(dev), state(dev)
                try:
                    got = zq.get_device(dev) if n % 2 else zq.get_device(dev, reg)
                    what, q = "none", 0
                except ze.MultipleQuirksMatchException:
                    got, what, q = dev, "ambiguous", 0
                same = got is dev
                if isinstance(got, v2.CustomDeviceV2):
                    what, q = "declared", which[got.quirk_metadata]
                    custom_devices.append((q, [before["m"], before["mo"]], got))
                elif isinstance(got, zq.CustomDevice):
                    what, q = "class", next(k for k, v in built.items() if v is type(got))
                now = state(got)
                assert now == was, (was, now)
                if same:
                    assert view(dev) == before
                events.append({"ev": "get", "d": before, "what": what, "q": q, "same": same, "got": view(got)})
                if not same:
                    events.append({"ev": "again", "same": zq.get_device(got) is got and reg.get_device(got) is got})

    try:
        vloop.run(main)
    finally:
        zq._DEVICE_REGISTRY = zq.DEVICE_REGISTRY = old
        for m in modules:
            del sys.modules[m]


def check_c27(ctx):
    ctx.model_check("MC_Quirks")
    ctx.check_traces("quirks", "Quirks_Trace", drive, [random_script(ctx.rng) for _ in range(ctx.n(3000, 60000))])
