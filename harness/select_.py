"""C23: which firmware images are offered.  Area `Select`."""
from __future__ import annotations

import asyncio
import hashlib
import io
import json
import pathlib
import struct
import tarfile
import types

from . import clock, stub, vloop
from .images import write

DEFAULT_MANUFS = {"ikea": [4476], "ledvance": [4489, 4364], "salus": [4216, 43981], "sonoff": [4742], "inovelli": [4655], "thirdreality": [4659, 4877, 5127]}
ALGS = {"sha3-256": "sha3_256", "sha512": "sha512", "sha256": "sha256", "sha1": "sha1"}


def plain(f):
    return write({"kind": "ota", "hv": 0x0100, "fc": 4 if f["hw"] else 0, "manuf": f["manuf"], "type": f["type"], "version": f["version"], "stack": 2,
                  "text": list(b"An image".ljust(32, b"\0")), "sec": 0, "dest": [0] * 8, "hw": f["hw"], "els": [[0, [f["fill"]] * 5]], "data": [], "dhl": 0, "dsize": 0})


def contents(f):
    b = plain(f)
    if f["box"] == "signed":
        n = -(-len(b) // 32)
        off = 40 + 32 * n
        hs = b"".join(hashlib.sha256(b[k * 32:k * 32 + 32]).digest() for k in range(n))
        b = b"NGIS" + bytes(12) + struct.pack("<II", off, len(b)) + bytes(8) + struct.pack("<II", 32, n) + hs + b + b"sig"
    elif f["box"] == "tar":
        out = io.BytesIO()
        with tarfile.open(fileobj=out, mode="w") as tar:
            info = json.dumps({"upgrade": [{"filename": "x.ota", "checksum": hashlib.md5(b).hexdigest().upper()}]}).encode()
            for name, data in (("networkinfo.json", info), ("x.ota", b)):
                ti = tarfile.TarInfo(name)
                ti.size = len(data)
                tar.addfile(ti, io.BytesIO(data))
        b = out.getvalue()
    return b


def drive(script, events):
    import aiohttp
    import zigpy.ota
    import zigpy.ota.providers as zp
    from zigpy.zcl.clusters.general import Ota

    over = []
    ids, sums = {}, {}

    def cid(b):
        if b not in ids:
            ids[b] = len(ids) + 1
            for a, h in ALGS.items():
                sums[a + ":" + hashlib.new(h, b).hexdigest()] = ids[b]
        return ids[b]

    files = script["files"]
    provs = {p["p"]: p for p in script["provs"]}

    def delivery(kind, url):
        """what is delivered: delay, bytes (None: error), facts"""
        plan = script["delivery"].get(url, [])
        x = plan.pop(0) if len(plan) > 1 else plan[0] if plan else {"delay": 1, "how": "ok", "file": 0}
        f = files[x["file"]]
        b, how = contents(f), x["how"]
        d = {"got": how != "http", "parses": True, "intact": True, "size": len(b), "sum": -1, "inner": cid(plain(f)), "manuf": f["manuf"], "type": f["type"],
             "minhw": f["hw"][0] if f["hw"] else -1, "maxhw": f["hw"][1] if f["hw"] else -1}
        if how == "cut":
            b = b[:1500] if f["box"] == "tar" else b[:len(b) - 30]
            d["parses"] = d["intact"] = False
        elif how == "flip":
            # within the element: still an image
            k = b.rindex(bytes([f["fill"]] * 5))
            b = b[:k] + bytes([b[k] ^ 1]) + b[k + 1:]
            d["intact"] = False
            d["inner"] = cid(plain(f)[:-5] + bytes([f["fill"] ^ 1]) + bytes([f["fill"]] * 4))
        elif how == "badlen":
            # image size in the header does not fit
            k = b.rindex(struct.pack("<I", len(plain(f))) + (struct.pack("<HH", *f["hw"]) if f["hw"] else b"") + b"\0\0\5")
            b = b[:k] + bytes([b[k] - 3]) + b[k + 1:]
            d["parses"] = d["intact"] = False
        if f["box"] == "tar" and kind != "salus":
            d["parses"] = False
        if kind == "salus" and f["box"] != "tar":
            d["intact"] = False
        if kind == "salus" and f["box"] == "tar":
            pass
        d["size"], d["sum"] = len(b), cid(b)
        if kind == "ikea" and f["box"] == "signed":
            d["size"] = len(plain(f))
        elif kind == "ikea" and f["box"] != "signed":
            d["intact"] = False
        return x["delay"], None if how == "http" else b, d

    def entry(p, n, e):
        """the entry as the specification sees it"""
        kind = provs[p]["kind"]
        f = files[e["file"]]
        b = plain(f) if kind == "ikea" and e["old"] else contents(f)
        return {**{k: e[k] for k in ("version", "manuf", "type", "names", "models", "minhw", "maxhw", "mincur", "maxcur", "spec", "old", "odd")},
                "url": urlof(p, n, e), "size": len(b) + e["dsize"], "sum": cid(contents(f)) if not e["badsum"] else cid(b"something else")}

    def urlof(p, n, e):
        kind = provs[p]["kind"]
        if kind in ("zigpylocal", "z2mlocal") and e["local"]:
            return f"/virtual/{p}/{n}"
        if kind == "folder":
            return f"/virtual/{p}/{n}"
        if kind == "ledvance":
            return f"https://api.update.ledvance.com/v1/zigbee/firmwares/download?Company={e['manuf']}&Product={e['type']}&Version={p[1:]}.{n}.0.0"
        return f"https://host/{p}/{n}" + (f"_v{e['version']}_" if kind == "ikea" and not (e["odd"] and not e["old"]) else "")

    def index(p, entries):
        kind = provs[p]["kind"]
        out = []
        for n, e in entries:
            x = entry(p, n, e)
            f = contents(files[e["file"]]) if not e["badsum"] else b"something else"

            def h(a):
                return hashlib.new(ALGS[a], f).hexdigest()

            local = kind in ("zigpylocal", "z2mlocal") and e["local"]
            if kind in ("zigpy", "zigpylocal"):
                j = {"file_version": x["version"], "file_size": x["size"], "image_type": x["type"], "manufacturer_id": x["manuf"], "checksum": "sha3-256:" + h("sha3-256"),
                     "binary_url": "https://host/none" if local else x["url"]}
                if local:
                    j["path"] = str(n)
                for k, name in (("minhw", "min_hardware_version"), ("maxhw", "max_hardware_version"), ("mincur", "min_current_file_version"),
                                ("maxcur", "max_current_file_version"), ("spec", "specificity")):
                    if x[k] != -1:
                        j[name] = x[k]
                if x["names"] or n % 2:
                    j["manufacturer_names"] = x["names"]
                if x["models"] or n % 2:
                    j["model_names"] = x["models"]
            elif kind in ("z2m", "z2mlocal"):
                j = {"fileVersion": x["version"], "fileSize": x["size"], "manufacturerCode": x["manuf"], "imageType": x["type"], "sha512": h("sha512"),
                     "url": "https://host/none" if local else x["url"]}
                if local:
                    j["path"] = str(n)
                if x["mincur"] != -1:
                    j["minFileVersion"] = x["mincur"]
                if x["maxcur"] != -1:
                    j["maxFileVersion"] = x["maxcur"]
                if x["names"]:
                    j["manufacturerName"] = x["names"]
                if x["models"]:
                    j["modelId"] = x["models"][0]
            elif kind == "ikea" and not e["old"]:
                j = {"fw_image_type": x["type"], "fw_type": 2, "fw_sha3_256": h("sha3-256"), "fw_binary_url": x["url"]}
            elif kind == "ikea" and e["odd"]:
                j = {"fw_binary_url": x["url"], "fw_build_version": 1, "fw_file_version_LSB": 1, "fw_file_version_MSB": 1, "fw_filesize": 5, "fw_hotfix_version": 1,
                     "fw_image_type": x["type"], "fw_major_version": 1, "fw_manufacturer_id": x["manuf"], "fw_minor_version": 1, "fw_type": 1}
            elif kind == "ikea":
                j = {"fw_binary_url": x["url"].replace("https:", "http:"), "fw_file_version_LSB": x["version"] % 65536, "fw_file_version_MSB": x["version"] // 65536,
                     "fw_filesize": x["size"], "fw_image_type": x["type"], "fw_manufacturer_id": x["manuf"], "fw_type": 2}
            elif kind == "ledvance":
                j = {"blob": None, "identity": {"company": x["manuf"], "product": x["type"], "version": {"major": int(p[1:]), "minor": n, "build": 0, "revision": 0}},
                     "releaseNotes": "-", "shA256": h("sha256"), "name": "x", "productName": x["models"][0], "fullName": f"a/{x['version']:08X}/b", "extension": ".ota",
                     "released": "2020-01-01T00:00:00", "salesRegion": None, "length": x["size"]}
            elif kind == "salus":
                j = {"model": x["models"][0], "version": "" if e["odd"] else f"{x['version']:08X}", "url": x["url"].replace("https:", "http:")}
            elif kind == "sonoff":
                j = {"fw_binary_url": x["url"], "fw_file_version": x["version"], "fw_filesize": x["size"], "fw_image_type": x["type"], "fw_manufacturer_id": x["manuf"],
                     "model_id": x["models"][0]}
            elif kind == "inovelli":
                j = {"version": f"{x['version']:08X}" if x["version"] <= 11 else str(x["version"]), "channel": "beta", "firmware": x["url"], "manufacturer_id": x["manuf"],
                     "image_type": x["type"], "model": x["models"][0]}
            elif kind == "thirdreality":
                j = {"modelId": x["models"][0], "url": x["url"], "version": "1.2.3", "imageType": x["type"], "manufacturerId": x["manuf"], "fileVersion": x["version"]}
            out.append(j)
        if kind in ("zigpy", "zigpylocal", "ledvance"):
            return {"firmwares": out}
        if kind in ("salus", "thirdreality"):
            return {"versions": out}
        if kind == "inovelli":
            d = {}
            for j in out:
                d.setdefault(j.pop("model"), []).append(j)
            return d
        return out

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        clock.install(lambda: loop.time() - t0)
        saved = (zp.datetime, zp.aiohttp)
        import datetime
        zp.datetime = types.SimpleNamespace(datetime=clock.Fake, timedelta=datetime.timedelta, timezone=datetime.timezone, UTC=datetime.timezone.utc)

        def ev(e):
            if not over:
                events.append({**e, "t": round((loop.time() - t0) * 1000)})

        loads = {p: list(provs[p]["loads"]) for p in provs}
        indexurls = {}

        def next_load(p):
            ev({"ev": "load", "p": p})
            return loads[p].pop(0) if len(loads[p]) > 1 else loads[p][0]

        def loaded(p, plan):
            ok = plan["how"] == "ok"
            ev({"ev": "loaded", "p": p, "ok": ok, "entries": [entry(p, n, e) for n, e in plan["entries"]] if ok else []})

        def raw_index(p, plan):
            """the index as the provider sends it"""
            j = index(p, plan["entries"])
            if plan["how"] == "schema":
                # the last entry misses something
                x = next((v for v in (list(j.values())[0] if isinstance(j, dict) and j else j) or []), None)
                j = {"firmwares": 3, "versions": 3, "MODEL": 3} if x is None or not isinstance(x, dict) else j
                if isinstance(x, dict):
                    k = next(k for k in x if k in ("checksum", "sha512", "fw_binary_url", "shA256", "url", "firmware"))
                    x[k] = 7
            return j

        class Response:
            def __init__(self, body):
                self.body = body

            async def json(self, content_type="application/json"):
                return json.loads(self.body)

            async def read(self):
                return self.body

            async def text(self):
                return self.body.decode()

        class Get:
            def __init__(self, url):
                self.url = str(url)

            async def __aenter__(self):
                if self.url in indexurls:
                    p = indexurls[self.url]
                    plan = next_load(p)
                    await asyncio.sleep(plan["delay"] / 1000)
                    loaded(p, plan)
                    if plan["how"] == "http":
                        raise aiohttp.ClientError("planned")
                    if plan["how"] == "json":
                        return Response(b"{nonsense")
                    return Response(json.dumps(raw_index(p, plan)).encode())
                p = next((x for x in provs if self.url.startswith(f"https://host/{x}/") or provs[x]["kind"] == "ledvance" and f"Version={x[1:]}." in self.url), None)
                ev({"ev": "fetch", "url": self.url})
                delay, b, d = delivery(provs[p]["kind"], self.url)
                await asyncio.sleep(delay / 1000)
                ev({"ev": "fetched", "url": self.url, "d": d})
                if b is None:
                    raise aiohttp.ClientError("planned")
                return Response(b)

            async def __aexit__(self, *a):
                pass

            def __await__(self):
                return self.__aenter__().__await__()

        class Session:
            def __init__(self, *a, **kw):
                pass

            async def __aenter__(self):
                return self

            async def __aexit__(self, *a):
                pass

            async def close(self):
                pass

            def get(self, url, **kw):
                return Get(url)

        zp.aiohttp = types.SimpleNamespace(ClientSession=Session, ClientError=aiohttp.ClientError, ClientTimeout=aiohttp.ClientTimeout)
        current = {}      # folder provider: the scan under way

        class P(pathlib.PosixPath):
            def _where(self):
                _, _, p, n = self.parts[:4]
                return p, n

            def read_text(self, *a, **kw):
                p, n = self._where()
                plan = next_load(p)
                return later(plan["delay"], lambda: text_of(p, plan))

            def rglob(self, *a, **kw):
                p = self.parts[2]
                plan = next_load(p)
                if plan["how"] != "ok":
                    return later(plan["delay"], lambda: (loaded(p, plan), fail(PermissionError("planned"))))
                if not plan["entries"]:
                    return later(plan["delay"], lambda: (loaded(p, plan), iter(()))[1])
                current[p] = (plan, [str(n) for n, _ in plan["entries"]])

                def found():
                    res = [self / str(n) for n, _ in plan["entries"]]
                    for x in res:
                        x.scan = True
                    return iter(res)
                return later(plan["delay"], found)

            def is_file(self, *a, **kw):
                return True

            def exists(self, *a, **kw):
                return True

            def is_dir(self, *a, **kw):
                return False

            def read_bytes(self):
                p, n = self._where()
                if getattr(self, "scan", False):
                    self.scan = False
                    plan, left = current[p]
                    left.remove(n)
                    e = next(e for k, e in plan["entries"] if str(k) == n)
                    if not left:
                        ok = [(k, x) for k, x in plan["entries"] if files[x["file"]]["box"] != "tar" and (not x["odd"] or files[x["file"]]["box"] == "signed")]
                        # what the files say about themselves
                        ev({"ev": "loaded", "p": p, "ok": True, "entries": [self_entry(p, k, x) for k, x in ok]})
                    b = contents(files[e["file"]])
                    return b[:-1] if e["odd"] and files[e["file"]]["box"] == "none" else b
                ev({"ev": "fetch", "url": str(self)})
                delay, b, d = delivery(provs[p]["kind"], str(self))

                def done():
                    ev({"ev": "fetched", "url": str(self), "d": d})
                    if b is None:
                        raise FileNotFoundError("planned")
                    return b
                return later(delay, done)

        def self_entry(p, n, e):
            f = files[e["file"]]
            return {"version": f["version"], "manuf": f["manuf"], "type": f["type"], "names": [], "models": [], "minhw": f["hw"][0] if f["hw"] else -1,
                    "maxhw": f["hw"][1] if f["hw"] else -1, "mincur": -1, "maxcur": -1, "spec": -1, "old": False, "odd": False, "url": urlof(p, n, e),
                    "size": len(contents(f)), "sum": cid(contents(f))}

        def fail(e):
            raise e

        def text_of(p, plan):
            loaded(p, plan)
            if plan["how"] == "http":
                raise FileNotFoundError("planned")
            return "{nonsense" if plan["how"] == "json" else json.dumps(raw_index(p, plan))

        class Later:
            def __init__(self, delay, fn):
                self.delay, self.fn = delay, fn

        later = Later

        def run_in_executor(executor, fn, *args):
            fut = loop.create_future()

            def finish(x):
                if not fut.done():
                    try:
                        fut.set_result(x.fn())
                    except StopIteration as e:
                        fut.set_exception(RuntimeError(str(e)))
                    except Exception as e:
                        fut.set_exception(e)

            try:
                r = fn(*args)
            except Exception as e:
                loop.call_soon(lambda e=e: fut.done() or fut.set_exception(e))
                return fut
            if isinstance(r, Later):
                loop.call_later(r.delay / 1000, finish, r)
            else:
                loop.call_soon(lambda: fut.done() or fut.set_result(r))
            return fut

        loop.run_in_executor = run_in_executor
        try:
            app = stub.make_app()
            ota = zigpy.ota.OTA(config=app._config["ota"], application=app)
            ota._providers.clear()
            kinds = {"zigpy": lambda p, m: zp.RemoteZigpyProvider(url=f"https://index/{p}", manufacturer_ids=m),
                     "zigpylocal": lambda p, m: zp.LocalZigpyProvider(index_file=P(f"/virtual/{p}/index"), manufacturer_ids=m),
                     "z2m": lambda p, m: zp.RemoteZ2MProvider(url=f"https://index/{p}", manufacturer_ids=m),
                     "z2mlocal": lambda p, m: zp.LocalZ2MProvider(index_file=P(f"/virtual/{p}/index"), manufacturer_ids=m),
                     "folder": lambda p, m: zp.AdvancedFileProvider(path=P(f"/virtual/{p}"), manufacturer_ids=m)}
            fixed = {"ikea": (zp.Tradfri, "https://fw.ota.homesmart.ikea.com/DIRIGERA/version_info.json"),
                     "ledvance": (zp.Ledvance, "https://api.update.ledvance.com/v1/zigbee/firmwares"),
                     "salus": (zp.Salus, "https://eu.salusconnect.io/demo/default/status/firmware"),
                     "sonoff": (zp.Sonoff, "https://zigbee-ota.sonoff.tech/releases/upgrade.json"),
                     "inovelli": (zp.Inovelli, "https://files.inovelli.com/firmware/firmware-zha-v2.json"),
                     "thirdreality": (zp.ThirdReality, "https://tr-zha.s3.amazonaws.com/firmware.json")}
            first = []
            for p, x in provs.items():
                m = x["manufs"]
                if x["kind"] in fixed:
                    cls, url = fixed[x["kind"]]
                    prov = cls(manufacturer_ids=m)
                    indexurls[url] = p
                else:
                    prov = kinds[x["kind"]](p, m)
                    indexurls[f"https://index/{p}"] = p
                first.append({"p": p, "kind": x["kind"], "manufs": m if m is not None else DEFAULT_MANUFS.get(x["kind"], [])})
                ota.register_provider(prov)
            events.append({"ev": "init", "provs": first})
            devs = []
            for n, d in enumerate(script["devs"], 1):
                dev = stub.add_device(app, n, 0x1000 + n)
                dev.node_desc = stub.node_desc(manuf=d["devid"])
                dev.manufacturer, dev.model = d["name"], d["model"]
                devs.append(dev)
            tasks = {}

            def opt(v):
                return -1 if v is None else int(v)

            def out(img):
                m = img.metadata
                return {"version": int(m.file_version), "manuf": opt(m.manufacturer_id), "type": opt(m.image_type), "size": opt(m.file_size), "alg": "",
                        "sum": -1 if m.checksum is None else sums.get(m.checksum, -2), "names": list(m.manufacturer_names), "models": list(m.model_names),
                        "minhw": opt(m.min_hardware_version), "maxhw": opt(m.max_hardware_version), "mincur": opt(m.min_current_file_version),
                        "maxcur": opt(m.max_current_file_version), "spec": opt(m.specificity), "url": str(m.path) if hasattr(m, "path") else m.url}

            async def ask(i, o):
                q = o["q"]
                d = script["devs"][o["dev"]]
                cmd = Ota.ServerCommandDefs.query_next_image.schema(
                    field_control=0 if q["hw"] == -1 else 1, manufacturer_code=q["manuf"], image_type=q["type"], current_file_version=q["cur"],
                    **({} if q["hw"] == -1 else {"hardware_version": q["hw"]}))
                ev({"ev": "query", "id": i, "q": {**q, "name": d["name"], "model": d["model"]}, "devid": d["devid"]})
                try:
                    r = await ota.get_ota_images(devs[o["dev"]], cmd)
                except asyncio.CancelledError:
                    raise
                except Exception as e:
                    ev({"ev": "error", "what": repr(e)[:100]})
                    return
                ev({"ev": "offered", "id": i, "ups": [out(x) for x in r.upgrades], "inners": [cid(x.firmware.serialize()) for x in r.upgrades],
                    "downs": [out(x) for x in r.downgrades]})

            n = 0
            for o in script["ops"]:
                if o["op"] == "ask":
                    n += 1
                    tasks[n] = asyncio.ensure_future(ask(n, o))
                    await vloop.settle()
                elif o["op"] == "cancel":
                    live = [i for i in tasks if not tasks[i].done()]
                    if live:
                        i = live[o["k"] % len(live)]
                        ev({"ev": "cancel", "id": i})
                        tasks[i].cancel()
                        await vloop.settle()
                else:
                    await vloop.advance(o["ms"] / 1000)
            await vloop.advance(400)
            ev({"ev": "quiet"})
            over.append(1)
        finally:
            zp.datetime, zp.aiohttp = saved

    vloop.run(main)


KINDS = ["zigpy", "zigpy", "zigpylocal", "z2m", "z2mlocal", "folder", "ikea", "ledvance", "salus", "sonoff", "inovelli", "thirdreality"]


def random_script(rng):
    manuf, typ = 4476, 9
    files = [{"manuf": rng.choice([manuf, manuf, manuf, 1]), "type": rng.choice([typ, typ, typ, 8]), "version": rng.choice([2, 3, 4, 5]), "fill": rng.choice([17, 17, 33]),
              "hw": rng.choice([None, None, None, [2, 5], [3, 3]]), "box": "none"} for _ in range(rng.randint(2, 5))]
    files += [{**rng.choice(files), "box": b} for b in ("signed", "tar")]
    plain_, signed, tar = list(range(len(files) - 2)), len(files) - 2, len(files) - 1
    provs, delivery = [], {}
    kinds = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        k = rng.choice(KINDS)
        if k not in kinds or k in ("zigpy", "z2m", "zigpylocal", "z2mlocal", "folder"):
            kinds.append(k)

    def slow():
        return rng.choice([1, 1, 1, 40, 300, 5000, 19900, 20010, 30000]) + rng.randrange(60)

    for pn, kind in enumerate(kinds, 1):
        p = f"p{pn}"
        manufs = None if kind in ("zigpy", "z2m") and rng.random() < 0.5 else rng.choice([[], [], [manuf], [manuf, 1], [1]])
        if kind == "ikea" and rng.random() < 0.3:
            manufs = None

        def an_entry():
            old = rng.random() < 0.5
            f = signed if kind == "ikea" and old and rng.random() < 0.9 else tar if kind == "salus" and rng.random() < 0.9 else rng.choice(plain_) if rng.random() < 0.95 else signed
            ff = files[f]
            same = rng.random() < 0.8
            e = {"file": f, "version": ff["version"] if same else rng.choice([1, 3, 4, 12, 70000]), "manuf": ff["manuf"] if same or kind == "ikea" else rng.choice([manuf, 1]),
                 "type": ff["type"] if rng.random() < 0.95 else rng.choice([8704, 8710, typ]),
                 "names": rng.choice([[], [], [], ["IKEA"], ["x", "IKEA"], ["ikea"]]), "models": rng.choice([[], [], ["bulb"], ["bulb", "x"], ["BULB"]]),
                 "minhw": rng.choice([-1, -1, -1, 0, 2, 4]), "maxhw": rng.choice([-1, -1, -1, 3, 5]), "mincur": rng.choice([-1, -1, 1, 2, 3]), "maxcur": rng.choice([-1, -1, 1, 2, 3]),
                 "spec": rng.choice([-1, -1, -1, 0, 1, 100]), "old": old, "odd": rng.random() < 0.07, "local": rng.random() < 0.7,
                 "dsize": rng.choice([0] * 12 + [1, -1]), "badsum": rng.random() < 0.06}
            if rng.random() < 0.4:
                e.update(minhw=-1, maxhw=-1, mincur=-1, maxcur=-1, spec=-1, names=[], models=[])
            if kind in ("ledvance", "salus", "sonoff", "inovelli", "thirdreality"):
                e["models"] = [rng.choice(["BULB", "BULB", "LAMP"])] if kind == "inovelli" else [rng.choice(["bulb", "bulb", "lamp"])]
            if kind == "folder":
                e["odd"] = rng.random() < 0.15
            return e

        entries = [[n, an_entry()] for n in range(1, rng.choice([1, 2, 3, 4]) + 1)]
        if rng.random() < 0.3 and len(entries) > 1:
            # two entries that tell the same
            a, b = rng.sample(range(len(entries)), 2)
            entries[b][1] = {**entries[a][1], "file": rng.choice([entries[a][1]["file"], rng.choice(plain_)])}
        fast = rng.random() < 0.6
        loads = [{"delay": rng.randrange(1, 20) if fast else slow(), "how": rng.choice(["ok"] * 8 + ["http", "json", "schema"]),
                  "entries": [x for x in entries if rng.random() < 0.85]} for _ in range(rng.choice([1, 2, 3]))]
        provs.append({"p": p, "kind": kind, "manufs": manufs, "loads": loads})
        for n, e in entries:
            base = {"ledvance": f"https://api.update.ledvance.com/v1/zigbee/firmwares/download?Company={e['manuf']}&Product={e['type']}&Version={pn}.{n}.0.0"}.get(kind)
            if base is None:
                base = (f"/virtual/{p}/{n}" if kind == "folder" or kind in ("zigpylocal", "z2mlocal") and e["local"] else
                        f"https://host/{p}/{n}" + (f"_v{e['version']}_" if kind == "ikea" and not (e["odd"] and not e["old"]) else ""))
            fastf = rng.random() < 0.6
            delivery[base] = [{"delay": rng.randrange(1, 20) if fastf else slow(), "how": rng.choice(["ok"] * 10 + ["http", "cut", "flip", "badlen"]),
                               "file": e["file"] if rng.random() < 0.92 else rng.choice(plain_)} for _ in range(rng.choice([1, 1, 2, 3]))]
    devs = [{"devid": rng.choice([manuf, manuf, 1]), "name": rng.choice(["IKEA", "IKEA", "x"]), "model": rng.choice(["bulb", "bulb", "BULB", "x"])} for _ in range(2)]
    ops = []
    for _ in range(rng.randint(1, 7)):
        r = rng.random()
        if r < 0.75:
            ops.append({"op": "ask", "dev": rng.randrange(2),
                        "q": {"manuf": rng.choice([manuf, manuf, manuf, 1]), "type": rng.choice([typ, typ, typ, 8]), "cur": rng.choice([1, 1, 2, 3, 5]),
                              "hw": rng.choice([-1, 2, 3, 4, 6])}})
        elif r < 0.8:
            ops.append({"op": "cancel", "k": rng.randrange(4)})
        if rng.random() < 0.6:
            ops.append({"op": "wait", "ms": rng.choice([2, 100, 10007, 60003, 86399003, 86401007, 43200001])})
    return {"files": files, "provs": provs, "delivery": delivery, "devs": devs, "ops": ops}


def check_c23(ctx):
    ctx.model_check("MC_Select")
    if not ctx.quick:
        ctx.model_check("MC_Select", "MC_Select_deep")
    ctx.check_traces("selection", "Select_Trace", drive, [random_script(ctx.rng) for _ in range(ctx.n(3000, 40000))])
