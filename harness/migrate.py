"""C13: databases of every schema version, opened by the current code.  Area `Migrate`."""
from __future__ import annotations

import asyncio
import datetime
import hashlib
import json
import os
import pathlib
import shutil
import sqlite3
import tempfile

from . import clock, store, stub, vloop

SCHEMAS = pathlib.Path(__file__).parent / "schemas"     # the published schemas, whatever the code under test ships
BASE = clock.BASE.timestamp()
NEWEST = 13


def enc(v):
    return bytes.fromhex(v["b"]) if isinstance(v, dict) else v


def create(con, version):
    con.executescript((SCHEMAS / f"schema_v{version}.sql").read_text())


def fill(con, version, rows, only=None):
    """insert the concrete rows into the tables of a schema version"""
    import zigpy.zdo.types as zt
    suf = f"_v{version}" if version >= 5 else ""
    con.execute("PRAGMA foreign_keys = OFF")

    def put(table, *vals):
        con.execute(f"INSERT INTO {table}{suf} VALUES ({','.join('?' * len(vals))})", vals)

    for r in rows:
        if only and r["tab"] not in only:
            continue
        ieee = str(stub.ieee(r["d"])) if r.get("d") else None
        k = r["tab"]
        if k == "dev":
            seen = [] if version < 8 else [BASE * 1000 + r["s"]] if version == 8 and r["s"] else [BASE + r["s"] / 1000] if r["s"] else [0]
            put("devices", ieee, r["nwk"], r["status"], *seen)
        elif k == "nd":
            nd = stub.node_desc(r["kind"], manuf=r["manuf"])
            if version <= 3:
                con.execute("INSERT INTO node_descriptors VALUES (?,?)", (ieee, nd.serialize()))
            elif version == 4:
                con.execute(f"INSERT INTO node_descriptors_v4 VALUES ({','.join('?' * 14)})", (ieee, *map(int, nd.as_tuple())))
            else:
                put("node_descriptors", ieee, *map(int, nd.as_tuple()))
        elif k == "ep":
            none = None if version < 5 else -1      # an inactive endpoint has neither profile nor device type
            put("endpoints", ieee, r["e"], *(none if r[x] == "none" else r[x] for x in ("profile", "dt")), r["status"])
        elif k == "cl":
            side = 0 if r["side"] == "in" else 1
            if version >= 13:
                put("clusters", ieee, r["e"], side, r["cid"])
            elif version >= 5:
                put(["in_clusters", "out_clusters"][side], ieee, r["e"], r["cid"])
            else:
                put(["clusters", "output_clusters"][side], ieee, r["e"], r["cid"])
        elif k == "at":
            put("attributes" if version < 5 else "attributes_cache", ieee, r["e"], *([int(r["side"] == "out")] if version >= 13 else []), r["cid"], r["aid"],
                enc(r["value"]), *([BASE + r["s"] / 1000 if r["s"] else 0] if version >= 12 else []))
        elif k == "un":
            put("unsupported_attributes", ieee, r["e"], *([int(r["side"] == "out")] if version >= 13 else []), r["cid"], r["aid"])
        elif k == "grp":
            put("groups", r["g"], r["name"])
        elif k == "mbr":
            put("group_members", r["g"], ieee, r["e"])
        elif k == "rel":
            put("relays", ieee, bytes.fromhex(r["hex"]))
        elif k == "nei":
            for n in r["rows"]:
                nb = store.neighbor(n, n % 5 + 1)
                if version <= 3:
                    packed = int(nb.device_type) | int(nb.rx_on_when_idle) << 2 | int(nb.relationship) << 4 | int(nb.reserved1) << 7
                    con.execute("INSERT INTO neighbors VALUES (?,?,?,?,?,?,?,?)",
                                (ieee, str(nb.extended_pan_id), str(nb.ieee), int(nb.nwk), packed, int(nb.permit_joining), int(nb.depth), int(nb.lqi)))
                else:
                    vals = (ieee, str(nb.extended_pan_id), str(nb.ieee), *map(int, nb.as_tuple()[2:]))
                    con.execute(f"INSERT INTO neighbors{suf or '_v4'} VALUES ({','.join('?' * 12)})", vals)
        elif k == "rou":
            for n in r["rows"]:
                put("routes", ieee, *map(int, store.route(n).as_tuple()))
        elif k == "bak":
            put("network_backups", None, json.dumps(store.mk_backup(r["b"]).as_dict()))


def abstract(version, rows):
    """the rows as the specification knows them"""
    import zigpy.types as t
    out = []
    for r in rows:
        k = r["tab"]
        d = f"d{r['d']}" if r.get("d") else ""
        a = {"tab": k, "d": d, "e": str(r.get("e", "")), "c": "", "k": "", "v": "", "w": "", "s": 0}
        if "cid" in r:
            a["c"] = f"{r['e']}/{r['side']}/{r['cid']}"
        if "aid" in r:
            a["k"] = f"{a['c']}/{r['aid']}"
        if k == "dev":
            a.update(v=f"{r['nwk']:04x}", w=str(r["status"]), s=r["s"])
        elif k == "nd":
            a["v"] = stub.node_desc(r["kind"], manuf=r["manuf"]).serialize().hex()
        elif k == "ep":
            a["v"] = f"{r['profile']}/{r['dt']}/{r['status']}"
        elif k == "at":
            v = enc(r["value"])
            a["v"] = store.val(t.EUI64.convert(v) if r.get("eui") else v)
            a["w"] = v if isinstance(v, str) else v.split(b"\0")[0].decode() if isinstance(v, bytes) and (r["cid"], r["aid"]) in ((0, 4), (0, 5)) else str(v)
            a["s"] = r["s"]
        elif k == "grp":
            a.update(k=str(r["g"]), v=r["name"])
        elif k == "mbr":
            a.update(k=f"{r['g']}/{r['e']}", v=str(r["g"]))
        elif k == "rel":
            a["v"] = "r" + r["hex"]
        elif k == "nei":
            a["v"] = store.table([store.neighbor(n, n % 5 + 1) for n in r["rows"]])
        elif k == "rou":
            a["v"] = store.table([store.route(n) for n in r["rows"]])
        elif k == "bak":
            a["k"] = store.backup_key(store.mk_backup(r["b"]))
        out.append(a)
    return out


def dump(path):
    """(schema version, digest of everything) of a copy of the database"""
    con = sqlite3.Connection(path)
    try:
        (v,) = con.execute("PRAGMA user_version").fetchone()
        return v, hashlib.md5("\n".join(con.iterdump()).encode()).hexdigest()
    finally:
        con.close()


class Sim:
    def __init__(self, script, events, tmp):
        self.script, self.events, self.tmp = script, events, tmp
        self.path = os.path.join(tmp, "zigbee.db")
        self.nsql = 0
        self.last = None
        self.n = 0
        self.faults = list(script["faults"])
        self.images = script["images"]

    def copy(self):
        self.n += 1
        to = os.path.join(self.tmp, f"img{self.n}.db")
        for suf in ("", "-wal"):
            if os.path.exists(self.path + suf):
                shutil.copyfile(self.path + suf, to + suf)
        return to

    def digest(self):
        h = hashlib.md5()
        for suf in ("", "-wal"):
            if os.path.exists(self.path + suf):
                h.update(pathlib.Path(self.path + suf).read_bytes())
            h.update(b"|")
        return h.hexdigest()

    def state(self):
        to = self.copy()
        return dump(to)

    def hook(self, kind, sql):
        if self.images:
            d = self.digest()
            if d != self.last:
                self.last = d
                to = self.copy()
                second = to + ".look"
                for suf in ("", "-wal"):
                    if os.path.exists(to + suf):
                        shutil.copyfile(to + suf, second + suf)
                v, h = dump(second)
                self.events.append({"ev": "img", "v": v, "same": h == self.orig, "path": to})
        if kind == "close" or sql.lstrip().upper().startswith("ROLLBACK"):
            return
        self.nsql += 1
        if self.faults and self.faults[0] <= self.nsql:
            self.faults.pop(0)
            self.fault = True
            raise sqlite3.OperationalError("disk I/O error (injected)")

    async def open(self, path=None):
        import zigpy.config as conf
        return await stub.App.new(stub.config(**{conf.CONF_DATABASE: path or self.path}), start_radio=False)

    async def attempt(self, first=True):
        self.fault = False
        store.HOOK[0] = self.hook
        try:
            app = await self.open()
        except Exception as e:
            store.HOOK[0] = None
            for c in store.RAW:
                sqlite3.Connection.close(c)
            store.RAW.clear()
            v, h = self.state()
            self.events.append({"ev": "failed" if self.fault else "refused", "v": v, "same": h == self.orig, "error": f"{type(e).__name__}: {e}"[:150]})
            return False
        facts = store.facts(app)
        store.HOOK[0] = None
        await app.shutdown()
        store.RAW.clear()
        v, h = self.state()
        s = self.script
        if s["version"] > NEWEST:
            self.events.append({"ev": "left", "v": v, "same": h == self.orig})
        elif first:
            self.events.append({"ev": "opened", "v": v, "facts": facts})
        else:
            self.events.append({"ev": "again", "v": v, "same": h == self.after, "facts": facts})
        self.after = h
        return True

    async def main(self):
        s = self.script
        con = sqlite3.Connection(self.path)
        rows = s["rows"]
        for v in s["leftover"]:
            create(con, v)
        if s["leftover"]:
            fill(con, s["leftover"][0], s["old"], only=None if s["leftover"][0] >= 5 else ("dev", "ep", "cl", "at", "grp", "mbr", "rel"))
        create(con, min(s["version"], NEWEST))
        if s["version"] <= NEWEST:
            fill(con, s["version"], rows)
        else:
            if s["withold"]:
                fill(con, NEWEST, rows)
            sql = (SCHEMAS / f"schema_v{NEWEST}.sql").read_text().replace(f"_v{NEWEST}", f"_v{s['version']}").replace(
                f"user_version = {NEWEST}", f"user_version = {s['version']}")
            if not s["withold"]:
                for (name,) in con.execute("SELECT name FROM sqlite_master WHERE type='table' AND name LIKE '%\\_v13' ESCAPE '\\'").fetchall():
                    con.execute(f"DROP TABLE {name}")
            con.executescript(sql)
        if s["claims"] is not None:
            con.execute(f"PRAGMA user_version = {s['claims']}")
        con.commit()
        con.close()
        self.orig = self.state()[1]
        self.events.append({"ev": "init", "version": s["version"], "odd": s["claims"] is not None, "rows": abstract(s["version"], rows) if s["version"] <= NEWEST else [],
                            "extra": abstract(4, [r for r in s["old"] if r["tab"] == "at"]) if s["version"] == 5 and 4 in s["leftover"] else []})
        done = False
        for _ in range(len(self.faults) + 1):
            self.nsql = 0
            if await self.attempt():
                done = True
                break
        if done:
            self.images = False
            await self.attempt(first=False)
        for e in self.events:
            if e["ev"] == "img":
                p = e.pop("path")
                if s["version"] >= NEWEST or s["claims"] is not None:
                    continue
                try:
                    app = await self.open(p)
                    e["facts"], e["ok"] = store.facts(app), True
                    await app.shutdown()
                except Exception as x:
                    e["facts"], e["ok"], e["error"] = [], False, f"{type(x).__name__}: {x}"[:150]
                    for c in store.RAW:
                        sqlite3.Connection.close(c)
                store.RAW.clear()


def drive(script, events):
    store.patch()
    tmp = tempfile.mkdtemp(prefix="zp-migrate-")
    try:
        async def main():
            loop = asyncio.get_running_loop()
            t0 = loop.time() - 100
            clock.install(lambda: loop.time() - t0)
            try:
                await Sim(script, events, tmp).main()
            finally:
                store.HOOK[0] = None
                store.RAW.clear()

        vloop.run(main)
    finally:
        for e in events:
            e.pop("path", None)
        shutil.rmtree(tmp, ignore_errors=True)


VALUES = [0, 1, 65535, -5, 2**40, "", "text", "häß\u20ac", "12", 1.5, -0.25, {"b": ""}, {"b": "00ff"}]


def random_rows(rng, version, *, stale):
    rows, have_ep, have_cl, groups = [], [], [], []
    devs = list(range(1, rng.choice([0, 1, 1, 2, 3]) + 1))
    for d in devs:
        rows.append({"tab": "dev", "d": d, "nwk": rng.choice([0x1000 + d, 0xFFF0 + d, d]), "status": rng.choice([0, 1, 2, 2]),
                     "s": rng.choice([0, 1, 1000, 86400000, 1234567]) if version >= 8 else 0})
        if version >= 1 and rng.random() < 0.8:
            rows.append({"tab": "nd", "d": d, "kind": rng.choice(["router", "end"]), "manuf": rng.choice([0, 0x1234, 0xFFFF])})
        for e in rng.sample([1, 2, 11, 242], rng.randint(0, 3)):
            have_ep.append((d, e))
            rows.append({"tab": "ep", "d": d, "e": e, "profile": rng.choice([260, 0xC05E, 0xA1E0, 0]), "dt": rng.choice([0, 0x0100, 0xFFF0]), "status": rng.choice([0, 1, 3])})
            for side in ("in", "out"):
                for c in rng.sample([0, 6, 8, 0x0019, 0x0402, 0xFC00, 0xFFFF], rng.randint(0, 3)):
                    if c == 0 and (e, side) != (1, "in"):
                        continue
                    have_cl.append((d, e, side, c))
                    rows.append({"tab": "cl", "d": d, "e": e, "side": side, "cid": c})
                    if side == "in" or version >= 13:
                        for a in rng.sample([0, 3, 4, 5, 0x4001, 0xFFFF] if c != 0 else [4, 5, 7], rng.randint(0, 3)):
                            r = {"tab": "at", "d": d, "e": e, "side": side, "cid": c, "aid": a, "value": rng.choice(VALUES), "s": rng.choice([0, 5000, 98765]) if version >= 12 else 0}
                            if c == 0 and a in (4, 5):
                                r["value"] = rng.choice(["Maker", "", "Maß", {"b": "4d616b6572"}, {"b": "4d6100ff"}] if version < 5 else ["Maker", "", "Maß"])
                            rows.append(r)
                        if version >= 7:
                            for a in rng.sample([1, 2, 0xFFFD], rng.randint(0, 2)):
                                rows.append({"tab": "un", "d": d, "e": e, "side": side, "cid": c, "aid": a})
        if (version < 5 or version == NEWEST) and rng.random() < 0.3:
            rows.append({"tab": "ep", "d": d, "e": 200, "profile": "none", "dt": "none", "status": 3})
        if version >= 1 and rng.random() < 0.4:
            rows.append({"tab": "rel", "d": d, "hex": rng.choice(["00", "010110", "0201100220"])})
        if version >= 3 and rng.random() < 0.5:
            rows.append({"tab": "nei", "d": d, "rows": rng.sample(range(40), rng.randint(1, 3))})
        if version >= 11 and rng.random() < 0.5:
            rows.append({"tab": "rou", "d": d, "rows": rng.sample(range(40), rng.randint(1, 3))})
    if version >= 1:
        for g in rng.sample([1, 2, 0xFFF7], rng.randint(0, 2)):
            groups.append(g)
            rows.append({"tab": "grp", "g": g, "name": rng.choice(["", "a", "Gr\u00fcn 'x'; --"])})
            for d, e in rng.sample(have_ep, min(len(have_ep), rng.randint(0, 2))):
                rows.append({"tab": "mbr", "g": g, "d": d, "e": e})
    if version >= 10:
        for n in range(rng.randint(0, 3)):
            rows.append({"tab": "bak", "b": [n, rng.randint(0, 3), n]})
    if stale:
        # what releases before v5 could leave behind when they removed something
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(["ep", "cl", "at"] + (["mbr", "mbr", "rel"] if version >= 1 else []) + (["nei"] if version >= 3 else []))
            d, e = rng.choice(have_ep + [(7, 1), (8, 2)])
            r = {"tab": k, "d": d, "e": e}
            if k == "ep":
                r.update(d=7, profile=260, dt=0, status=1)
            elif k == "cl":
                r.update(e=9, side="in", cid=6)
            elif k == "at":
                r.update(e=9, side="in", cid=6, aid=0, value=1, s=0)
            elif k == "mbr":
                r.update(g=rng.choice(groups + [99]))
                if r["g"] != 99:
                    r["e"] = 9
            elif k == "rel":
                r = {"tab": k, "d": 9, "hex": "00"}
            elif k == "nei":
                r = {"tab": k, "d": 9, "rows": [1]}
            if r not in rows and not (k == "ep" and (7, r["e"]) in have_ep):
                rows.append(r)
                if k == "ep":
                    have_ep.append((7, r["e"]))
    return rows


def random_script(rng):
    mode = rng.choice(["plain"] * 3 + ["crash"] * 3 + ["fault"] * 3 + ["newer", "odd"])
    version = rng.randint(0, 13) if mode != "fault" else rng.randint(0, 12)
    s = {"version": version, "rows": random_rows(rng, version, stale=version < 5 and rng.random() < 0.5), "leftover": [], "old": [], "claims": None, "withold": False,
         "images": mode == "crash", "faults": []}
    if mode == "fault":
        s["faults"] = [rng.choice([rng.randint(1, 40), rng.randint(1, 800), 30 * (13 - version) + rng.randint(0, 60)]) for _ in range(rng.randint(1, 2))]
    elif mode == "newer":
        s["version"] = rng.choice([14, 15, 20])
        s["withold"] = rng.random() < 0.5
        s["rows"] = random_rows(rng, 13, stale=False)
    elif mode == "odd":
        s["version"] = rng.randint(5, 13)
        s["claims"] = rng.choice([v for v in range(0, 14) if v != s["version"]])
        s["rows"] = []
    if mode in ("plain", "crash", "fault") and version >= 5 and rng.random() < 0.6:
        # the tables of the versions this database went through are still there
        first = rng.randint(4, version - 1)
        s["leftover"] = list(range(first, version))
        s["old"] = random_rows(rng, first, stale=False)
    return s


def check_c13(ctx):
    ctx.model_check("MC_Migrate")
    ctx.check_traces("databases", "Migrate_Trace", drive, [random_script(ctx.rng) for _ in range(ctx.n(1500, 20000))])
