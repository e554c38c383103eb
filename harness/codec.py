"""C28: wire encodings.  Area `Codec`."""
from __future__ import annotations

import enum
import math
import random
import struct


def types():
    import zigpy.types as t
    import zigpy.zcl.foundation as f
    import zigpy.zdo.types as z
    return t, f, z


def pad(n):
    return list(n)


def view(x):
    """the value as a flat sequence of numbers (see Codec.tla)"""
    t, f, z = types()
    if isinstance(x, bool):
        return [int(x)]
    if x is None:
        return [-9]
    if isinstance(x, f.AttributeReportingConfig):
        return [y for k in ("direction", "attrid", "timeout", "datatype", "min_interval", "max_interval") for y in view(getattr(x, k, None))] + change(x)
    if isinstance(x, f.ReadAttributeRecord):
        v = x.value
        if v is None:
            tail = [-9]
        elif isinstance(v, f.TypedCollection):
            tail = [int(f.DataType.from_python_type(type(v)).type_id)] + view(v)
        else:
            tail = view(v)
        return view(x.attrid) + view(x.status) + tail
    if isinstance(x, f.AttributeReportingConfigWithStatus):
        return view(x.status) + view(x.config)
    if isinstance(x, f.TypedCollection):
        return [int(x.type), len(x.value)] + [y for v in x.value for y in view(v)]
    if isinstance(x, f.TypeValue):
        return [int(x.type)] + view(x.value)
    if isinstance(x, t.Struct):
        return [y for fl in x.fields for y in view(getattr(x, fl.name) if wanted(x, fl) else None)]
    if isinstance(x, t.FixedIntType):
        n = -(-x._bits // 8)
        v = int(x)
        return ([1 if v < 0 else 0] if x._signed else []) + list((v % 2 ** (8 * n)).to_bytes(n, "little"))
    if isinstance(x, t.BaseFloat):
        return [-2] if math.isnan(x) else list(struct.pack("<d", float(x)))
    if isinstance(x, bytes):
        return [len(x)] + list(x)
    if isinstance(x, t.CharacterString):
        b = str(x).encode()
        return [-1] if x.invalid else [len(b)] + list(b)
    if isinstance(x, t.NoData):
        return []
    if isinstance(x, (t.FixedList,)):
        return [y for v in x for y in view(v)]
    if isinstance(x, list):
        return [len(x)] + [y for v in x for y in view(v)]
    raise TypeError(f"no view of {type(x)}")


def change(x):
    # what was announced with an id of a type without one has no reportable change
    return view(getattr(x, "reportable_change", None))


def wanted(x, fl):
    try:
        return fl.requires is None or bool(fl.requires(x))
    except Exception:
        return False


def rand_int(rng, bits, signed):
    n = rng.choice([0, 1, 2 ** bits - 1, 2 ** (bits - 1), 2 ** (bits - 1) - 1, rng.getrandbits(bits), rng.getrandbits(bits)])
    return n - 2 ** bits if signed and n >= 2 ** (bits - 1) else n


def rand_value(cls, rng, depth=0):
    """a value of the class"""
    t, f, z = types()
    small = rng.choice([0, 1, 1, 2, 3]) if depth < 3 else rng.choice([0, 1])
    if getattr(cls, "optional", False) is True and rng.random() < 0.3:
        return None
    if cls is f.AttributeReportingConfig:
        x = cls()
        x.direction, x.attrid = f.ReportingDirection(rng.choice([0, 0, 1, 7])), t.uint16_t(rng.getrandbits(16))
        if x.direction == 1:
            x.timeout = t.uint16_t(rng.getrandbits(16))
        else:
            x.datatype = t.uint8_t(rng.choice([0x20, 0x21, 0x29, 0x2B, 0x39, 0x10, 0x30, 0x42, 0xE2, 0xE0, 0x77] + list(range(0x20, 0x30))))
            x.min_interval, x.max_interval = t.uint16_t(rng.getrandbits(16)), t.uint16_t(rng.getrandbits(16))
            info = f.DataType._data_type_index().get(x.datatype)
            if info is not None and info.type_class is f.Analog:
                x.reportable_change = rand_value(info.python_type, rng)
        return x
    if cls is f.AttributeReportingConfigWithStatus:
        x = f.AttributeReportingConfig()
        st = rng.choice([0, 0, 0x86])
        c = rand_value(f.AttributeReportingConfig, rng)
        if st:
            x.direction, x.attrid = c.direction, c.attrid
            c = x
        return cls(status=st, config=c)
    if cls is f.ReadAttributeRecord:
        st = rng.choice([0, 0, 0, 0x86, 0xC1])
        v = None
        if st == 0:
            tv = rand_value(f.TypeValue, rng, depth + 1)
            v = tv.value if isinstance(tv.value, f.TypedCollection) and rng.random() < 0.7 else tv
        return cls(rng.getrandbits(16), st, v)
    if cls is f.WriteAttributesResponse:
        if rng.random() < 0.3:
            return cls([f.WriteAttributesStatusRecord(status=0)])
        return cls([f.WriteAttributesStatusRecord(status=rng.choice([0x86, 0x87, 0x8D, 1]), attrid=rng.getrandbits(16)) for _ in range(rng.randint(1, 3))])
    if cls is f.ConfigureReportingResponse:
        if rng.random() < 0.3:
            return cls([f.ConfigureReportingResponseRecord(status=0)])
        return cls([f.ConfigureReportingResponseRecord(status=rng.choice([0x86, 0x8C]), direction=rng.choice([0, 1]), attrid=rng.getrandbits(16)) for _ in range(rng.randint(1, 3))])
    if issubclass(cls, f.TypedCollection):
        ids = [i for i in f.DataType._data_type_index() if depth < 2 or i not in (0x48, 0x4C, 0x50, 0x51)]
        i = rng.choice(ids)
        el = f.DataType.from_type_id(i).python_type
        return cls(type=t.uint8_t(i), value=t.LVList[el, t.uint16_t]([rand_value(el, rng, depth + 1) for _ in range(small)]))
    if cls is f.TypeValue:
        ids = [i for i in f.DataType._data_type_index() if depth < 2 or i not in (0x48, 0x4C, 0x50, 0x51)]
        i = rng.choice(ids)
        return cls(type=t.uint8_t(i), value=rand_value(f.DataType.from_type_id(i).python_type, rng, depth + 1))
    if issubclass(cls, t.Struct):
        x = cls._real_cls()()
        gone = False
        for fl in cls.fields:
            ft = fl.get_type(x)
            if fl.optional and rng.random() < 0.4:
                gone = True
            if gone and fl.optional or not wanted(x, fl):
                continue
            v = rand_value(ft, rng, depth + 1)
            if cls is z.MultiAddress and fl.name == "addrmode":
                v = t.uint8_t(rng.choice([1, 3]))
            if cls is z.NwkUpdate and fl.name == "ScanDuration":
                v = t.uint8_t(rng.choice([0, 3, 5, 6, 0xFD, 0xFE, 0xFF]))
            setattr(x, fl.name, v)
        return x
    if issubclass(cls, t.FixedIntType):
        return cls(rand_int(rng, cls._bits, cls._signed))
    if issubclass(cls, t.BaseFloat):
        fmt = {2: "<e", 4: "<f", 8: "<d"}[cls._size]
        n = rng.choice([rng.getrandbits(8 * cls._size), rng.getrandbits(8 * cls._size), rng.getrandbits(cls._fraction_bits + 1) | rng.choice([0, 1]) << (8 * cls._size - 1), 0])
        v = struct.unpack(fmt, n.to_bytes(cls._size, "little"))[0]
        return cls(v)
    if issubclass(cls, t.LVBytesSize2):
        return cls(rng.randbytes(2))
    if issubclass(cls, bytes):
        return cls(rng.randbytes(rng.choice([0, 1, 5, 40, getattr(cls, "_max_len", 254)]) if rng.random() < 0.3 else small))
    if issubclass(cls, t.CharacterString):
        if rng.random() < 0.1:
            return cls("", invalid=True)
        return cls("".join(rng.choice("ab Z9é漢🙂\x7f") for _ in range(rng.choice([30, 60, 254]) if rng.random() < 0.1 else rng.choice([0, 1, 4])))[:60])
    if issubclass(cls, t.FixedList):
        return cls([rand_value(cls._item_type, rng, depth + 1) for _ in range(cls._length)])
    if issubclass(cls, list):
        return cls([rand_value(cls._item_type, rng, depth + 1) for _ in range(small)])
    if issubclass(cls, t.NoData):
        return cls()
    raise TypeError(f"no value of {cls}")


class Message:
    """a device profile message: fields one after the other"""

    def __init__(self, schema):
        self.schema = schema

    def deserialize(self, data):
        t, f, z = types()
        return t.deserialize(data, self.schema)

    def view(self, x):
        return [y for v in x for y in view(v)]

    def serialize(self, x):
        t, f, z = types()
        vals = list(x)
        n = next((k for k, v in enumerate(vals) if v is None), len(vals))
        return t.serialize(vals[:n], self.schema[:n])

    def rand(self, rng):
        out, gone = [], False
        for c in self.schema:
            v = None if gone else rand_value(c, rng, 1)
            gone = gone or v is None
            if gone and issubclass(c, list) and not hasattr(c, "_length"):
                v = c()
            out.append(v)
        return out


class Plain:
    def __init__(self, cls):
        self.cls = cls

    def deserialize(self, data):
        return self.cls.deserialize(data)

    view = staticmethod(view)

    def serialize(self, x):
        return x.serialize()

    def rand(self, rng):
        return rand_value(self.cls, rng)


def leaf(rng, bits_left):
    """a field type: (description, class)"""
    t, f, z = types()
    n = rng.randint(1, 8)
    sub = rng.randint(0, 2)
    pick = rng.choice(["u", "u", "u", "s", "be", "enum", "map", "oct", "str", "lv", "fix", "float", "sbe", "rec"] if bits_left else ["u", "s", "be", "enum", "map", "float"])

    def i(n, sg=False, be=False):
        return {"k": "int", "n": n, "sg": sg, "be": be}

    if pick == "u":
        return i(n), getattr(t, f"uint{8 * n}_t")
    if pick == "s":
        return i(n, True), getattr(t, f"int{8 * n}s")
    if pick in ("be", "sbe"):
        n = max(n, 2)
        return i(n, pick == "sbe", True), getattr(t, f"int{8 * n}s_be" if pick == "sbe" else f"uint{8 * n}_t_be")
    if pick == "enum":
        n = rng.choice([1, 2, 4])
        be = n > 1 and rng.random() < 0.3
        base = getattr(t, f"enum{8 * n}" + ("_be" if be else ""))
        return i(n, False, be), rng.choice([base, type("E", (base,), _members({"A": 0, "B": 1, "C": 2 ** (8 * n) - 1}, base))])
    if pick == "map":
        be = n > 1 and rng.random() < 0.3
        base = getattr(t, f"bitmap{8 * n}" + ("_be" if be else ""))
        return i(n, False, be), rng.choice([base, type("M", (base,), _members({"A": 1, "B": 2 ** (8 * n - 1)}, base))])
    if pick == "float":
        k, c = rng.choice([((5, 10), t.Half), ((8, 23), t.Single), ((11, 52), t.Double)])
        return {"k": "float", "e": k[0], "f": k[1]}, c
    if pick == "oct":
        return rng.choice([({"k": "oct", "p": 1}, t.LVBytes), ({"k": "oct", "p": 2}, t.LongOctetString), ({"k": "oct", "p": 1}, t.LimitedLVBytes(250))])
    if pick == "str":
        return rng.choice([({"k": "str", "p": 1}, t.CharacterString), ({"k": "str", "p": 2}, t.LongCharacterString), ({"k": "str", "p": 1}, t.LimitedCharString(250))])
    if pick == "lv":
        d, c = leaf(rng, sub)
        p = rng.choice([1, 1, 2])
        return {"k": "lv", "t": d, "p": p}, t.LVList[c, {1: t.uint8_t, 2: t.uint16_t}[p]]
    if pick == "fix":
        d, c = leaf(rng, sub)
        return {"k": "fix", "t": d, "n": 1 + n % 4}, t.FixedList[c, 1 + n % 4]
    return record(rng, True)


def _members(m, base):
    ns = type(base).__prepare__("E", (base,))
    for k, v in m.items():
        ns[k] = v
    return ns


def record(rng, nested=False):
    """a random record type"""
    t, f, z = types()
    fields, ann, ns = [], {}, {}
    firsts = []           # indices of fields of one byte that conditions may use
    n = rng.randint(1, 4)
    tail = False
    for _ in range(n):
        if rng.random() < 0.3 and not tail:
            total = rng.choice([8, 8, 8, 16])
            left = total
            while left:
                w = rng.randint(1, min(left, 8))
                if total == 8 and w == 8:
                    continue
                name = f"f{len(fields)}"
                ann[name] = getattr(t, f"uint{w}_t") if w == 8 or rng.random() < 0.6 or w > 7 else getattr(t, f"enum{w}") if rng.random() < 0.5 or w == 1 else getattr(t, f"bitmap{w}")
                if w == 8:
                    fields.append({"t": {"k": "int", "n": 1, "sg": False, "be": False} if left != total else {"k": "bits", "n": 8}, "opt": False, "req": []})
                    if left == total:
                        # would not be misaligned
                        del ann[name]
                        fields.pop()
                        continue
                else:
                    fields.append({"t": {"k": "bits", "n": w}, "opt": False, "req": []})
                left -= w
            firsts += range(len(fields) - 1, len(fields))
            continue
        d, c = leaf(rng, 1)
        name = f"f{len(fields)}"
        ann[name] = c
        fl = {"t": d, "opt": False, "req": []}
        kw = {}
        if firsts and not tail and rng.random() < 0.3:
            j = rng.choice(firsts)
            allowed = sorted({rng.randrange(256) for _ in range(3)} | set(rng.sample(range(4), 2)))
            fl["req"] = [{"j": j + 1, "in": allowed, "neg": False}]
            kw["requires"] = (lambda nm, al: lambda s: getattr(s, nm) in al)(f"f{j}", set(allowed))
        elif tail or not nested and rng.random() < 0.15:
            tail = fl["opt"] = kw["optional"] = True
        if kw:
            ns[name] = t.StructField(**kw)
        if d["k"] == "int" and d["n"] == 1 and not d["sg"] and not fl["req"] and not fl["opt"]:
            firsts.append(len(fields))
        fields.append(fl)
    cls = type("Random", (t.Struct,), {**ns, "__annotations__": ann, "__module__": __name__})
    return {"k": "rec", "f": fields}, cls


NONE = {"k": "none"}


def drive(script, events):
    t, f, z = types()
    rng = random.Random(script["seed"])
    zcl = {int(i): Plain(info.python_type) for i, info in f.DataType._data_type_index().items()}
    cmd = {int(i): Plain(d.schema) for i, d in f.GENERAL_COMMANDS.items()}
    zdo = {int(i): Message(types_) for i, (_, types_) in z.CLUSTERS.items()}

    def attempt(fn):
        try:
            return True, fn()
        except ValueError:
            return False, None

    def decoded(kind, i, d, what, b):
        ok, r = attempt(lambda: what.deserialize(bytes(b)))
        e = {"ev": "decoded", "kind": kind, "id": i, "d": d, "b": list(b), "ok": ok, "v": [], "rest": 0, "again": []}
        if ok:
            x, rest = r
            assert bytes(b).endswith(bytes(rest))
            e["v"], e["rest"] = what.view(x), len(rest)
            # a value without another encoding has this one
            try:
                e["again"] = list(what.serialize(x))
            except Exception as err:
                e["again"], e["error"] = [-1], repr(err)[:80]
        events.append(e)

    def number(cls, n):
        ok, x = attempt(lambda: cls(n))
        mag = abs(n)
        if ok and int(x) != n:
            ok = not ok
        events.append({"ev": "number", "bits": cls._bits, "sg": cls._signed, "neg": n < 0, "mag": list(mag.to_bytes(-(-max(mag.bit_length(), 1) // 8), "little")), "ok": ok})

    if script.get("types"):
        events.append({"ev": "types", "zcl": sorted(zcl), "zdo": sorted(zdo), "cmd": sorted(cmd)})
    for _ in range(script["n"]):
        r = rng.random()
        if r < 0.06:
            bits = rng.randint(1, 64) if rng.random() < 0.5 else rng.choice([8, 16, 24, 32, 64])
            names = [f"uint{bits}_t", f"int{bits}s", f"enum{bits}", f"bitmap{bits}", f"uint{bits}_t_be", f"int{bits}s_be"]
            classes = [getattr(t, nm) for nm in names if hasattr(t, nm)]
            if classes:
                edge = rng.choice([0, 2 ** bits, 2 ** (bits - 1)])
                number(rng.choice(classes), rng.choice([1, -1]) * rng.choice([edge, edge - 1, edge + 1, rng.getrandbits(bits + 2), 2 ** bits - 1]))
            continue
        if r < 0.09:
            k = rng.randrange(6)
            if k == 0:
                p, cls = rng.choice([(1, t.LVBytes), (1, t.CharacterString), (2, t.LongOctetString), (2, t.LongCharacterString)])
                n = rng.choice([253, 254, 255, 256, 300]) if p == 1 else rng.choice([255, 256, 300, 65534, 65535, 65536])
                ok, b = attempt(lambda: cls(b"x" * n if issubclass(cls, bytes) else "x" * n).serialize())
                if ok and (int.from_bytes(b[:p], "little") != n or b[p:] != b"x" * n):
                    ok = not ok
                events.append({"ev": "length", "p": p, "n": n, "special": True, "ok": ok})
            elif k == 1:
                n = rng.choice([254, 255, 256, 257])
                ok, b = attempt(lambda: t.LVList[t.uint8_t]([1] * n).serialize())
                events.append({"ev": "length", "p": 1, "n": n, "special": False, "ok": ok})
            elif k == 2:
                n, m = rng.randrange(4), rng.randrange(4)
                ok, b = attempt(lambda: t.FixedList[t.uint8_t, n]([1] * m).serialize())
                if n != m:
                    events.append({"ev": "refused", "ok": ok})
            elif k == 3:
                # a field is missing
                d, cls = record(rng)
                x = rand_value(cls, rng)
                must = [fl for fl in cls.fields if not fl.optional and wanted(x, fl)]
                x2 = cls(**{fl.name: getattr(x, fl.name) for fl in cls.fields if fl is not must[-1]}) if must else None
                if must and not any(fl.requires for fl in cls.fields):
                    events.append({"ev": "refused", "ok": attempt(x2.serialize)[0]})
            elif k == 4:
                m = rng.choice([8, 20, 250])
                ok, _b = attempt(lambda: rng.choice([t.LimitedCharString(m)("x" * (m + 1)), t.LimitedLVBytes(m)(b"x" * (m + 1))]).serialize())
                events.append({"ev": "refused", "ok": ok})
            else:
                cls, big = rng.choice([(t.Half, 65520.0), (t.Half, 1e10), (t.Single, 3.5e38), (t.Single, 1e300), (t.Half, -70000.0)])
                events.append({"ev": "refused", "ok": attempt(lambda: cls(big).serialize())[0]})
            continue
        d, i = NONE, 0
        if r < 0.3:
            kind, i = "zcl", rng.choice(sorted(zcl))
            what = zcl[i]
        elif r < 0.5:
            kind, i = "cmd", rng.choice(sorted(cmd))
            what = cmd[i]
        elif r < 0.75:
            kind, i = "zdo", rng.choice(sorted(zdo))
            what = zdo[i]
        elif r < 0.8:
            kind, what = "header", Plain(f.ZCLHeader)
        elif r < 0.83:
            kind, what = "control", Plain(f.FrameControl)
        elif r < 0.88:
            kind, what = "typed", Plain(f.TypeValue)
        else:
            kind = "is"
            d, cls = record(rng)
            what = Plain(cls)
        b = b""
        if kind not in ("header", "control"):
            x = what.rand(rng)
            try:
                b = what.serialize(x)
            except Exception as e:
                events.append({"ev": "error", "what": repr(e)[:100], "kind": kind, "id": i, "value": repr(x)[:300]})
                return
            events.append({"ev": "encoded", "kind": kind, "id": i, "d": d, "v": what.view(x), "b": list(b)})
        b = bytes(b)
        for _ in range(rng.randint(1, 3)):
            m = rng.random()
            c = b
            if m < 0.2 and b:
                c = b[:rng.randrange(len(b))]
            elif m < 0.4:
                c = b + rng.randbytes(rng.randint(1, 4))
            elif m < 0.6 and b:
                k = rng.randrange(len(b))
                c = b[:k] + bytes([rng.choice([0, 1, 255, rng.randrange(256), b[k] ^ (1 << rng.randrange(8))])]) + b[k + 1:]
            elif m < 0.75 or kind in ("header", "control"):
                c = bytes(rng.choice([0, 0, 1, 2, 3, 0x20, 0x41, 0x42, 0x48, 0xFF, rng.randrange(256), rng.randrange(256)]) for _ in range(rng.randint(0, 14)))
            decoded(kind, i, d, what, c)


def random_script(rng):
    return {"seed": rng.getrandbits(40), "n": 12}


def check_c28(ctx):
    ctx.model_check("MC_Codec")
    ctx.model_check("MC_Codec", "MC_Codec_Distinct")
    ctx.check_traces("encodings", "Codec_Trace", drive, [{"seed": 1, "n": 1, "types": True}] + [random_script(ctx.rng) for _ in range(ctx.n(5000, 120000))])
