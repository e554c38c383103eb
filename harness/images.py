"""C29: files of firmware images.  Area `Image`."""
from __future__ import annotations

import hashlib
import struct
import zlib

SILABS = 0x2144DF1C


def write(i):
    """an OTA file, by the book, apart from what i overrides"""
    fc = i["fc"]
    opt = (bytes([i["sec"]]) if fc & 1 else b"") + (bytes(i["dest"]) if fc & 2 else b"") + (struct.pack("<HH", *i["hw"]) if fc & 4 else b"")
    body = bytes(i["data"]) if i["kind"] == "hue" else b"".join(struct.pack("<HI", tag, len(d)) + bytes(d) for tag, d in i["els"])
    n = 56 + len(opt)
    return struct.pack("<IHHHHHIH32sI", 0x0BEEF11E, i["hv"], n + i["dhl"], fc, i["manuf"], i["type"], i["version"], i["stack"],
                       bytes(i["text"]), max(0, n + len(body) + i["dsize"])) + opt + body


def wrap(w, b):
    if w == "legrand":
        return struct.pack("<I", len(b)) + b + bytes(range(17))
    if w in ("third", "thirdbad"):
        rest = bytes(4) + struct.pack("<I", len(b) + 88) + bytes(80) + b
        return bytes([hashlib.sha512(rest).digest()[0] ^ (w == "thirdbad")]) + hashlib.sha512(rest).digest()[1:] + rest
    if w == "ikea":
        return b"NGIS" + bytes(12) + struct.pack("<II", 40, len(b)) + bytes(16) + b + b"signature"
    if w == "ikea2":
        return b"NGIS" + bytes(12) + struct.pack("<II", 24, len(b) + 5) + b + b"extra" + b"s"
    if w == "trailing":
        return b + b"\x00\x01"
    return b


def firmware(rng):
    """firmware in a format of Silicon Labs"""
    good = rng.random() < 0.6
    if rng.random() < 0.5:
        d = b"\xeb\x17\xa6\x03" + struct.pack("<I", 4) + b"abcd"
        for _ in range(rng.randint(0, 2)):
            n = rng.randint(0, 9)
            d += bytes(rng.choices(range(256), k=4)) + struct.pack("<I", n) + bytes(rng.choices(range(256), k=n))
        d += b"\xfc\x04\x04\xfc" + struct.pack("<I", 4)
        d += struct.pack("<I", zlib.crc32(d) ^ (0 if rng.random() < 0.8 else 1))
        if rng.random() < 0.3:
            d += bytes(rng.randint(1, 5))
    else:
        d = b"\x00\x00" + struct.pack(">H", 140) + bytes(rng.choices(range(256), k=140))
        for _ in range(rng.randint(0, 2)):
            n = rng.randint(0, 20)
            d += b"\xfd\x03" + struct.pack(">H", n) + bytes(n)
        d += b"\xfc\x04" + struct.pack(">H", 4)
        d += struct.pack("<I", zlib.crc32(d) ^ (0 if rng.random() < 0.8 else 1))
        d += bytes([255 if rng.random() < 0.9 else 254]) * (-len(d) % 64)
    if not good:
        r = rng.random()
        if r < 0.4:
            d = d[:rng.randrange(len(d))]
        elif r < 0.8:
            i = rng.randrange(len(d))
            d = d[:i] + bytes([rng.choice([0, 255, d[i] ^ 1, d[i] ^ 128])]) + d[i + 1:]
        else:
            d += bytes([rng.choice([0, 255])]) * rng.choice([1, 4, 64])
    return d


def random_image(rng):
    kind = rng.choice(["ota", "ota", "ota", "hue"])
    fc = rng.choice([0, 0, 1, 2, 4, 5, 6, 7, 0x8000, 0x0104])
    els = [[rng.choice([0, 0, 1, 3, 0xF000]), list(firmware(rng)) if rng.random() < 0.4 else rng.choices(range(256), k=rng.choice([0, 1, 2, 7, 30]))]
           for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
    data = [0x2A, 0, 1] + rng.choices(range(256), k=rng.choice([0, 1, 20])) if rng.random() < 0.9 else rng.choices(range(256), k=rng.randint(0, 9))
    return {"kind": kind, "hv": rng.choice([0x0100, 0, 0xFFFF]), "fc": fc, "manuf": 4107 if kind == "hue" and rng.random() < 0.9 else rng.choice([4107, 1, 0xFFFF]),
            "type": rng.randrange(65536), "version": rng.choice([0, 1, 2**32 - 1, rng.randrange(2**32)]), "stack": rng.choice([2, 0xFFFF]),
            "text": rng.choice([list(b"An image".ljust(32, b"\0")), rng.choices(range(256), k=32)]), "sec": rng.randrange(256), "dest": rng.choices(range(256), k=8),
            "hw": [rng.randrange(65536), rng.randrange(65536)], "els": els if kind == "ota" else [], "data": data if kind == "hue" else [],
            "dhl": 0, "dsize": 0}


def random_case(rng):
    i = random_image(rng)
    if rng.random() < 0.2:
        if rng.random() < 0.3:
            i["dsize"] = rng.choice([1, -1, 6, -6, -60, 100])
        return {"op": "build", "img": i}
    r = rng.random()
    if r < 0.2:
        i["dsize"] = rng.choice([1, -1, 6, -6, -7, 100, -56, -60, -70, 2**31])
    elif r < 0.3:
        i["dhl"] = rng.choice([1, -1, 4, -4, 10, -50, 1000])
        if rng.random() < 0.5:
            i["dsize"] = i["dhl"]
    b = write(i)
    if rng.random() < 0.15:
        # a length of an element
        at = 56 + 2 + sum(n for k, n in ((1, 1), (2, 8), (4, 4)) if i["fc"] & k)
        if at + 4 <= len(b) and i["kind"] == "ota":
            b = b[:at] + struct.pack("<I", rng.choice([0, 1, 5, len(b), 2**32 - 1, 2**31])) + b[at + 4:]
    w = rng.choice(["none", "none", "none", "trailing", "legrand", "third", "thirdbad", "ikea", "ikea2"])
    b = wrap(w, b)
    r = rng.random()
    if r < 0.15:
        b = b[:rng.choice([rng.randrange(len(b) + 1), len(b) - 1, 55, 56, 4, 24, 23, 100])]
    elif r < 0.3:
        p = rng.choice([rng.randrange(len(b)), rng.randrange(min(64, len(b)))])
        b = b[:p] + bytes([rng.choice([0, 1, 255, b[p] ^ 1, b[p] ^ 16])]) + b[p + 1:]
        if w.startswith("third") and rng.random() < 0.5:
            b = hashlib.sha512(b[64:]).digest() + b[64:]
    elif r < 0.4:
        b += bytes(rng.choices(range(256), k=rng.choice([1, 2, 17, 64])))
    return {"op": "parse", "data": b.hex()}


def hdr_out(h):
    """the fields of a header"""
    def le(v, n):
        return list(int(v).to_bytes(n, "little"))

    def opt(v):
        return -1 if v is None else int(v)

    return {"hv": int(h.header_version), "hl": int(h.header_length), "fc": int(h.field_control), "manuf": int(h.manufacturer_id), "type": int(h.image_type),
            "version": le(h.file_version, 4), "stack": int(h.stack_version), "text": list(bytes(h.header_string)), "size": le(h.image_size, 4),
            "sec": opt(h.security_credential_version), "dest": [] if h.upgrade_file_destination is None else list(h.upgrade_file_destination.serialize()),
            "minhw": opt(h.minimum_hardware_version), "maxhw": opt(h.maximum_hardware_version)}


def crcs(b):
    res, c = [], 0
    for n, x in enumerate(b, 1):
        c = zlib.crc32(bytes([x]), c)
        if c == SILABS:
            res.append(n)
    return res


def drive(script, events):
    import zigpy.ota.image as im
    import zigpy.ota.validators as va
    import zigpy.types as t

    for c in script["cases"]:
        if c["op"] == "parse":
            b = bytes.fromhex(c["data"])
            sha = len(b) > 64 and b[:64] == hashlib.sha512(b[64:]).digest()
            out = {"res": "ok"}
            try:
                i, rest = im.parse_ota_image(b)
            except ValueError:
                out["res"] = "ValueError"
            except Exception as e:
                out["res"] = type(e).__name__
            else:
                els = [{"tag": int(e.tag_id), "data": list(bytes(e.data))} for e in i.subelements] if isinstance(i, im.OTAImage) else []
                out.update(kind="hue" if isinstance(i, im.HueSBLOTAImage) else "ota", hdr=hdr_out(i.header), els=els,
                           data=list(i.data) if isinstance(i, im.HueSBLOTAImage) else [], rest=list(rest), crcs=[crcs(bytes(e["data"])) for e in els])
                try:
                    out["written"] = list(i.serialize())
                except Exception as e:
                    out["res"] = f"not written: {type(e).__name__}"
                try:
                    out["valid"] = va.validate_ota_image(i).name
                    assert not va.check_invalid(i)
                except va.ValidationError:
                    out["valid"] = "INVALID"
                    assert va.check_invalid(i)
            events.append({"ev": "parse", "data": list(b), "sha": sha, "out": out})
        else:
            i = c["img"]
            fc = i["fc"]
            n = 56 + (fc & 1) + (8 if fc & 2 else 0) + (4 if fc & 4 else 0)
            size = max(0, n + (len(i["data"]) if i["kind"] == "hue" else sum(6 + len(d) for _, d in i["els"])) + i["dsize"])
            hdr = im.OTAImageHeader(
                upgrade_file_id=0x0BEEF11E, header_version=i["hv"], header_length=n, field_control=fc, manufacturer_id=i["manuf"], image_type=i["type"],
                file_version=i["version"], stack_version=i["stack"], header_string=bytes(i["text"]), image_size=size,
                security_credential_version=i["sec"] if fc & 1 else None, upgrade_file_destination=t.EUI64.deserialize(bytes(i["dest"]))[0] if fc & 2 else None,
                minimum_hardware_version=i["hw"][0] if fc & 4 else None, maximum_hardware_version=i["hw"][1] if fc & 4 else None)
            e = {"ev": "build", "kind": i["kind"], "els": [{"tag": tag, "data": d} for tag, d in i["els"]], "data": i["data"], "hdr": hdr_out(hdr), "res": "ok", "out": []}
            try:
                if i["kind"] == "hue":
                    x = im.HueSBLOTAImage(header=hdr, data=bytes(i["data"]))
                else:
                    x = im.OTAImage(header=hdr, subelements=[im.SubElement(tag_id=tag, data=im.LVBytes32(bytes(d))) for tag, d in i["els"]])
                e["out"] = list(x.serialize())
            except ValueError:
                e["res"] = "ValueError"
            except Exception as ex:
                e["res"] = type(ex).__name__
            events.append(e)


def random_script(rng):
    return {"cases": [random_case(rng) for _ in range(12)]}


def check_c29(ctx):
    ctx.model_check("MC_Image")
    ctx.check_traces("files", "Image_Trace", drive, [random_script(ctx.rng) for _ in range(ctx.n(1500, 30000))])
