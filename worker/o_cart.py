"""Cartridges, ROM archives and recognition (P22, P23, P27)."""
import hashlib
import io
import os
import struct
import zipfile

import numpy as np

import atrcopy
from atrcopy import cartridge, errors, parsers
from atrcopy.ataridos import AtariDosDiskImage, BootDiskImage, AtariDiskImage
from atrcopy.cartridge import Atari5200CartImage, Atari8bitCartImage, AtariCartImage, BaseAtariCartImage
from atrcopy.dos33 import Dos33DiskImage
from atrcopy.kboot import KBootImage
from atrcopy.mame import MameZipImage
from atrcopy.segments import SegmentData
from atrcopy.spartados import SpartaDosDiskImage

import mkimg
from hutil import Violation, HarnessError, check, same, mkdata, quiet, scratch
from o_parse import describe, same_description, Guarded, inspect
from props import register


def arr(b):
    return np.frombuffer(b, dtype=np.uint8).copy()


# type: (main size KB, offset KB, address) and (bank size KB, first offset KB, address)
LAYOUT = {57: ((2, 0, 0xb800), None), 58: ((4, 0, 0xb000), None), 59: ((4, 0, 0x9000), None), 1: ((8, 0, 0xa000), None), 2: ((16, 0, 0x8000), None),
          3: ((4, 12, 0xb000), (4, 0, 0xa000)), 45: ((4, 12, 0xb000), (4, 0, 0xa000)), 40: ((16, 0, 0x8000), None), 53: ((8, 0, 0x8000), None),
          20: ((4, 0, 0x8000), None), 19: ((8, 0, 0x8000), None), 4: ((32, 0, 0x4000), None)}
for _t, _k in ((12, 32), (13, 64), (67, 64), (14, 128), (23, 256), (24, 512), (25, 1024), (33, 32), (34, 64), (35, 128), (36, 256), (37, 512), (38, 1024)):
    LAYOUT[_t] = ((8, _k - 8, 0xa000), (8, 0, 0x8000))
FOR_5200 = {20, 19, 4, 16, 6, 7}


def check_segments(segs, rom, off, t, what):
    """header, main bank and switched banks"""
    segs = list(segs)
    if off:
        check(segs and len(segs[0]) == off, "%s: first segment is not the header", what)
        segs = segs[1:]
    kb = len(rom) // 1024
    main, bank = LAYOUT.get(t, ((kb, 0, None), None))
    want = [(main[1] * 1024, main[0] * 1024, main[2])]
    if bank:
        p = bank[1] * 1024
        while p < len(rom) - main[0] * 1024:
            want.append((p, bank[0] * 1024, bank[2]))
            p += bank[0] * 1024
    check(len(segs) == len(want), "%s: %d segments, expected %d", what, len(segs), len(want))
    covered = 0
    seen = set()
    for i, (s, (p, n, addr)) in enumerate(zip(segs, want)):
        check(len(s) == n, "%s: segment %d has %d bytes, expected %d", what, i, len(s), n)
        same(s.tobytes(), rom[p:p + n], "%s: segment %d (%s)" % (what, i, s.name))
        check(s.get_raw_index(0) == off + p and s.get_raw_index(n - 1) == off + p + n - 1, "%s: segment %d is at %d, expected %d", what, i, s.get_raw_index(0), off + p)
        if addr is not None:
            check(s.origin == addr, "%s: segment %d (%s) loads at $%04x, expected $%04x", what, i, s.name, s.origin, addr)
        check(p not in seen, "%s: overlap", what)
        seen.add(p)
        covered += n
    check(covered == len(rom), "%s: segments cover %d of %d bytes", what, covered, len(rom))


def parser_for(t):
    for p in parsers.known_segment_parsers:
        if getattr(p, "cart_info", None) is not None and p.cart_type == t:
            return p
    raise Violation("no parser for cartridge type %d" % t)


@register("P22")
def p22(case):
    t, how = case["type"], case["how"]
    rom = mkdata(case["data"])
    f = bytes.fromhex(case["first"])
    rom = f + rom[len(f):]
    head = b"CART" + struct.pack(">II", t, case["crc"]) + bytes.fromhex(case["unused"])
    labels = ["how:" + how, "type:%d" % t if t < 70 else "type:unknown"]
    what = "cartridge type %d" % t
    with quiet():
        if how == "good":
            a = arr(head + rom)
            parser, mime = atrcopy.find_diskimage_from_data(a)
            img = parser.image
            cls = Atari5200CartImage if t in FOR_5200 else Atari8bitCartImage
            check(isinstance(img, cls), "%s opened as %s", what, type(img).__name__)
            check(img.header.cart_type == t, "%s identified as type %s", what, img.header.cart_type)
            wm = "application/vnd.atari5200.cart" if t in FOR_5200 else "application/vnd.atari8bit.cart"
            check(mime == wm, "%s has media type %s", what, mime)
            check(("5200" in img.header.cart_name) == (t in FOR_5200), "%s has name %s", what, img.header.cart_name)
            check(parser.cart_type == t, "%s parsed by the parser for type %d", what, parser.cart_type)
            same(parser.segments[0].tobytes(), head + rom, "whole image")
            same(parser.segments[1].tobytes(), head, "header segment")
            check_segments(parser.segments[1:], rom, 16, t, what)
            same(img.create_emulator_boot_segment().tobytes(), head + rom, "emulator image of a cartridge with header")
            same(a.tobytes(), head + rom, "opening changed the image")
            # the same bytes are not accepted as another type
            other = 2 if t != 2 else 1
            for strict in (True, False):
                try:
                    p = parser_for(other)(SegmentData(a), strict)
                except errors.AtrError:
                    continue
                raise Violation("%s accepted as type %d" % (what, other))
            return {"labels": labels, "nontrivial": True}
        if how == "size":
            try:
                parser, mime = atrcopy.find_diskimage_from_data(arr(head + rom))
                check(not isinstance(parser.image, BaseAtariCartImage), "%s with %d bytes identified as a cartridge", what, len(rom))
            except errors.AtrError:
                pass
            for strict in (True, False):
                try:
                    parser_for(t)(SegmentData(arr(head + rom)), strict)
                except errors.AtrError:
                    continue
                raise Violation("%s with %d bytes accepted" % (what, len(rom)))
            return {"labels": labels, "nontrivial": True}
        if how == "unknown":
            try:
                parser, mime = atrcopy.find_diskimage_from_data(arr(head + rom))
                check(not isinstance(parser.image, BaseAtariCartImage), "unknown cartridge type %d identified as a cartridge", t)
            except errors.AtrError:
                pass
            return {"labels": labels, "nontrivial": True}
        if how == "bare":
            if rom[:4] == b"CART":
                rom = b"\0" + rom[1:]
            a = arr(rom)
            try:
                parser_for(t)(SegmentData(a), True)
                raise Violation("headerless data strictly accepted as type %d" % t)
            except errors.AtrError:
                pass
            p = parser_for(t)(SegmentData(a), False)
            check(p.image.header.cart_type == t, "headerless data has type %s, asked for %d", p.image.header.cart_type, t)
            same(p.segments[0].tobytes(), rom, "whole image")
            check_segments(p.segments[1:], rom, 0, t, "headerless " + what)
            boot = p.image.create_emulator_boot_segment().tobytes()
            same(boot[16:], rom, "ROM in the emulator image")
            check(boot[:4] == b"CART" and struct.unpack(">I", boot[4:8])[0] == t, "emulator image has header %s for type %d", boot[:16].hex(), t)
            check(struct.unpack(">I", boot[8:12])[0] == sum(rom) & 0xffffffff, "emulator image has the checksum %s, the bytes of the ROM add up to %x", boot[8:12].hex(), sum(rom))
            same(a.tobytes(), rom, "building the emulator image changed the data")
            # which is then recognised
            q, mime = atrcopy.find_diskimage_from_data(arr(boot))
            check(isinstance(q.image, BaseAtariCartImage) and q.image.header.cart_type == t, "emulator image of type %d opened as %s", t, type(q.image).__name__)
            return {"labels": labels, "nontrivial": True}
        # headerless data as a type of another size
        u = case["other"]
        if rom[:4] == b"CART":
            rom = b"\0" + rom[1:]
        fits = len(rom) == 1024 * size_kb(u)
        try:
            p = parser_for(u)(SegmentData(arr(rom)), False)
            ok = True
        except errors.AtrError:
            ok = False
        check(ok == fits, "headerless data of %d bytes as type %d: %s", len(rom), u, "accepted" if ok else "refused")
        return {"labels": labels, "nontrivial": not fits}


SIZE_KB = {57: 2, 58: 4, 59: 4, 1: 8, 21: 8, 2: 16, 44: 8, 15: 16, 3: 16, 45: 16, 12: 32, 13: 64, 67: 64, 14: 128, 23: 256, 24: 512, 25: 1024, 33: 32, 34: 64,
           35: 128, 36: 256, 37: 512, 38: 1024, 22: 32, 8: 64, 9: 64, 10: 64, 11: 64, 43: 128, 17: 128, 18: 40, 26: 16, 27: 32, 28: 64, 29: 128, 30: 256, 31: 512, 32: 1024,
           39: 8, 46: 4, 40: 16, 60: 32, 41: 128, 42: 1024, 47: 32, 48: 64, 49: 128, 50: 64, 51: 128, 52: 32, 53: 8, 5: 32, 54: 128, 55: 256, 56: 512, 61: 2048, 63: 4096, 64: 2048,
           20: 4, 19: 8, 4: 32, 16: 16, 6: 16, 7: 40}


def size_kb(t):
    return SIZE_KB[t]


# ---------------------------------------------------------------- zip

def refused_as_mame(raw, why):
    for strict in (True, False):
        try:
            parsers.MameZipParser(SegmentData(arr(raw)), strict)
        except errors.AtrError:
            continue
        raise Violation("%s accepted as a ROM archive" % why)
    try:
        parser, mime = atrcopy.find_diskimage_from_data(arr(raw))
    except errors.AtrError:
        return
    check(not isinstance(parser.image, MameZipImage), "%s opened as a ROM archive", why)


@register("P23")
def p23(case):
    mem = [(n, mkdata(d), m) for n, d, m in case["zip"]["members"]]
    raw = mkimg.mkzip(case["zip"])
    labels = ["members:%d" % len(mem)]
    total = sum(len(d) for n, d, m in mem)
    odd = any(len(d) % 16 for n, d, m in mem)
    with quiet():
        if "cut" in case:
            labels.append("cut")
            n = len(raw)
            k = case["cut"]
            keep = n - k if k > 0 else n * -k // 1000
            cut = raw[:max(0, min(keep, n - 1))]
            # cutting into the comment leaves the archive readable
            if len(cut) < n - len(case["zip"].get("comment", "")):
                refused_as_mame(cut, "archive cut from %d to %d bytes" % (n, len(cut)))
            return {"labels": labels, "nontrivial": True}
        if "flip" in case and total and mem:
            i, frac, x = case["flip"]
            with zipfile.ZipFile(io.BytesIO(raw)) as z:
                inf = z.infolist()[i % len(mem)]
            if inf.compress_size:
                p = inf.header_offset
                p += 30 + int.from_bytes(raw[p + 26:p + 28], "little") + int.from_bytes(raw[p + 28:p + 30], "little")
                p += frac * (inf.compress_size - 1) // 1000
                bad = bytearray(raw)
                bad[p] ^= x
                bad = bytes(bad)
                try:
                    with zipfile.ZipFile(io.BytesIO(bad)) as z:
                        harmless = z.read(z.infolist()[i % len(mem)]) == mem[i % len(mem)][1]
                except Exception:
                    harmless = False
                labels.append("flip:%s" % harmless)
                if not harmless:
                    refused_as_mame(bad, "archive with a damaged member")
                return {"labels": labels, "nontrivial": True}
        if "muts" in case:
            labels.append("muts")
            bad = mkimg.mutate(raw, case["muts"])
            g = Guarded(labels)
            ok, res = g("opening a damaged archive", atrcopy.find_diskimage_from_data, arr(bad))
            if ok:
                inspect(g, "damaged archive", res[0])
            for strict in (True, False):
                g("MameZipParser on a damaged archive", parsers.MameZipParser, SegmentData(arr(bad)), strict)
            return {"labels": labels, "nontrivial": True}
        if odd or total == 0:
            labels.append("odd" if odd else "empty")
            refused_as_mame(raw, "archive with %s" % ("a member whose size is no multiple of 16" if odd else "no data"))
            return {"labels": labels, "nontrivial": odd}
        a = arr(raw)
        parser, mime = atrcopy.find_diskimage_from_data(a)
        check(isinstance(parser.image, MameZipImage), "ROM archive opened as %s", type(parser.image).__name__)
        check(mime == "application/vnd.mame_rom", "ROM archive has media type %s", mime)
        segs = parser.image.segments
        check(len(segs) == len(mem), "%d segments for %d members", len(segs), len(mem))
        check(parser.segments[1:] == segs, "segments of the parser differ from those of the image")
        for s, (name, data, m) in zip(segs, mem):
            check(s.name == name, "segment named %r for member %r", s.name, name)
            check(len(s) == len(data), "segment %s has %d bytes, the member %d", name, len(s), len(data))
            same(s.tobytes(), data, "segment of member %s" % name)
        same(a.tobytes(), raw, "opening changed the archive")
        return {"labels": labels, "nontrivial": len(mem) > 1}


# ---------------------------------------------------------------- recognition

# media types of the known games: bytes that must be there, and the kind of image
MAGIC = {
    "application/vnd.atari8bit.atr.getaway_pd": {8: "8239", 12: "67217064"},
    "application/vnd.atari8bit.atr.getaway": {16: "00c1800fcc2218600e"},
    "application/vnd.atari8bit.atr.jumpman_level_tester": {0: "9602d00580", 0x1d5: "4c", 0x1de: "20", 0x1e1: "60ff"},
    "application/vnd.atari8bit.atr.jumpman": {0: "9602801680", 0x84f: "4c", 0x858: "20", 0x85b: "60ff"},
    "application/vnd.atari8bit.xex.getaway": {0: "ffff802aff8a"},
}


def magic_of(raw, mime):
    """the media type with the detail the library documents for known games"""
    for m in ("getaway_pd", "getaway", "jumpman_level_tester", "jumpman"):
        for full, sig in MAGIC.items():
            if full == mime + "." + m and all(raw[p:p + len(h) // 2] == bytes.fromhex(h) for p, h in sig.items()):
                return full
    return mime


def stamp(raw, it):
    """put the signature of a known game into an image, possibly with one wrong byte"""
    b = bytearray(raw)
    for p, h in MAGIC[it["sig"]].items():
        h = bytes.fromhex(h)
        b[p:p + len(h)] = h
    if it.get("miss") is not None:
        k = [p + i for p, h in sorted(MAGIC[it["sig"]].items()) for i in range(len(h) // 2)]
        k = [i for i in k if i >= 6] or k[:0]  # not the part that makes it a disk image
        if k:
            b[k[it["miss"] % len(k)]] ^= 1 << (it["miss"] % 8)
    return bytes(b)


ROMS = {"application/vnd.atari2600.cart": cartridge.Atari2600CartImage, "application/vnd.atari2600.starpath": cartridge.Atari2600StarpathImage,
        "application/vnd.vectrex": cartridge.VectrexCartImage, "application/vnd.atari5200.cart": Atari5200CartImage}


def known_rom(spec, labels):
    """a ROM image whose checksum is in the database of known images"""
    raw = mkdata(spec["data"])
    table = getattr(parsers, "sha1_signatures", None)
    if not isinstance(table, dict):
        return
    key = hashlib.sha1(raw).digest()
    old = table.get(len(raw))
    table[len(raw)] = dict(old or {})
    if spec["known"]:
        table[len(raw)][key] = (spec["mime"], "Known Game")
    try:
        res = atrcopy.find_diskimage_from_data(arr(raw))
        res2 = atrcopy.iter_parsers(SegmentData(arr(raw)))
    except errors.AtrError as e:
        check(not spec["known"], "known %s of %d bytes: %s: %s", spec["mime"], len(raw), type(e).__name__, e)
        return
    finally:
        if old is None:
            del table[len(raw)]
        else:
            table[len(raw)] = old
    for parser, mime in (res, res2[::-1]):
        if not spec["known"]:
            check(mime not in ROMS or mime == "application/vnd.atari5200.cart", "unknown data recognised as %s", mime)
            continue
        check(mime == spec["mime"], "known %s of %d bytes recognised as %s", spec["mime"], len(raw), mime)
        check(type(parser.image) is ROMS[mime], "known %s opened as %s", mime, type(parser.image).__name__)
        same(b"".join(s.tobytes() for s in parser.image.segments), raw, "segments of the known %s" % mime)
    labels.append("known" if spec["known"] else "unknown")


EXPECT = {"kboot": (KBootImage, "application/vnd.atari8bit.atr"), "sparta": (SpartaDosDiskImage, "application/vnd.atari8bit.atr"),
          "bootdisk": (BootDiskImage, "application/vnd.atari8bit.atr"), "xex": ("XexSegmentParser", "application/vnd.atari8bit.xex"),
          "bsave": ("Dos33BinSegmentParser", "application/vnd.apple2.bin"), "data": (cartridge.RomImage, "application/vnd.rom")}


def expected(spec):
    k = spec["k"]
    if k == "fs":
        if spec["disk"]["fs"] == "atari":
            return AtariDosDiskImage, "application/vnd.atari8bit.atr"
        return Dos33DiskImage, "application/vnd.apple2.dsk"
    if k == "cart":
        if spec["type"] in FOR_5200:
            return Atari5200CartImage, "application/vnd.atari5200.cart"
        return Atari8bitCartImage, "application/vnd.atari8bit.cart"
    return EXPECT[k]


def recognise(spec, raw, name, labels):
    """class of what was opened, after checking it against what was built"""
    a = arr(raw)
    if spec["k"] == "prodos":
        try:
            p, m = atrcopy.find_diskimage_from_data(a)
        except errors.UnsupportedDiskImage as e:
            check("ProDOS" in str(e), "ProDOS disk reported as %r", str(e))
            return None
        except errors.AtrError as e:
            raise Violation("ProDOS disk reported as %s: %s" % (type(e).__name__, e))
        raise Violation("ProDOS disk opened as %s" % type(p.image).__name__)
    if spec["k"] == "data" and len(raw) & (len(raw) - 1):
        try:
            p, m = atrcopy.find_diskimage_from_data(a)
        except errors.UnsupportedDiskImage:
            labels.append("refused")
            return None
        except errors.AtrError as e:
            raise Violation("data of no known kind reported as %s: %s" % (type(e).__name__, e))
        raise Violation("%d bytes of no known kind opened as %s" % (len(raw), type(p.image).__name__))
    cls, mime = expected(spec)
    if name:
        with scratch() as d:
            path = os.path.join(d, name)
            with open(path, "wb") as fh:
                fh.write(raw)
            parser, m = atrcopy.find_diskimage(path)
    else:
        parser, m = atrcopy.find_diskimage_from_data(a)
    got = type(parser).__name__ if isinstance(cls, str) else type(parser.image)
    check(got is cls or got == cls, "%s image opened as %s, expected %s", spec["k"], type(parser.image).__name__, getattr(cls, "__name__", cls))
    want = magic_of(raw, mime)
    if want != mime:
        labels.append(want.rsplit(".", 1)[1])
    check(m == want, "%s image has media type %s, expected %s", spec["k"], m, want)
    # among the kinds of its own system it is recognised as the same
    for base in (want.rsplit(".", 1)[0] if want.count(".") > 1 else want, ".".join(want.split(".")[:2])):
        m2, p2 = atrcopy.guess_parser_for_system(base, SegmentData(arr(raw)))
        check(p2 is not None and m2 == want and type(p2) is type(parser), "%s image (%s) is %s among the kinds of %s", spec["k"], want, m2, base)
    return parser


@register("P27")
def p27(case):
    labels = []
    first = []
    kinds = set()
    with quiet():
        for it in case["items"]:
            spec = it["img"]
            if spec["k"] == "rom":
                labels.append("rom")
                known_rom(spec, labels)
                continue
            raw = mkimg.build(spec)
            if it.get("sig") and len(raw) > 0x900:
                if raw[:2] == b"\x96\x02" or not it["sig"].startswith("application/vnd.atari8bit.atr"):
                    raw = stamp(raw, it)
                    labels.append("sig")
            if it.get("cut"):
                raw = raw[:it["cut"]]
                labels.append("cut")
            labels.append(spec["k"])
            kinds.add(spec["k"] + spec.get("disk", {}).get("fs", ""))
            parser = recognise(spec, raw, it["name"], labels)
            if parser is not None and spec["k"] == "fs" and it["edit"]:
                n = 0
                img = parser.image
                for op in it["edit"]:
                    try:
                        if op[0] == "w":
                            if op[1] not in [d.filename for d in img.files]:
                                img.write_file(op[1], "B" if spec["disk"]["fs"] == "dos33" else "", mkdata(op[2]))
                        elif op[0] == "d" and img.files:
                            img.delete_file(img.files[op[1] % len(img.files)].filename)
                        elif op[0] == "shred":
                            img.shred(op[1])
                        n += 1
                    except errors.AtrError:
                        pass
                raw = img.rawdata.get_data().tobytes()
                recognise(spec, raw, None, labels)
                labels.append("edited")
            first.append((spec, raw, describe(arr(raw))))
        for i, (spec, raw, d) in enumerate(reversed(first)):
            same_description(describe(arr(raw)), d, "opening %s again after other images" % spec["k"])
    return {"labels": labels, "nontrivial": len(kinds) > 1}
