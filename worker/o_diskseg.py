"""P29: the segments of a disk image.

The expected list is worked out from the description the disk was built from:
every item is (name test, positions of its bytes in the image file, address or
None, label prefix or None).
"""
import struct

import numpy as np

import atrcopy
from atrcopy import errors
from atrcopy.ataridos import AtariDosDiskImage, BootDiskImage
from atrcopy.dos33 import Dos33DiskImage
from atrcopy.kboot import KBootImage
from atrcopy.spartados import SpartaDosDiskImage
from atrcopy.segments import SegmentData

import mkimg
import ref_foreign as R
from hutil import check, same, Violation, prng, mkdata, quiet, scratch
from o_cli import cli
from props import register

CLS = {"atari": AtariDosDiskImage, "apple": Dos33DiskImage, "sparta": SpartaDosDiskImage, "boot": BootDiskImage, "kboot": KBootImage}


class Item:
    def __init__(self, name, pos, addr=None, whole=True, comments=None):
        self.name, self.pos, self.addr, self.whole, self.comments = name, list(pos), addr, whole, comments or {}

    def named(self, n):
        return n == self.name if self.whole else n.startswith(self.name)


class Any:
    """some number of segments that are not looked at"""


def span(p, n):
    return range(p, p + n)


def blocks_of(data):
    """load blocks of an executable as (address, offset, length); None if the
    data is not an executable, "odd" if it is one that ends early or has a bad
    block"""
    if data[:2] != b"\xff\xff":
        return None
    out, p = [], 0
    while p < len(data):
        if data[p:p + 2] == b"\xff\xff":
            p += 2
            continue
        if p + 4 > len(data):
            return "odd"
        a, b = struct.unpack("<HH", data[p:p + 4])
        n = b - a + 1
        if n < 1 or p + 4 + n > len(data):
            return "odd"
        out.append((a, p + 4, n))
        p += 4 + n
    return out


def executable(pos, data, feats):
    bl = blocks_of(data)
    if bl is None:
        return []
    if bl == "odd":
        return [Any()]
    feats.add("exe")
    if len(bl) > 1:
        feats.add("exe-many")
    return [Item("", pos[o:o + n], a, whole=False) for a, o, n in bl]


def boot_items(geo_pos, nsec, addr, head):
    pos = []
    for s in range(1, nsec + 1):
        p, z = geo_pos(s)
        pos += span(p, z)
    return [Item("Boot Sectors", pos, addr), Item("Boot Header", pos[:head], addr), Item("Boot Code", pos[head:], addr + head)]


DIR = [(0, "flag"), (1, "number of sectors"), (3, "starting sector"), (5, "filename"), (13, "extension")]


def atari(case, feats):
    spec = dict(case["disk"])
    ents = []
    for e in spec["entries"]:
        e = dict(e)
        if "xex" in e:
            e["stream"] = mkimg.xex(e["xex"])
        ents.append(e)
    spec["entries"] = ents
    d = R.AtariDisk(spec)
    g = d.g
    raw = bytearray(d.raw)
    b = case.get("boot")
    items = []
    if g.off:
        items.append(Item("ATR Header", range(16)))
    items.append(Item("Raw disk sectors", range(g.off, len(raw))))
    if b:
        raw[g.off:g.off + 384] = prng(b["s"], 384)
        raw[g.off:g.off + 12] = bytes([b["flag"], b["num"]]) + struct.pack("<H", b["addr"]) + bytes([0x40, 0x15, 0x4c, 0x14, 7, 3, 3, 0xff])
        if b["flag"] == 0:
            items += boot_items(g.pos, b["num"], b["addr"], 20)
            feats.add("boot")
    else:
        raw[g.off] = 0xfe  # not a boot sector
    pos = []
    for s in range(360 - d.nv + 1, 361):
        pos += span(*g.pos(s))
    at = (d.nv - 1) * g.ss
    items.append(Item("VTOC", pos, comments={at: "type", at + 1: "total", at + 3: "free", at + 10: "bit map"}))
    if d.var == "dos25":
        feats.add("vtoc2")
        items.append(Item("VTOC2", span(*g.pos(1024)), comments={0: "48-719", 84: "720-1023", 122: "free"}))
    if d.nv > 1:
        feats.add("vtocs")
    pos = []
    for s in range(361, 369):
        pos += span(*g.pos(s))
    com = {}
    for n in (0, 1, 7, 8, 9, 31, 32, 63):
        for o, t in DIR:
            com[n // 8 * g.ss + n % 8 * 16 + o] = "file #%d: %s" % (n, t)
    items.append(Item("Directory", pos, comments=com))
    for i, r in enumerate(d.slots):
        if r["kind"] != "file":
            continue
        pos = []
        for s, u in zip(r["chain"], r["parts"]):
            pos += span(g.pos(s)[0], u)
        items.append(Item(R.atari_text(r["name"]), pos, whole=False))
        # the boot sector description may reach into the files
        items += executable(pos, bytes(raw[p] for p in pos), feats)
        if len(r["chain"]) > 1:
            feats.add("chain")
    return bytes(raw), items, d


def apple(case, feats):
    spec = case["disk"]
    d = R.AppleDisk(spec)
    raw = bytearray(d.raw)
    s = case.get("boot")
    if s:
        raw[0:4096] = prng(s["s"], 4096)
        raw[0] = 1
        raw[1] = 0xa5
    items = [Item("Raw disk sectors", range(len(raw)))]
    for name, a, b, addr in (("Boot 1", 0, 0, 0x800), ("Boot 2", 1, 9, 0x3700), ("Relocator", 10, 11, 0x1b00), ("Boot 3", 12, 0x24, 0x1d00)):
        items.append(Item(name, range(a * 256, (b + 1) * 256), addr))
    com = {1: "track", 2: "sector", 6: "volume", 0x27: "track/sector pairs", 0x30: "last track", 0x31: "direction", 0x34: "tracks per", 0x35: "sectors per", 0x36: "bytes per"}
    for t in range(35):
        com[0x38 + 4 * t] = "track %d" % t
    items.append(Item("VTOC", range(0x11000, 0x11100), comments=com))
    pos, com, n = [], {}, 0
    for i, c in enumerate(d.cat):
        pos += span(c * 256, 256)
        com[i * 256 + 1], com[i * 256 + 2] = "track", "sector"
        for k in range(7):
            q = i * 256 + 11 + 35 * k
            for o, t in ((2, "file type"), (3, "filename"), (0x21, "number of sectors")):
                com[q + o] = "file #%d: %s" % (n, t)
            n += 1
    items.append(Item("Catalog", pos, comments=com))
    if len(d.cat) > 1:
        feats.add("catalog")
    for r in d.slots:
        if r["kind"] != "file":
            continue
        pos = []
        for c in r["chain"]:
            pos += span(c * 256, 256)
        addr = None
        if r["flag"] & 0x7f == 4 and not r["holes"]:
            addr = struct.unpack("<H", r["data"][:2])[0] - 4
            feats.add("binary")
            if addr < 0:
                addr = None
        # a line such as " B 003 HELLO"
        items.append(Item(R.apple_text(r["name"]), pos, addr, whole=None))
        if len(r["chain"]) > 1:
            feats.add("chain")
    return bytes(raw), items, d


def sparta(case, feats):
    spec = dict(case["disk"])
    files = []
    for f in spec["files"]:
        f = dict(f)
        f["stream"] = mkimg.xex(f["xex"]) if "xex" in f else mkdata(f["data"])
        files.append(f)
    spec["files"] = files
    lay = {}
    raw = mkimg.sparta(spec, lay)
    off = 16 if spec.get("header", True) else 0
    g = lay["geo"]

    def gpos(s):
        p, z = g.pos(s)
        return p + off, z

    def where(secs, n):
        pos = []
        for s in secs:
            pos += span(*gpos(s))
        return pos[:n]
    items = []
    if off:
        items.append(Item("ATR Header", range(16)))
    items.append(Item("Raw disk sectors", range(off, len(raw))))
    nb = lay["boot"]
    b = boot_items(gpos, max(nb, 1), lay["addr"], 43)
    items += [b[1]] + ([b[0], b[2]] if nb else [])
    first, n = lay["bitmap"]
    items.append(Item("Bitmap", where(range(first, first + n), n * g.ss)))
    items.append(Item("MAIN", where(lay["secs"][-1], lay["dirlen"]), whole=False))
    for f, secs in zip(files, lay["secs"]):
        if not f["status"] & 8:
            continue
        name = f["name"] + ("." + f["ext"] if f["ext"] else "")
        pos = where(secs, len(f["stream"]))
        items.append(Item(name, pos, whole=False))
        items += executable(pos, f["stream"], feats)
        if len(secs) > 1:
            feats.add("chain")
    feats.add("boot:%d" % min(nb, 4))
    return raw, items, None


def boot(case, feats):
    d = case["disk"]
    raw = mkimg.bootdisk(d)
    off = 16 if d.get("header", True) else 0
    items = ([Item("ATR Header", range(16))] if off else []) + [Item("Raw disk sectors", range(off, len(raw)))]
    ss = d.get("ss", 128)
    n = d["nsec"]
    if d.get("flag", 0) == 0:
        items += boot_items(lambda s: (off + 128 * (s - 1), 128) if s <= 3 else (off + 384 + ss * (s - 4), ss), n, d["addr"], 6)
        feats.add("boot")
    return raw, items, None


def kboot(case, feats):
    raw = mkimg.kboot(case["disk"])
    body = mkimg.xex(case["disk"])
    pos = list(span(16 + 384, len(body)))
    items = [Item("ATR Header", range(16)), Item("Raw disk sectors", range(16, len(raw))), Item("KBoot Executable", pos)]
    items += executable(pos, body, feats)
    return raw, items, None


BUILD = {"atari": atari, "apple": apple, "sparta": sparta, "boot": boot, "kboot": kboot}


def line_up(segs, items, raw):
    """every segment with its item"""
    segs = [s for s in segs if not (len(s) == 0 and s.name.endswith("Header"))]
    out = []
    i = 0
    for k, it in enumerate(items):
        if isinstance(it, Any):
            nxt = items[k + 1] if k + 1 < len(items) else None
            while i < len(segs) and (nxt is None or not (nxt.named(segs[i].name) if nxt.whole is not None else True)):
                i += 1
            continue
        check(i < len(segs), "segment %r is not listed, the list ends after %d", it.name, len(segs))
        s = segs[i]
        if it.whole is None:
            check(it.name in s.name, "segment %d is %r, expected one for %r", i, s.name, it.name)
        elif it.name or it.whole:
            check(it.named(s.name), "segment %d is %r, expected %r", i, s.name, it.name)
        out.append((s, it))
        i += 1
    check(i == len(segs), "unexpected segment %r", segs[i].name if i < len(segs) else "")
    return out


@register("P29")
def p29(case):
    kind = case["fs"]
    feats = set()
    raw, items, disk = BUILD[kind](case, feats)
    a = np.frombuffer(raw, dtype=np.uint8).copy()
    labels = ["fs:" + kind]
    with quiet():
        if case["front"]:
            parser, _ = atrcopy.find_diskimage_from_data(a)
            img, segs = parser.image, parser.segments
            check(type(img) is CLS[kind], "recognised as %s", type(img).__name__)
            labels.append("front")
            items.insert(0, Item("", range(len(raw)), whole=False))
        else:
            img = CLS[kind](SegmentData(a))
            img.parse_segments()
            segs = img.segments
    pairs = line_up(segs, items, raw)
    for s, it in pairs:
        what = "segment %r" % s.name
        same(s.tobytes(), bytes(raw[p] for p in it.pos), what)
        check(len(s) == len(it.pos), "%s has length %d", what, len(s))
        if it.addr is not None and it.pos:
            check(s.origin == it.addr, "%s is at %04x, should be at %04x", what, s.origin, it.addr)
        for at, text in it.comments.items():
            got = s.get_comment(at)
            check(text in got.lower(), "%s: the comment at %02x is %r, expected one about %r", what, at, got, text)
    # where they are: writing to a segment changes the image there
    for k, frac in case.get("edits", []):
        full = [(s, it) for s, it in pairs if it.pos]
        s, it = full[k % len(full)]
        i = frac * (len(it.pos) - 1) // 1000
        before = a.tobytes()
        s[i] = int(s[i]) ^ 0x55
        want = bytearray(before)
        want[it.pos[i]] ^= 0x55
        same(a.tobytes(), want, "changing byte %d of segment %r" % (i, s.name))
        s[i] = int(s[i]) ^ 0x55
        check(s.get_raw_index(i) == it.pos[i], "raw index of byte %d of %r is %s, should be %d", i, s.name, s.get_raw_index(i), it.pos[i])
        feats.add("edit")
    same(a.tobytes(), raw, "looking at the segments")
    if case.get("cli"):
        labels.append("cli")
        with scratch() as d:
            import os
            os.chdir(d)
            with open("disk.img", "wb") as fh:
                fh.write(raw)
            r = cli(["disk.img", "segments"])
            check(r.exc is None and not r.code, "the segments command fails: %s", r.exc)
            text = r.out.split("\n")
            k = 0
            for s, it in pairs:
                while k < len(text) and text[k] != str(s):
                    k += 1
                check(k < len(text), "segment %r is not in the output of the segments command", str(s))
                k += 1
    labels += ["has:" + f for f in sorted(feats)]
    return {"labels": labels, "nontrivial": len(feats) >= 2}
