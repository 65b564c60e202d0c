"""Images of every kind from small JSON descriptions, and damage to them."""
import bz2
import gzip
import io
import lzma
import struct
import zipfile

import ref_foreign
import ref_sparta
from hutil import HarnessError, mkdata, prng, repo_bytes
from fsmodel import AtariFS, Dos33FS


def le16(v):
    return bytes([v & 255, (v >> 8) & 255])


_fs_cache = {}


def atr(payload, ss=128):
    par = len(payload) // 16
    return bytes([0x96, 0x02]) + le16(par) + le16(ss) + bytes([(par >> 16) & 255]) + bytes(9) + payload


def xex(spec):
    out = b""
    if not spec.get("nohead"):
        out = b"\xff\xff"
    for i, (start, d, mark) in enumerate(spec["segs"]):
        data = mkdata(d)
        data = data[:0x10000 - start]
        if not data:
            data = b"\x01"
        end = start + len(data) - 1
        if mark and (i or spec.get("nohead")):
            out += b"\xff\xff"
        out += le16(start) + le16(end) + data
    return out + bytes.fromhex(spec.get("tail", ""))


def cart(spec):
    t = spec["type"]
    head = b"CART" + struct.pack(">II", t, spec.get("crc", 0)) + bytes.fromhex(spec.get("unused", "00000000"))
    return head + mkdata(spec["data"])




def mkzip(spec):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for name, d, method in spec["members"]:
            zi = zipfile.ZipInfo(name, (1990, 1, 2, 3, 4, 6))
            zi.compress_type = method
            z.writestr(zi, mkdata(d))
        if spec.get("comment"):
            z.comment = spec["comment"].encode("latin1")
    out = b.getvalue()
    if spec.get("prefix"):
        out = mkdata(spec["prefix"]) + out
    return out


def compress(m, data, level=6, opts=None):
    opts = opts or {}
    if m == "gz":
        b = io.BytesIO()
        with gzip.GzipFile(filename=opts.get("name", ""), mode="wb", compresslevel=level, fileobj=b, mtime=opts.get("mtime", 0)) as z:
            z.write(data)
        return b.getvalue()
    if m == "bz2":
        return bz2.compress(data, max(1, level))
    if m == "xz":
        chk = [lzma.CHECK_CRC32, lzma.CHECK_CRC64, lzma.CHECK_NONE, lzma.CHECK_SHA256][opts.get("check", 0) % 4]
        return lzma.compress(data, format=lzma.FORMAT_XZ, check=chk, preset=min(level, 3))
    if m == "lzma":
        return lzma.compress(data, format=lzma.FORMAT_ALONE, preset=min(level, 3))
    raise HarnessError("compressor %r" % m)


def comp(spec):
    inner = build(spec["inner"])
    cuts = sorted(set([0, len(inner)] + [int(len(inner) * c / 1000) for c in spec.get("cuts", [])]))
    out = b""
    if len(cuts) == 1:
        cuts = [0, 0]
    for a, b in zip(cuts, cuts[1:]):
        out += compress(spec["m"], inner[a:b], spec.get("level", 6), spec.get("opts"))
    return out


def kboot(spec):
    body = xex(spec) if "segs" in spec else mkdata(spec["data"])
    n = len(body)
    boot = bytearray(384)
    boot[0:9] = bytes.fromhex("000300070d074c0d07")
    boot[13:384] = prng(5, 371)
    boot[9:12] = bytes([n & 255, (n >> 8) & 255, (n >> 16) & 255])
    pad = -n % 128
    return atr(bytes(boot) + body + bytes(pad))


def sparta(spec, layout=None):
    files = []
    for f in spec["files"]:
        files.append(dict(status=f["status"], name=f["name"].encode("latin1"), ext=f["ext"].encode("latin1"),
                          data=f["stream"] if "stream" in f else mkdata(f["data"]), date=f["date"], time=f["time"], claim=f.get("claim")))
    return ref_sparta.build(spec["ss"], spec["nsec"], files, spec.get("version", 0x20), spec.get("header", True),
                            spec.get("order", 1), spec.get("seed", 0), boot=spec.get("boot", 1), addr=spec.get("addr", 0x3000), layout=layout)


def bootdisk(spec):
    n = spec["size"]
    b = bytearray(prng(spec.get("s", 3), n))
    b[0:6] = bytes([spec.get("flag", 0), spec["nsec"]]) + le16(spec["addr"]) + le16(spec.get("init", 0x1000))
    b = bytes(b[:n])
    return atr(b, spec.get("ss", 128)) if spec.get("header", True) else b


def bsave(spec):
    d = mkdata(spec["data"])
    return le16(spec["origin"]) + le16(spec.get("count", len(d)) & 0xffff) + d


def data(spec):
    """bytes of no known kind"""
    b = bytearray(mkdata(spec["data"]))
    b[0:2] = b"UU"[:len(b)]
    if len(b) > 3 and b[2] + 256 * b[3] == (len(b) - 4) & 0xffff:
        b[2] ^= 1   # not the header of an Apple binary
    return bytes(b)


def prodos(spec):
    b = bytearray(prng(spec.get("s", 3), 143360))
    b[0:4] = bytes.fromhex("0138b003")
    return bytes(b)


def build(spec):
    """the bytes of an image"""
    k = spec["k"]
    if k == "raw":
        raw = mkdata(spec["data"])
        if "head" in spec:
            h = bytes.fromhex(spec["head"])
            raw = h + raw[len(h):]
    elif k == "file":
        raw = repo_bytes(*spec["path"])
        if spec.get("strip"):
            raw = raw[16:]
    elif k == "fs":
        d = spec["disk"]
        raw = (AtariFS if d["fs"] == "atari" else Dos33FS)(d).raw
    elif k == "foreign":
        d = spec["disk"]
        raw = (ref_foreign.AtariDisk if d["fs"] == "atari" else ref_foreign.AppleDisk)(d).raw
    elif k == "xex":
        raw = xex(spec)
    elif k == "cart":
        raw = cart(spec)
    elif k == "zip":
        raw = mkzip(spec)
    elif k == "comp":
        raw = comp(spec)
    elif k == "kboot":
        raw = kboot(spec)
    elif k == "sparta":
        raw = sparta(spec)
    elif k == "bootdisk":
        raw = bootdisk(spec)
    elif k == "bsave":
        raw = bsave(spec)
    elif k == "data":
        raw = data(spec)
    elif k == "prodos":
        raw = prodos(spec)
    elif k == "atr":
        raw = bytes.fromhex(spec["header"]) + build(spec["inner"])
    else:
        raise HarnessError("image kind %r" % k)
    if spec.get("muts"):
        raw = mutate(raw, spec["muts"])
    return raw


def where(raw, p):
    """position from a JSON value: int (from the end when negative), or
    ["s", sector, offset] for an Atari sector, ["t", track, sector, offset]"""
    n = len(raw)
    if isinstance(p, int):
        i = p if p >= 0 else n + p
    elif p[0] == "f":
        i = n * p[1] // 1000
    elif p[0] == "s":
        h = 16 if raw[:2] == b"\x96\x02" else 0
        ss = 256 if n - h in (183936, 184320) else 128
        if ss == 128 or n - h == 184320:
            i = (p[1] - 1) * ss
        elif p[1] <= 3:
            i = (p[1] - 1) * 128
        else:
            i = 384 + (p[1] - 4) * 256
        i += h + p[2]
    elif p[0] in ("ac", "my", "dc", "sp"):
        i = deep(raw, p)
    elif p[0] == "t":
        i = (p[1] * 16 + p[2]) * 256 + p[3]
    else:
        raise HarnessError("position %r" % (p,))
    return max(0, min(i, n))


def deep(raw, p):
    """position inside the structures of a disk, found by following them:
    ["ac", entry, k, offset]  k-th sector of the chain of an Atari DOS file
    ["my", entry, k, offset]  the same with the 16 bit links of MyDOS
    ["dc", entry, k, offset]  DOS 3.3: k = 0 the track/sector list, else the k-th data sector
    ["sp", entry, k, offset]  SpartaDOS: entry 0 is the root directory; k = 0 its sector map, else the k-th data sector
    Damaged structures make this land anywhere; that is fine.
    """
    _, entry, k, off = p
    raw = bytes(raw)

    def at(i, n=1):
        return int.from_bytes(raw[i:i + n], "little") if 0 <= i < len(raw) else 0

    h = 16 if raw[:2] == b"\x96\x02" else 0
    if p[0] == "dc":
        i = (17 * 16 + 15 - entry // 7) * 256 + 11 + 35 * (entry % 7)
        ts = (at(i) * 16 + at(i + 1)) * 256
        if k == 0:
            return ts + off
        return (at(ts + 10 + 2 * k) * 16 + at(ts + 11 + 2 * k)) * 256 + off
    if p[0] in ("ac", "my"):
        mask = 3 if p[0] == "ac" else 255
        i = where(raw, ["s", 361 + entry // 8, 16 * (entry % 8)])
        n = at(i + 3, 2)
        ss = 256 if len(raw) - h > 140000 else 128
        for _ in range(k):
            j = where(raw, ["s", n, 0])
            n = (at(j + ss - 3) & mask) << 8 | at(j + ss - 2)
        return where(raw, ["s", n, 0]) + (ss + off if off < 0 else off)
    ss = at(4, 2) if h else 128
    g = ref_sparta.Geo(ss or 128, 65535)

    def pos(n):
        return h + g.pos(n)[0] if n else 0
    m = pos(at(h + 9, 2))
    if entry:
        d = pos(at(m + 4, 2))
        m = pos(at(d + 23 * entry + 1, 2))
    if k == 0:
        return m + off
    return pos(at(m + 2 + 2 * k, 2)) + off


def relink(b, kind, entry, k, j):
    """make structures refer back to themselves
    ac, my: the k-th sector of an Atari DOS or MyDOS file is followed by its j-th
    dc: the track/sector list of a DOS 3.3 file is followed by itself (or by a data sector)
    cat: catalog sector k is followed by catalog sector j
    sp: the first sector map of a SpartaDOS file is followed by itself (or by a data sector)"""
    n = len(b)
    h = 16 if bytes(b[:2]) == b"\x96\x02" else 0
    if kind in ("ac", "my"):
        ss = 256 if n - h > 140000 else 128
        src, dst = deep(b, [kind, entry, k, 0]), deep(b, [kind, entry, j, 0])
        dst = sector_at(n - h, dst - h, ss)
        if src + ss <= n:
            keep = 0xfc if kind == "ac" else 0
            b[src + ss - 3] = (b[src + ss - 3] & keep) | ((dst >> 8) & (255 - keep))
            b[src + ss - 2] = dst & 255
    elif kind == "dc":
        src, dst = deep(b, ["dc", entry, 0, 0]), deep(b, ["dc", entry, j, 0]) // 256
        if src + 3 <= n:
            b[src + 1:src + 3] = bytes([(dst // 16) & 255, dst % 16])
    elif kind == "cat":
        src = (17 * 16 + 15 - k) * 256
        if src + 3 <= n:
            b[src + 1:src + 3] = bytes([17, 15 - j])
    else:
        src = deep(b, ["sp", entry, 0, 0])
        ss = int.from_bytes(bytes(b[4:6]), "little") if h else 128
        dst = sector_at(n - h, deep(b, ["sp", entry, j, 0]) - h, ss or 128)
        if src + 2 <= n:
            b[src:src + 2] = le16(dst)


def sector_at(size, pos, ss):
    """number of the Atari sector at a position"""
    if ss == 128 or size == 184320:
        return max(0, pos) // ss + 1
    return max(0, pos - 384) // ss + 4


def mutate(raw, muts):
    b = bytearray(raw)
    for m in muts:
        op = m[0]
        if op == "set":
            i = where(b, m[1])
            v = bytes.fromhex(m[2])
            v = v[:len(b) - i]
            b[i:i + len(v)] = v
        elif op == "xor":
            i = where(b, m[1])
            if i < len(b):
                b[i] ^= m[2]
        elif op == "cut":
            del b[where(b, m[1]):]
        elif op == "drop":
            i = where(b, m[1])
            del b[i:i + m[2]]
        elif op == "ins":
            i = where(b, m[1])
            b[i:i] = mkdata(m[2])
        elif op == "fill":
            i = where(b, m[1])
            n = min(m[2], len(b) - i)
            b[i:i + n] = bytes([m[3]]) * n
        elif op == "rnd":
            i = where(b, m[1])
            n = min(m[2], len(b) - i)
            b[i:i + n] = prng(m[3], n)
        elif op == "copy":
            i, j = where(b, m[1]), where(b, m[2])
            part = bytes(b[i:i + m[3]])
            part = part[:len(b) - j]
            b[j:j + len(part)] = part
        elif op == "app":
            b += mkdata(m[1])
        elif op == "link":
            relink(b, *m[1:])
        else:
            raise HarnessError("mutation %r" % (m,))
    return bytes(b)
