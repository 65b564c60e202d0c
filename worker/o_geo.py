"""Sector geometry and disk headers (P18)."""
import numpy as np

import atrcopy
from atrcopy import errors
from atrcopy.ataridos import AtrHeader, XfdHeader, AtariDiskImage, AtariDosDiskImage, add_atr_header
from atrcopy.dos33 import Dos33DiskImage
from atrcopy.segments import SegmentData

import mkimg
from hutil import Violation, HarnessError, check, same, mkdata, prng, quiet
from props import register


def arr(b):
    return np.frombuffer(b, dtype=np.uint8).copy()


def sector_sizes(payload, ss):
    """sizes of the sectors in order, from the ATR format description"""
    std = {92160: (128, 0), 133120: (128, 0), 184320: (256, 0), 183936: (256, 3)}
    if payload in std:
        ss, short = std[payload]
    else:
        short = 3 if ss == 256 and payload % 256 == 128 else 0
    n = short + (payload - 128 * short) // ss
    return [128 if i < short else ss for i in range(n)]


def refused(fn, *a):
    try:
        fn(*a)
    except errors.AtrError:
        return True
    return False


def check_geometry(img, raw, offset, first, sizes, picks, what):
    h = img.header
    n = len(sizes)
    check(h.max_sectors == n, "%s: %d sectors, expected %d", what, h.max_sectors, n)
    pos = offset
    table = {}
    it = list(h.iter_sectors())
    check([t[0] for t in it] == list(range(first, first + n)), "%s: sectors iterated are %s..., expected %d to %d", what, [t[0] for t in it][:3], first, first + n - 1)
    for (num, p, s), want in zip(it, sizes):
        check(p == pos and s == want, "%s: sector %d is at %d size %d, expected at %d size %d", what, num, p, s, pos, want)
        check(tuple(h.get_pos(num)) == (pos, want), "%s: get_pos(%d) differs from the iteration", what, num)
        check(h.sector_is_valid(num), "%s: sector %d not valid", what, num)
        table[num] = (pos, want)
        pos += want
    for bad in (first - 1, first + n, first + n + 1, -1, -5, 65535, 100000, first - 2):
        if first <= bad < first + n:
            continue
        check(not h.sector_is_valid(bad), "%s: sector %d is valid", what, bad)
        for fn in (h.get_pos, img.get_raw_bytes, img.get_sectors, img.get_sector_slice):
            check(refused(fn, bad), "%s: sector %d not refused by %s", what, bad, fn.__name__)
        check(refused(img.get_sectors, first, max(bad, first + n)), "%s: range up to %d not refused", what, max(bad, first + n))
    data = bytes(raw)
    for a, k in picks:
        a = first + a % n
        b = min(first + n - 1, a + k)
        p0 = table[a][0]
        p1 = table[b][0] + table[b][1]
        got, style = img.get_sectors(a, b)
        same(got.tobytes(), data[p0:p1], "%s: sectors %d-%d" % (what, a, b))
        check(len(style) == p1 - p0, "%s: style of sectors %d-%d", what, a, b)
        sl = img.get_sector_slice(a, b)
        check((sl.start, sl.stop) == (p0, p1), "%s: slice of sectors %d-%d is %s, expected %d:%d", what, a, b, sl, p0, p1)
        st, cnt = img.get_contiguous_sectors(a, b - a + 1)
        check((st, cnt) == (p0, p1 - p0), "%s: contiguous sectors %d-%d are at %d length %d, expected %d length %d", what, a, b, st, cnt, p0, p1 - p0)
        got, p, s = img.get_raw_bytes(a)
        same(got.tobytes(), data[table[a][0]:sum(table[a])], "%s: sector %d" % (what, a))
        check((p, s) == table[a], "%s: get_raw_bytes(%d) position", what, a)
    return table


def check_labels(parser, img, table, apple, what):
    """the label of a byte names the sector it is in and its offset there"""
    order = sorted((p, n, s) for n, (p, s) in table.items())
    starts = [o[0] for o in order]
    import bisect
    for seg in parser.segments:
        if not isinstance(seg, atrcopy.RawSectorsSegment) or not len(seg):
            continue
        n = len(seg)
        idx = sorted(set([0, 1, n - 1, n // 2, n // 3] + [i for i in (127, 128, 255, 256, 383, 384, 385, 512, 639, 640) if i < n]))
        base = seg.byte_bounds_offset()[0]
        for i in idx:
            k = bisect.bisect_right(starts, base + i) - 1
            if k < 0:
                continue
            p, num, size = order[k]
            off = base + i - p
            if off >= size:
                continue
            if apple:
                want = "t%02ds%02d:%02x" % (num // 16, num % 16, off)
            else:
                want = "s%03d:%02x" % (num, off)
            got = seg.label(i)
            check(got == want, "%s: byte %d of %r is labelled %s, it is %s", what, i, seg.name, got, want)
            check(seg.label(i, False) == want[:-2] + want[-2:].upper(), "%s: upper case label %s", what, seg.label(i, False))


@register("P18")
def p18(case):
    t = case["t"]
    labels = ["t:" + t]
    if t == "header":
        b = bytes.fromhex("9602" + case["bytes"])
        a = arr(b)
        try:
            h = AtrHeader(a)
        except errors.AtrError:
            ss = b[4] | b[5] << 8
            check(ss not in (128, 256, 512, 1024), "header %s with sector size %d refused", b.hex(), ss)
            return {"labels": labels + ["refused"], "nontrivial": False}
        same(h.to_array().tobytes(), b, "header decoded and encoded again")
        same(a.tobytes(), b, "reading a header changed it")
        buf = np.zeros(16, dtype=np.uint8)
        h.encode(buf)
        same(buf.tobytes(), b, "header encoded in place")
        check(len(h) == 16, "length of the header is %d", len(h))
        check(h.image_size == ((b[6] << 16) + (b[3] << 8) + b[2]) * 16, "image size of header %s is %d", b.hex(), h.image_size)
        check(h.sector_size == b[4] | b[5] << 8, "sector size of header %s is %d", b.hex(), h.sector_size)
        return {"labels": labels, "nontrivial": True}
    if t == "apple":
        raw = mkimg.build(case["img"])
        img = Dos33DiskImage(SegmentData(arr(raw)))
        table = check_geometry(img, raw, 0, 0, [256] * 560, case["picks"], "DOS 3.3")
        for n in range(560):
            tr, s = img.header.track_from_sector(n)
            check((int(tr), int(s)) == (n // 16, n % 16), "sector %d is track %d sector %d", n, tr, s)
            check(img.header.sector_from_track(tr, s) == n, "track %d sector %d is sector %d, not %d", tr, s, img.header.sector_from_track(tr, s), n)
        parser, mime = atrcopy.find_diskimage_from_data(arr(raw))
        check_labels(parser, img, table, True, "DOS 3.3")
        return {"labels": labels, "nontrivial": True}
    if t == "image":
        raw = mkimg.build(case["img"])
        off = 16 if raw[:2] == b"\x96\x02" else 0
        ss = raw[4] | raw[5] << 8 if off else 128
        payload = raw[off:]
        sizes = sector_sizes(len(payload), ss)
        parser, mime = atrcopy.find_diskimage_from_data(arr(raw))
        img = parser.image
        what = "%s (%d bytes, header %d)" % (type(img).__name__, len(payload), off)
        labels.append("found:" + type(img).__name__)
        table = check_geometry(img, raw, off, 1, sizes, case["picks"], what)
        check_labels(parser, img, table, False, what)
        if len(payload) in (92160, 133120, 183936, 184320):
            newb = convert(img, raw, payload, labels)
        return {"labels": labels, "nontrivial": True}
    # plain: bytes of a given size and sector size without any file system
    ss = case["ss"]
    n = case["n"]
    if case["header"] and ss != 256 and n in (183936, 184320):
        n -= 512  # a header that contradicts the size of a standard disk
    payload = prng(case["s"], n)
    sizes = sector_sizes(n, ss)
    if not sizes:
        return {"labels": labels, "nontrivial": False}
    raw = mkimg.atr(payload, ss) if case["header"] else payload
    off = 16 if case["header"] else 0
    if case["header"] and len(sizes) and n % 16:
        raise HarnessError("size")
    img = AtariDiskImage(SegmentData(arr(raw)))
    what = "%d bytes in %d byte sectors, header %d" % (n, ss, off)
    check_geometry(img, raw, off, 1, sizes, case["picks"], what)
    labels.append("short" if sizes[0] != sizes[-1] else "uniform")
    if case["header"]:
        same(img.header.to_array().tobytes(), raw[:16], "header of the image encoded again")
    if n % 128 == 0 and (ss == 128 or n in (183936, 184320)):
        new = add_atr_header(arr(payload))
        same(new[16:].tobytes(), payload, "data after adding a header")
        h = new[:16].tobytes()
        size = ((h[6] << 16) + (h[3] << 8) + h[2]) * 16
        check(h[:2] == b"\x96\x02" and size == n, "added header %s does not describe %d bytes", h.hex(), n)
        check(h[4] | h[5] << 8 == (256 if n in (183936, 184320) else 128), "added header has sector size %d for %d bytes", h[4] | h[5] << 8, n)
        img2 = AtariDiskImage(SegmentData(new))
        check_geometry(img2, new.tobytes(), 16, 1, sector_sizes(n, 256 if n in (183936, 184320) else 128), case["picks"], what + " with added header")
        labels.append("added")
    return {"labels": labels, "nontrivial": True}


def convert(img, raw, payload, labels):
    new = img.as_new_format("ATR")
    b = new.rawdata.get_data().tobytes()
    same(b[16:], payload, "sectors after converting to ATR")
    same(b[:16], mkimg.atr(payload, 256 if len(payload) > 140000 else 128)[:16], "header after converting to ATR")
    check([str(d) for d in new.files] == [str(d) for d in img.files], "files after converting to ATR: %s", [str(d) for d in new.files])
    for d, d0 in zip(new.files, img.files):
        try:
            want = img.get_file(d0)
        except errors.AtrError:
            continue
        same(new.get_file(d), want, "file %s after converting to ATR" % d.filename)
    same(img.rawdata.get_data().tobytes(), raw, "original after converting to ATR")
    labels.append("converted")
    return b
