"""P25: disks as other programs leave them."""
import re

import numpy as np

import atrcopy
from atrcopy import errors
from atrcopy.ataridos import AtariDosDiskImage
from atrcopy.dos33 import Dos33DiskImage
from atrcopy.segments import SegmentData

from hutil import check, same, Violation, prng, quiet
from props import register
import ref_foreign as R

CLS = {"atari": AtariDosDiskImage, "apple": Dos33DiskImage}


def arr(raw):
    return np.frombuffer(raw, dtype=np.uint8).copy()


def recognised(raw, kind):
    """through the front door: opened as a disk of this kind"""
    try:
        with quiet():
            parser, _ = atrcopy.find_diskimage_from_data(arr(raw))
    except errors.AtrError as e:
        raise Violation("the disk is not recognised: %s %s" % (type(e).__name__, e))
    check(type(parser.image) is CLS[kind], "recognised as %s", type(parser.image).__name__)
    return parser.image, parser.segments


def direct(raw, kind):
    try:
        img = CLS[kind](SegmentData(arr(raw)))
        img.parse_segments()
    except errors.AtrError as e:
        raise Violation("the disk cannot be opened: %s %s" % (type(e).__name__, e))
    return img, img.segments


def live(disk):
    return [(i, r) for i, r in enumerate(disk.slots) if r["kind"] == "file"]


def check_disk(image, files, kind, what):
    """files: list of (slot, text name, record)"""
    got = list(image.files)
    check([d.filename for d in got] == [n for _, n, _ in files], "%s: lists %r, expected %r", what, [d.filename for d in got][:12], [n for _, n, _ in files][:12])
    for d, (slot, name, r) in zip(got, files):
        check(d.num_sectors == r["count"], "%s: %r listed with %d sectors, has %d", what, name, d.num_sectors, r["count"])
        lock = bool(r["flag"] & (0x20 if kind == "atari" else 0x80))
        check(bool(d.locked) == lock, "%s: %r listed locked=%s", what, name, d.locked)
        text = str(d)
        check(name.split(".")[0] in text, "%s: %r is not in its listing line %r", what, name, text)
        check(re.search(r"\b0*%d\b" % r["count"], text), "%s: sector count %d is not in %r", what, r["count"], text)
        check(("*" in text.split(")")[0]) == lock, "%s: lock mark wrong in %r", what, text)
        if kind == "apple":
            t = R.TYPES.get(r["flag"] & 0x7f)
            if t:
                check(d.file_type == t, "%s: %r listed as type %r, is %r", what, name, d.file_type, t)
        try:
            data = image.get_file(d)
        except errors.AtrError as e:
            raise Violation("%s: reading %r failed: %s %s" % (what, name, type(e).__name__, e))
        same(data, r["data"], "%s: contents of %r" % (what, name))
        first = [x for x in files if x[1] == name][0]
        if first[0] == slot:
            same(image.find_file(name), r["data"], "%s: find_file(%r)" % (what, name))


def check_free(image, n, what):
    check(image.unused_sectors == n, "%s: %s sectors reported free, the disk has %d", what, image.unused_sectors, n)
    check("(%d free)" % n in str(image), "%s: %r does not say that %d sectors are free", what, str(image), n)


def check_segments(segs, files):
    """each file appears among the segments with its bytes"""
    have = {}
    for s in segs:
        have.setdefault(s.tobytes(), 0)
    for slot, name, r in files:
        if r.get("holes"):
            continue
        check(r["data"] in have, "no segment holds the contents of %r", name)


@register("P25")
def foreign(case):
    kind = case["fs"]
    text = R.atari_text if kind == "atari" else R.apple_text
    disk = (R.AtariDisk if kind == "atari" else R.AppleDisk)(case)
    files = [(i, text(r["name"]), r) for i, r in live(disk)]
    labels = ["fs:" + (disk.var if kind == "atari" else "dos33")]
    if kind == "atari":
        labels.append("vtocs:%d" % disk.nv)
    image, segs = (recognised if case["front"] else direct)(disk.raw, kind)
    check_disk(image, files, kind, "as found")
    check_segments(segs, files)
    if kind == "atari":
        check_free(image, disk.counts(disk.raw), "as found")
    same(bytes(image.bytes[:].tobytes()), disk.raw, "looking at the disk")
    state = disk.raw
    for op in case.get("ops", []):
        state, files = (atari_op if kind == "atari" else apple_op)(disk, image, state, files, op, labels)
        check_disk(image, files, kind, "after %s" % op[0])
        if kind == "atari":
            check_free(image, disk.counts(state), "after %s" % op[0])
        image2, _ = direct(state, kind)
        check_disk(image2, files, kind, "reopened after %s" % op[0])
    feats = set()
    for i, r in enumerate(disk.slots):
        if r["kind"] == "del" and any(j > i for j, _, _ in files):
            feats.add("gap")
        if r["kind"] == "dir":
            feats.add("dir")
        if r["kind"] == "file":
            if r.get("wide"):
                feats.add("wide")
            if r.get("holes"):
                feats.add("holes")
            c = r["chain"]
            if kind == "atari" and max(c) >= 720:
                feats.add("high")
            if any(b != a + 1 for a, b in zip(c, c[1:])):
                feats.add("scattered")
            if len(r.get("ts", ())) > 1:
                feats.add("multits")
    labels += ["has:" + f for f in sorted(feats)]
    return {"labels": labels, "nontrivial": len(live(disk)) >= 2 and bool(feats)}


def pick_name(files, kind):
    for i in range(99):
        n = "NEW%d.FIL" % i
        if n not in [f[1] for f in files]:
            return n


def choose(files, op):
    """the file an operation is for: one of those with equal names, or any"""
    if op[0] == "deldup":
        names = [f[1] for f in files]
        files = [f for f in files if names.count(f[1]) > 1] or files
    return files[op[1] % len(files)]


def delobj(image, files, slot, labels):
    """the directory entry of this file, to be deleted by entry"""
    k = [f[0] for f in files].index(slot)
    if len([f for f in files if f[1] == files[k][1]]) > 1:
        labels.append("op:delete one of two")
    return image.files[k]


def unchanged_outside(before, after, allowed, what):
    """allowed: list of (pos, size)"""
    a = bytearray(before)
    b = bytearray(after)
    for p, z in allowed:
        a[p:p + z] = bytes(z)
        b[p:p + z] = bytes(z)
    if a != b:
        i = next(i for i in range(len(a)) if a[i] != b[i])
        raise Violation("%s changed byte %d of the image" % (what, i))


def atari_op(disk, image, before, files, op, labels):
    g = disk.g
    n0, c0 = disk.free_in(before), disk.counts(before)
    recs = dict((s, r) for s, _, r in files)
    if op[0] == "add":
        name = pick_name(files, "atari")
        data = prng(op[2], op[1])
        try:
            image.write_file(name, None, data)
        except errors.AtrError as e:
            low = [s for s in n0 if s < 720]
            reuse = [i for i in range(64) if disk.entry(before, i)[0] & 0x80 or disk.entry(before, i)[0] == 0]
            need = max(1, -(-len(data) // (g.ss - 3)))
            check(not reuse or need > len(low), "add of %d bytes refused with %d sectors free below 720 and %d entries: %s", len(data), len(low), len(reuse), e)
            same(image.bytes[:].tobytes(), before, "refused add")
            labels.append("op:addfail")
            return before, files
        after = image.bytes[:].tobytes()
        new = [i for i in range(64) if disk.entry(after, i) != disk.entry(before, i)]
        check(len(new) == 1, "add changed directory entries %r", new)
        slot = new[0]
        old = disk.entry(before, slot)
        check(old[0] == 0 or old[0] & 0x80, "add took over the directory entry with flag %02x", old[0])
        e = disk.entry(after, slot)
        body, chain = disk.follow(after, e[3] | e[4] << 8, bool(e[0] & 4), slot)
        check(body is not None, "the new file has a broken chain %r", chain[:6])
        same(body, data, "new file on disk")
        check(set(chain) <= n0, "the new file took sectors that were in use: %r", sorted(set(chain) - n0)[:6])
        rec = {"kind": "file", "flag": e[0], "count": len(chain), "data": data, "chain": chain}
        files = sorted([f for f in files] + [(slot, name, rec)], key=lambda f: f[0])
        want = n0 - set(chain)
        labels.append("op:add")
    else:
        if not files:
            return before, files
        slot, name, rec = choose(files, op)
        target = name
        if op[0] in ("delobj", "deldup"):
            target = delobj(image, files, slot, labels)
        else:
            slot, name, rec = [f for f in files if f[1] == name][0]
        try:
            image.delete_file(target)
        except errors.AtrError as e:
            raise Violation("delete of %r refused: %s %s" % (name, type(e).__name__, e))
        after = image.bytes[:].tobytes()
        chain = rec["chain"]
        e = disk.entry(after, slot)
        check(e[0] & 0x80 and not e[0] & 0x40, "deleted entry has flag %02x", e[0])
        for i in range(64):
            if i != slot:
                check(disk.entry(after, i) == disk.entry(before, i), "delete of %r changed entry %d", name, i)
        files = [f for f in files if f[0] != slot]
        want = n0 | set(chain)
        labels.append("op:del")
    now = disk.free_in(after)
    check(now == want, "%s %r: sectors wrongly free %r, wrongly allocated %r", op[0], name, sorted(now - want)[:6], sorted(want - now)[:6])
    check(disk.counts(after) - c0 == len(want) - len(n0), "%s: free sector count went from %d to %d for %d sectors", op[0], c0, disk.counts(after), len(chain))
    if disk.var == "dos25":
        p, p2 = g.pos(360)[0], g.pos(1024)[0]
        check(after[p2:p2 + 84] == after[p + 16:p + 100], "%s: the two copies of the bit map differ", op[0])
    allowed = [g.pos(s) for s in disk.vtoc_sectors] + [g.pos(s) for s in range(361, 369)]
    if op[0] == "add":
        allowed += [g.pos(s) for s in chain]
    unchanged_outside(before, after, allowed, op[0])
    return after, files


def apple_op(disk, image, before, files, op, labels):
    n0 = disk.free_in(before)

    def entries(raw):
        return [raw[disk.epos(i):disk.epos(i) + 35] for i in range(7 * len(disk.cat))]
    eb = entries(before)
    if op[0] == "add":
        name = pick_name(files, "apple")
        data = prng(op[2], op[1])
        need = max(1, -(-len(data) // 256))
        need += -(-need // 122)
        try:
            image.write_file(name, "B", data)
        except errors.AtrError as e:
            reuse = [x for x in eb if x[0] in (0, 0xff)]
            check(not reuse or need > len(n0), "add of %d bytes refused with %d sectors free: %s", len(data), len(n0), e)
            same(image.bytes[:].tobytes(), before, "refused add")
            labels.append("op:addfail")
            return before, files
        after = image.bytes[:].tobytes()
        ea = entries(after)
        new = [i for i in range(len(ea)) if ea[i] != eb[i]]
        check(len(new) == 1, "add changed catalog entries %r", new)
        slot = new[0]
        check(eb[slot][0] in (0, 0xff), "add took over a live catalog entry")
        e = ea[slot]
        body, chain = disk.follow(after, e[0], e[1])
        check(body is not None, "the new file has a broken sector list")
        same(body, data + bytes(len(body) - len(data)), "new file on disk")
        check(set(chain) <= n0, "the new file took sectors that were in use: %r", sorted(set(chain) - n0)[:6])
        rec = {"kind": "file", "flag": e[2], "count": len(chain), "data": body, "chain": chain, "ts": []}
        files = sorted(files + [(slot, name, rec)], key=lambda f: f[0])
        want = n0 - set(chain)
        labels.append("op:add")
    else:
        if not files:
            return before, files
        slot, name, rec = choose(files, op)
        target = name
        if op[0] in ("delobj", "deldup"):
            target = delobj(image, files, slot, labels)
        else:
            slot, name, rec = [f for f in files if f[1] == name][0]
        try:
            image.delete_file(target)
        except errors.AtrError as e:
            raise Violation("delete of %r refused: %s %s" % (name, type(e).__name__, e))
        after = image.bytes[:].tobytes()
        ea = entries(after)
        check(ea[slot][0] == 0xff, "deleted entry starts with %02x", ea[slot][0])
        check([x for i, x in enumerate(ea) if i != slot] == [x for i, x in enumerate(eb) if i != slot], "delete of %r changed other entries", name)
        files = [f for f in files if f[0] != slot]
        chain = list(rec["chain"]) + list(rec.get("ts", ()))
        want = n0 | set(chain)
        labels.append("op:del")
    now = disk.free_in(after)
    check(now == want, "%s %r: sectors wrongly free %r, wrongly allocated %r", op[0], name, sorted(now - want)[:6], sorted(want - now)[:6])
    allowed = [(s * 256, 256) for s in [17 * 16] + disk.cat]
    if op[0] == "add":
        allowed += [(s * 256, 256) for s in chain]
    unchanged_outside(before, after, allowed, op[0])
    return after, files
