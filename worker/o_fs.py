"""Oracles of the file system properties (P01..P08)."""
from atrcopy import errors

from fsmodel import Engine, Oracle
from hutil import check, same, Violation
from props import register


def run_engine(case, oracle):
    e = Engine(case, oracle).run()
    labels = sorted(e.labels) + ["fs:%s" % case["disk"]["fs"], "src:%s" % case["disk"]["src"]]
    if case["disk"].get("density"):
        labels.append("density:%s/%s" % (case["disk"]["density"], case["disk"]["container"]))
    return e, labels


class Content(Oracle):
    def start(self, e):
        e.check_listing()
        for n in e.model:
            e.check_file(n)
        e.check_meta()

    def after(self, e, kind, name, data, before, after, exc, expect):
        Oracle.after(self, e, kind, name, data, before, after, exc, expect)
        if exc is not None and expect is None:
            raise Violation("%s of %r refused: %s %s" % (kind, name, type(exc).__name__, exc))
        if exc is None and expect not in (None, "any"):
            raise Violation("%s of %r succeeded although %s" % (kind, name, expect))
        self.last = name

    last = None

    def step(self, e):
        e.check_listing()
        if self.last in e.model:
            e.check_file(self.last)

    def finish(self, e):
        for n in e.model:
            e.check_file(n)
        e.check_meta()


def content(case):
    e, labels = run_engine(case, Content())
    return {"labels": labels, "nontrivial": e.stats["ok"] >= 2 and e.stats["deletes"] >= 1}


register("P01")(content)
register("P02")(content)


class Structure(Oracle):
    def verify(self, e):
        d = e.fs.disk(e.raw())
        bad = e.fs.fsck(d)
        if bad:
            raise Violation("; ".join(bad[:4]))
        got = sorted(x.name for x in d.live())
        check(got == sorted(e.model), "directory on disk holds %r, expected %r", got[:8], sorted(e.model)[:8])
        for x in d.live():
            same(x.data, e.model[x.name].back, "sectors of %r" % x.name)
            if not e.model[x.name].fresh:
                continue
            # names are padded with blanks, and the flags those of a normal file
            if e.fs.kind == "atari":
                same(x.raw[5:16], e.fs.ref.store_name(x.name), "stored name of %r" % x.name)
                check(x.flag == 0x42, "%r: flag in the directory is %02x", x.name, x.flag)
            else:
                same(x.raw[3:33], e.fs.ref.name30(x.name), "stored name of %r" % x.name)
                check(x.flag == e.fs.ref.TYPES[e.model[x.name].ftype], "%r: type byte in the catalog is %02x", x.name, x.flag)

    def step(self, e):
        self.verify(e)

    def start(self, e):
        self.verify(e)


def structure(case):
    e, labels = run_engine(case, Structure())
    return {"labels": labels, "nontrivial": e.stats["ok"] >= 2 and e.stats["deletes"] >= 1}


register("P03")(structure)
register("P04")(structure)


class Frame(Oracle):
    """only the bytes that belong to the operation's own file change"""

    def after(self, e, kind, name, data, before, after, exc, expect):
        Oracle.after(self, e, kind, name, data, before, after, exc, expect)
        if exc is not None or kind == "shred":
            return
        check(len(before) == len(after), "image changed size: %d -> %d", len(before), len(after))
        if before == after:
            return
        fs = e.fs
        d0, d1 = fs.disk(before), fs.disk(after)
        mine = set()
        slots = set()
        for d in (d0, d1):
            for x in d.live():
                if x.name == name:
                    mine.update(x.chain)
                    if fs.kind == "dos33":
                        mine.update(x.ts)
                        mine.discard(0)
                    slots.add(x.slot)
        allowed = set()
        if fs.kind == "atari":
            g = fs.g
            for n in mine:
                p, size = g.pos(n)
                allowed.update(range(p, p + size))
            for s in slots:
                p, _ = g.pos(361 + s // 8)
                p += 16 * (s % 8)
                allowed.update(range(p, p + 16))
            p, _ = g.pos(360)
            allowed.update((p + 3, p + 4))
            bits = [(p + 10 + n // 8, 0x80 >> (n & 7)) for n in mine if n < 720]
            if g.name == "ed":
                # the copy of the bit map in the second VTOC
                p, _ = g.pos(1024)
                allowed.update(range(p, p + 84))
        else:
            for n in mine:
                allowed.update(range(n * 256, n * 256 + 256))
            for s in slots:
                p = d0.catalog[s // 7] * 256 + 0xb + 35 * (s % 7)
                allowed.update(range(p, p + 35))
            v = 17 * 16 * 256
            allowed.update((v + 0x30, v + 0x31))
            bits = []
            for n in mine:
                t, s = divmod(n, 16)
                bits.append((v + 0x38 + 4 * t + (0 if s >= 8 else 1), 1 << (s & 7)))
        mask = {}
        for pos, b in bits:
            mask[pos] = mask.get(pos, 0) | b
        for i in range(len(before)):
            if before[i] != after[i] and i not in allowed and (before[i] ^ after[i]) & ~mask.get(i, 0):
                raise Violation("%s of %r changed byte %d (0x%02x -> 0x%02x), which belongs to something else: %s" % (
                    kind, name, i, before[i], after[i], where(fs, d0, i)))


def where(fs, d0, i):
    if fs.kind == "atari":
        for n in range(1, fs.g.max + 1):
            p, size = fs.g.pos(n)
            if p <= i < p + size:
                own = [x.name for x in d0.live() if n in x.chain]
                return "sector %d offset %d %s" % (n, i - p, own)
        return "header"
    n = i // 256
    own = [x.name for x in d0.live() if n in x.chain or n in x.ts]
    return "T%d S%d offset %d %s" % (n // 16, n % 16, i % 256, own)


def frame(case):
    e, labels = run_engine(case, Frame())
    return {"labels": labels, "nontrivial": len(e.model) >= 2 and e.stats["ok"] + e.stats["deletes"] >= 2}


register("P05")(frame)


class Atomic(Oracle):
    fails = 0

    def after(self, e, kind, name, data, before, after, exc, expect):
        Oracle.after(self, e, kind, name, data, before, after, exc, expect)
        if exc is None:
            if expect not in (None, "any"):
                raise Violation("%s of %r succeeded although %s" % (kind, name, expect))
            if expect == "any":
                # accepted after all: nothing to say, but the model no longer
                # knows the disk
                e.image = e.fs.open(before)
            return
        self.fails += 1
        same(after, before, "%s of %r failed with %s (%s): image" % (kind, name, type(exc).__name__, exc))
        e.check_listing()

    def finish(self, e):
        e.check_listing()
        for n in e.model:
            e.check_file(n)


def atomic(case):
    o = Atomic()
    e, labels = run_engine(case, o)
    return {"labels": labels, "nontrivial": o.fails >= 1 and len(e.model) >= 1}


register("P06")(atomic)


class Capacity(Oracle):
    def after(self, e, kind, name, data, before, after, exc, expect):
        Oracle.after(self, e, kind, name, data, before, after, exc, expect)
        if exc is not None and expect is None:
            raise Violation("%s of %r (%s bytes, %d sectors free, %d directory entries used) refused: %s %s" % (
                kind, name, len(data) if data is not None else "-", e.free, e.slots_used - e.deleted_slots, type(exc).__name__, exc))
        if exc is None and expect not in (None, "any"):
            raise Violation("%s of %r accepted although %s" % (kind, name, expect))
        if exc is not None and expect in ("disk full", "directory full"):
            both = not e.has_slot() and e.fs.need(len(data)) > e.free
            ok = (errors.NotEnoughSpaceOnDisk, errors.NoSpaceInDirectory) if both else \
                errors.NoSpaceInDirectory if expect == "directory full" else errors.NotEnoughSpaceOnDisk
            check(isinstance(exc, ok), "%s reported as %s", expect, type(exc).__name__)

    def step(self, e):
        d = e.fs.disk(e.raw())
        check(len(d.free) == e.free, "free sectors: %d in the disk's map, %d expected", len(d.free), e.free)
        if e.fs.kind == "atari":
            extra = 0
            if e.fs.g.max == 1040:
                p, _ = e.fs.g.pos(1024)
                extra = e.raw()[p + 122] + 256 * e.raw()[p + 123]
            check(e.image.unused_sectors == d.free_count + extra, "%d sectors reported free, the disk has %d", e.image.unused_sectors, d.free_count + extra)
            check("(%d free)" % (d.free_count + extra) in str(e.image), "%r does not say that %d sectors are free", str(e.image), d.free_count + extra)
            check(d.free_count == e.free + e.fs.bias, "free sector count on disk is %d, expected %d", d.free_count, e.free + e.fs.bias)
        v = e.image.get_vtoc_object()
        check(v.num_free_sectors == e.free, "reported free sectors: %d, expected %d", v.num_free_sectors, e.free)


def capacity(case):
    e, labels = run_engine(case, Capacity())
    near = e.stats["fail"] > 0 or e.free <= 2 or not e.has_slot()
    return {"labels": labels + (["at capacity"] if near else []), "nontrivial": near or e.stats["deletes"] > 0}


register("P07")(capacity)


class Shred(Oracle):
    n = 0

    def after(self, e, kind, name, data, before, after, exc, expect):
        Oracle.after(self, e, kind, name, data, before, after, exc, expect)
        if kind != "shred":
            return
        if exc is not None:
            raise Violation("shred failed: %s" % exc)
        self.n += 1
        d = e.fs.disk(before)
        want = bytearray(before)
        v = self.value
        for n in d.free:
            if e.fs.kind == "atari":
                p, size = e.fs.g.pos(n)
            else:
                p, size = n * 256, 256
            want[p:p + size] = bytes([v]) * size
        same(after, want, "image after shredding with %d" % v)
        e.check_listing()
        for n in e.model:
            e.check_file(n)


def shred(case):
    o = Shred()
    eng = Engine(case, o)
    orig = eng.op_shred

    def op(v):
        o.value = v
        orig(v)
    eng.op_shred = op
    eng.run()
    return {"labels": sorted(eng.labels), "nontrivial": o.n > 0 and len(eng.model) > 0}


register("P08")(shred)
