"""History engine for the writable file systems.

A case is {"disk": {...}, "ops": [...]}.  The engine opens the disk with the
code under test, applies the operations, keeps an independent model of what
must be on the disk, and calls back into a property's oracle.
"""
import numpy as np

import atrcopy
from atrcopy import errors
from atrcopy.segments import SegmentData
from atrcopy.ataridos import AtariDosDiskImage
from atrcopy.dos33 import Dos33DiskImage

import ref_atari
import ref_dos33
from hutil import Violation, HarnessError, check, mkdata, same, scratch, repo_bytes, prng, quiet

BOOT20 = bytes.fromhex("000300074015" "4c1407" "0303" "00" "7c1a" "00" "0400" "7d" "cb07")


class AtariFS:
    kind = "atari"
    ref = ref_atari

    def __init__(self, spec):
        if spec["src"] == "template":
            self.raw = repo_bytes("atrcopy", "templates", spec["name"])
        elif spec["src"] == "test":
            self.raw = repo_bytes("test_data", spec["name"])
        else:
            self.raw = self.build(spec)
        if spec.get("strip"):  # XFD from an ATR
            self.raw = self.raw[16:]
        self.baseline()

    def baseline(self):
        d = ref_atari.Disk(self.raw)
        self.g = d.g
        self.reserved = d.reserved()
        self.bias = d.free_count - len(d.free)
        self.mirror = ref_atari.mirrored(d)
        for e in d.live():
            if e.error:
                raise HarnessError("baseline disk is bad: %s" % e.error)

    def build(self, spec):
        files = []
        used = set()
        slot = -1
        names = set()
        for f in spec["files"]:
            slot += 1 + f.get("gap", 0)
            if slot > 63:
                break
            if "raw11" in f:
                nm = f["raw11"].encode("latin1").ljust(11)[:11]
            else:
                nm = ref_atari.store_name(f["name"])
            if ref_atari.text_name(nm) in names:
                continue
            names.add(ref_atari.text_name(nm))
            files.append(dict(slot=slot, name=nm, flag=f.get("flag", 0x42), data=mkdata(f["data"]), order=f.get("order")))
        dele = []
        if spec.get("tail_deleted"):
            for i in range(spec["tail_deleted"]):
                slot += 1
                if slot <= 63:
                    dele.append(dict(slot=slot, name=b"OLD%-5dDEL" % i))
        extra = set(spec.get("extra_alloc", ()))
        if spec.get("avail") is not None:
            # only this many sectors are free, the rest is allocated to nothing
            usable = [n for n in range(4, 720) if n not in ref_atari.SYSTEM]
            extra |= set(usable[spec["avail"]:])
        raw = bytearray(ref_atari.build(spec["density"], spec["container"], files, dele,
                                        boot_seed=spec.get("boot", 1), extra_alloc=extra))
        off = 16 if spec["container"] == "atr" else 0
        raw[off:off + 20] = BOOT20
        return bytes(raw)

    def open(self, raw):
        return AtariDosDiskImage(SegmentData(np.frombuffer(raw, dtype=np.uint8).copy()))

    def disk(self, raw):
        return ref_atari.Disk(raw)

    def fsck(self, disk):
        return ref_atari.fsck(disk, self.reserved, self.bias, mirror=self.mirror)

    @property
    def payload(self):
        return self.g.ss - 3

    max_slots = 64

    def need(self, n):
        return max(1, (n + self.payload - 1) // self.payload)

    def capacity(self, sectors):
        return sectors * self.payload

    def norm(self, name):
        return ref_atari.text_name(ref_atari.store_name(name))

    def readback(self, data):
        return data

    def data_at_least(self, raw_data, data):
        return raw_data == data

    def ftype(self, t):
        return None


class Dos33FS:
    kind = "dos33"
    ref = ref_dos33

    def __init__(self, spec):
        if spec["src"] == "template":
            self.raw = repo_bytes("atrcopy", "templates", spec["name"])
        elif spec["src"] == "test":
            self.raw = repo_bytes("test_data", spec["name"])
        else:
            self.raw = self.build(spec)
        d = ref_dos33.Disk(self.raw)
        self.reserved = d.reserved()
        self.max_slots = d.max_entries
        self.known_bad = set(ref_dos33.fsck(d, self.reserved))
        for e in d.live():
            if e.error:
                raise HarnessError("baseline disk is bad: %s" % e.error)

    def build(self, spec):
        files = []
        slot = -1
        names = set()
        cl = spec.get("catalog_len", 15)
        for f in spec["files"]:
            slot += 1 + f.get("gap", 0)
            if slot >= cl * 7:
                break
            nm = self.norm(f["name"])
            if nm in names or not nm:
                continue
            names.add(nm)
            files.append(dict(slot=slot, name30=ref_dos33.name30(nm), flag=f.get("flag", 4), data=mkdata(f["data"]),
                              order=f.get("order"), ts_first=f.get("ts_first", True)))
        dele = []
        for i in range(spec.get("tail_deleted", 0)):
            slot += 1
            if slot < cl * 7:
                dele.append(dict(slot=slot, name30=ref_dos33.name30("OLD%d" % i)))
        raw = bytearray(ref_dos33.build(files, dele, boot_seed=spec.get("boot", 1), sys_tracks=spec.get("sys_tracks", 3), catalog_len=cl))
        raw[0:4] = b"\x01\xa5\x27\xc9"
        if spec.get("avail") is not None:
            d = ref_dos33.Disk(bytes(raw))
            for n in sorted(d.free)[spec["avail"]:]:
                t, s = divmod(n, 16)
                i = 17 * 16 * 256 + 0x38 + 4 * t + (0 if s >= 8 else 1)
                raw[i] &= 0xff ^ (1 << (s & 7))
        return bytes(raw)

    def open(self, raw):
        return Dos33DiskImage(SegmentData(np.frombuffer(raw, dtype=np.uint8).copy()))

    def disk(self, raw):
        return ref_dos33.Disk(raw)

    def fsck(self, disk):
        # damage that was on the disk to start with is not held against anyone
        return [x for x in ref_dos33.fsck(disk, self.reserved) if x not in self.known_bad]

    payload = 256

    def need(self, n):
        nd = max(1, (n + 255) // 256)
        return nd + (nd + 121) // 122

    def capacity(self, sectors):
        """largest data size that occupies exactly `sectors` or fewer"""
        if sectors <= 0:
            return 0
        nd = sectors - 1
        while nd > 0 and nd + (nd + 121) // 122 > sectors:
            nd -= 1
        return nd * 256

    def norm(self, name):
        return name[:30].rstrip(" ")

    def readback(self, data):
        n = max(1, (len(data) + 255) // 256) * 256
        return data + b"\0" * (n - len(data))

    def ftype(self, t):
        return t if t in ref_dos33.TYPES else "B"


class MFile:
    __slots__ = ("data", "ftype", "locked", "need", "count", "back", "damaged", "fresh")

    def __init__(self, data, back, need, ftype, locked=False, count=None):
        self.data, self.back, self.need, self.ftype, self.locked = data, back, need, ftype, locked
        self.count = need if count is None else count
        self.damaged = False
        self.fresh = False   # written by the library


TYPE_TEXT = {v: k for k, v in ref_dos33.TYPES.items()}


class Engine:
    def __init__(self, case, oracle):
        spec = case["disk"]
        self.fs = Dos33FS(spec) if spec["fs"] == "dos33" else AtariFS(spec)
        self.case = case
        self.oracle = oracle
        self.labels = set()
        self.model = {}
        self.stats = dict(ok=0, fail=0, deletes=0, reopen=0)
        d = self.fs.disk(self.fs.raw)
        self.slots_used = len(d.entries)   # high water mark, incl. deleted
        self.deleted_slots = sum(1 for e in d.entries if e not in d.live())
        for e in d.live():
            name = e.name
            if name in self.model:
                raise HarnessError("duplicate name on the starting disk: %r" % name)
            ft = TYPE_TEXT.get(e.ftype, "?") if self.fs.kind == "dos33" else None
            own = set(e.chain) | set(getattr(e, "ts", ()))
            self.model[name] = MFile(e.data, e.data, len(own - {0}), ft, e.locked, e.count)
        self.free = len([n for n in d.free])
        self.image = self.fs.open(self.fs.raw)
        self.origin = "direct"

    # what the model predicts
    def has_slot(self):
        return self.deleted_slots > 0 or self.slots_used < self.fs.max_slots

    def raw(self):
        return bytes(self.image.bytes.tobytes())

    def take_slot(self):
        if self.deleted_slots:
            self.deleted_slots -= 1
        else:
            self.slots_used += 1

    def label(self, *ls):
        self.labels.update(ls)

    # operations ------------------------------------------------------
    def run(self):
        o = self.oracle
        o.start(self)
        for op in self.case["ops"]:
            getattr(self, "op_" + op[0])(*op[1:])
        o.finish(self)
        return self

    def attempt(self, kind, fn, expect, name=None, data=None):
        """run one mutation; `expect` is None (must succeed) or a reason"""
        before = self.raw()
        exc = None
        try:
            fn()
        except Exception as e:
            exc = e
        after = self.raw()
        self.oracle.after(self, kind, name, data, before, after, exc, expect)
        return exc

    def write(self, name, data, ftype=None):
        stored = self.fs.norm(name)
        if stored in self.model:
            if not self.delete(stored):
                return False
        need = self.fs.need(len(data))
        expect = None
        if not self.has_slot():
            expect = "directory full"
        elif need > self.free:
            expect = "disk full"
        exc = self.attempt("write", lambda: self.image.write_file(name, ftype, data), expect, stored, data)
        if exc is None:
            self.model[stored] = MFile(data, self.fs.readback(data), need, self.fs.ftype(ftype))
            self.model[stored].fresh = True
            self.take_slot()
            self.free -= need
            self.stats["ok"] += 1
            if need > 122:
                self.label("multi-ts" if self.fs.kind == "dos33" else "large")
        else:
            self.stats["fail"] += 1
            self.label("refused: %s" % expect)
        self.oracle.step(self)
        return exc is None

    def delete(self, name, via_dirent=False):
        target = name
        if via_dirent:
            target = [d for d in self.image.files if d.filename == name][0]
        need = self.model[name].need
        expect = "its sectors cannot be followed" if self.model[name].damaged else None
        exc = self.attempt("delete", lambda: self.image.delete_file(target), expect, name, None)
        if exc is None:
            del self.model[name]
            self.deleted_slots += 1
            self.free += need
            self.stats["deletes"] += 1
        self.oracle.step(self)
        return exc is None

    def op_w(self, name, dspec, ftype=None):
        self.write(name, mkdata(dspec), ftype)

    def op_d(self, k):
        if self.model:
            names = list(self.model)
            self.delete(names[k % len(names)])

    def op_dobj(self, k):
        if self.model:
            names = list(self.model)
            self.delete(names[k % len(names)], via_dirent=True)

    def op_dall(self):
        for n in list(self.model):
            self.delete(n)
        self.label("deleted everything")

    def op_dalt(self, m):
        for i, n in enumerate(list(self.model)):
            if i % (m + 2) == 0:
                self.delete(n)

    def op_fill(self, name, k, delta, seed=0):
        n = self.fs.capacity(self.free - k) + delta
        if 0 <= n < 400000:
            self.label("fill")
            self.write(name, prng(seed, n))

    def op_many(self, prefix, count, n):
        for i in range(count):
            self.write("%s%d" % (prefix, i), prng(i, n))
        self.label("many")

    def op_dmiss(self, name):
        if self.fs.norm(name) in self.model or name in self.model:
            return
        self.attempt("delete", lambda: self.image.delete_file(name), "missing", name)
        self.label("delete missing")
        self.oracle.step(self)

    def op_shred(self, v):
        self.attempt("shred", lambda: self.image.shred(v), None)
        self.label("shred")
        self.oracle.step(self)

    def op_badname(self, name, dspec):
        data = mkdata(dspec)
        self.attempt("write", lambda: self.image.write_file(name, None, data), "any", name, data)
        self.label("bad name")
        self.oracle.step(self)

    def op_baddata(self, name, what):
        bad = {"str": "text", "none": None, "int": 7, "tuple": (1, 2), "biglist": [1, "x"]}[what]
        if self.fs.norm(name) in self.model:
            return
        self.attempt("write", lambda: self.image.write_file(name, None, bad), "any", name, None)
        self.label("bad data")
        self.oracle.step(self)

    def op_hurt(self, kind, which, k, j):
        """damage the chain of a file so that it cannot be followed"""
        names = [n for n in self.model if not self.model[n].damaged]
        if not names:
            return
        name = names[which % len(names)]
        raw = bytearray(self.raw())
        d = self.fs.disk(bytes(raw))
        e = [x for x in d.live() if x.name == name][0]
        if self.fs.kind == "atari":
            g = self.fs.g
            if not e.flag & 2:
                return   # DOS 1 file
            k %= len(e.chain)
            p, size = g.pos(e.chain[k])
            p += size - 3
            if kind == "num":
                raw[p] ^= 4 << (j % 6)
            else:
                to = e.chain[j % (k + 1)] if kind == "loop" else 721 + j
                if to > 1023 or (kind == "far" and to <= g.max):
                    return
                raw[p] = (raw[p] & 0xfc) | (to >> 8)
                raw[p + 1] = to & 255
        else:
            ts = e.ts[k % len(e.ts)]
            if kind == "loop":
                to = e.ts[j % (k % len(e.ts) + 1)]
                raw[ts * 256 + 1:ts * 256 + 3] = bytes([to // 16, to % 16])
            elif kind == "far":
                # list continues on a track that does not exist
                raw[ts * 256 + 1:ts * 256 + 3] = bytes([35 + j, j % 16])
            else:
                # a data sector on a track that does not exist
                i = ts * 256 + 12 + 2 * (j % 122)
                if not raw[i]:
                    i = ts * 256 + 12
                raw[i] = 35 + j
        self.image = self.fs.open(bytes(raw))
        self.model[name].damaged = True
        self.label("damaged %s" % kind)

    def op_reopen(self, via="find"):
        raw = self.raw()
        if via == "find":
            with scratch() as d, quiet():
                p = d + "/disk.img"
                self.image.save(p)
                with open(p, "rb") as fh:
                    saved = fh.read()
                same(saved, raw, "saved file vs image")
                parser, mime = atrcopy.find_diskimage(p)
                image = parser.image
            want = "Dos33DiskImage" if self.fs.kind == "dos33" else "AtariDosDiskImage"
            check(type(image).__name__ == want, "reopened disk is recognised as %s", type(image).__name__)
        else:
            image = self.fs.open(raw)
        self.image = image
        self.stats["reopen"] += 1
        self.label("reopen")
        same(self.raw(), raw, "image bytes after reopening")
        self.oracle.step(self)

    # observations ----------------------------------------------------
    def listing(self):
        return [d.filename for d in self.image.files]

    def check_listing(self):
        got = sorted(self.listing())
        want = sorted(self.model)
        check(got == want, "listing: got %r want %r", [n for n in got if n not in want][:5] + got[:3], [n for n in want if n not in got][:5])

    def check_file(self, name):
        f = self.model[name]
        if f.damaged:
            return
        same(self.image.find_file(name), f.back, "contents of %r" % name)

    def check_meta(self):
        for d in self.image.files:
            f = self.model[d.filename]
            check(bool(d.locked) == f.locked, "%r: locked is %r, should be %r", d.filename, d.locked, f.locked)
            if self.fs.kind == "dos33":
                check(d.file_type == f.ftype, "%r: type is %r, should be %r", d.filename, d.file_type, f.ftype)
            check(d.num_sectors == f.count, "%r: listed with %d sectors, should be %d", d.filename, d.num_sectors, f.count)


class Oracle:
    """Callbacks of a property.  The default treats an exception that is not
    one of the library's own errors as a violation everywhere."""

    def start(self, e):
        pass

    def step(self, e):
        pass

    def finish(self, e):
        pass

    def after(self, e, kind, name, data, before, after, exc, expect):
        if exc is not None and not isinstance(exc, errors.AtrError) and expect != "any":
            raise exc
