"""Independent reference reader / writer for Apple DOS 3.3 (Beneath Apple DOS
ch. 4).  Pure Python; shares nothing with atrcopy.

35 tracks x 16 sectors x 256 bytes.  VTOC at T17 S0: 1-2 first catalog
sector, 27 max T/S pairs (122), 34 tracks, 35 sectors, 36-37 sector size,
38.. four bytes per track: bit for sectors F..8, 7..0, 1 = free.
Catalog sector: 1-2 next, seven 35 byte entries from 0B: T/S of the list
(00 never used, FF deleted with the track moved to 20), type and lock bit,
30 name bytes (high bit set), 21-22 number of sectors.
"""
import struct

TOTAL = 35 * 16
SIZE = TOTAL * 256
TYPES = {"T": 0, "I": 1, "A": 2, "B": 4, "S": 8, "R": 0x10, "a": 0x20, "b": 0x40}


class Entry:
    __slots__ = ("slot", "raw", "track", "sector", "flag", "count", "name", "ts", "chain", "data", "error", "deleted")

    @property
    def locked(self):
        return bool(self.flag & 0x80)

    @property
    def ftype(self):
        return self.flag & 0x7f


def text_name(raw30):
    return bytes(b & 0x7f for b in raw30).decode("ascii").rstrip(" ")


class Disk:
    def __init__(self, raw):
        self.raw = raw = bytes(raw)
        assert len(raw) == SIZE
        v = self.sec(17 * 16)
        self.vtoc = v
        self.pairs = v[0x27]
        self.error = None
        self.catalog = []
        n = v[1] * 16 + v[2]
        while n:
            if n in self.catalog or n >= TOTAL:
                self.error = "catalog chain broken at sector %d" % n
                break
            self.catalog.append(n)
            s = self.sec(n)
            n = s[1] * 16 + s[2]
        self.entries = []
        self.max_entries = 7 * len(self.catalog)
        ended = False
        for c in self.catalog:
            s = self.sec(c)
            for i in range(7):
                r = s[0xb + i * 35:0xb + (i + 1) * 35]
                if r[0] == 0:
                    ended = True
                if ended:
                    continue
                e = Entry()
                e.slot = len(self.entries)
                e.raw = r
                e.track, e.sector, e.flag = r[0], r[1], r[2]
                e.deleted = r[0] == 0xff
                e.name = text_name(r[3:33])
                e.count = struct.unpack("<H", r[33:35])[0]
                e.ts, e.chain, e.data, e.error = [], [], b"", None
                self.entries.append(e)
                if not e.deleted:
                    self.follow(e)
        self.free = set()
        for t in range(50):
            hi, lo = v[0x38 + 4 * t], v[0x38 + 4 * t + 1]
            w = hi << 8 | lo
            for s in range(16):
                if w & (1 << s):
                    self.free.add(t * 16 + s)

    def sec(self, n):
        return self.raw[n * 256:(n + 1) * 256]

    def follow(self, e):
        n = e.track * 16 + e.sector
        pairs = []
        while n:
            if n >= TOTAL or n in e.ts:
                e.error = "T/S list of %s broken at sector %d" % (e.name, n)
                return
            e.ts.append(n)
            s = self.sec(n)
            for i in range(self.pairs):
                pairs.append((s[0xc + 2 * i], s[0xd + 2 * i]))
            n = s[1] * 16 + s[2]
        while pairs and pairs[-1] == (0, 0):
            pairs.pop()
        out = []
        for t, s in pairs:
            n = t * 16 + s
            if n >= TOTAL or s > 15:
                e.error = "%s lists invalid sector T%d S%d" % (e.name, t, s)
                return
            e.chain.append(n)
            out.append(self.sec(n) if n else b"\0" * 256)
        e.data = b"".join(out)

    def live(self):
        return [e for e in self.entries if not e.deleted]

    def file_sectors(self):
        s = set()
        for e in self.live():
            s.update(e.chain)
            s.update(e.ts)
        return s - {0}

    def reserved(self):
        return set(range(TOTAL)) - self.free - self.file_sectors()


def fsck(disk, reserved):
    bad = []
    if disk.error:
        bad.append(disk.error)
    owner = {}
    system = set(disk.catalog) | {17 * 16}
    for e in disk.live():
        if e.error:
            bad.append(e.error)
            continue
        own = e.ts + [n for n in e.chain if n]
        if e.count != len(own):
            bad.append("%s: catalog says %d sectors, file has %d" % (e.name, e.count, len(own)))
        for n in own:
            if n in owner:
                bad.append("sector %d belongs to %s and %s" % (n, owner[n], e.name))
            owner[n] = e.name
            if n == 0 or n in system or n in reserved:
                bad.append("%s occupies reserved sector %d" % (e.name, n))
            if n in disk.free:
                bad.append("sector %d of %s is marked free" % (n, e.name))
    alloc = set(range(TOTAL)) - disk.free
    lost = alloc - set(owner) - reserved
    if lost:
        bad.append("sectors allocated to no file: %s" % sorted(lost)[:10])
    gone = reserved - alloc
    if gone:
        bad.append("reserved sectors now marked free: %s" % sorted(gone)[:10])
    if any(n >= TOTAL for n in disk.free):
        bad.append("sectors beyond the disk marked free")
    return bad


def name30(name):
    b = name.encode("ascii")[:30]
    return bytes((c | 0x80) for c in b.ljust(30))


def build(files, deleted=(), boot_seed=None, sys_tracks=3, catalog_len=15, tables=True, vol=254):
    """DOS 3.3 disk from scratch.

    files: slot, name30 (30 bytes), flag, data, order.  Unlisted slots below
    the top one become deleted entries.
    """
    from hutil import prng
    raw = bytearray(SIZE)
    if boot_seed is not None and sys_tracks:
        raw[:sys_tracks * 16 * 256] = prng(boot_seed, sys_tracks * 16 * 256)
    if raw[0] == 1:
        raw[1] = 0
    free = [n for n in range(16, TOTAL) if n // 16 != 17 and n // 16 >= max(1, sys_tracks)]
    cat = [17 * 16 + 15 - i for i in range(catalog_len)]
    for i, c in enumerate(cat):
        nxt = cat[i + 1] if i + 1 < len(cat) else 0
        raw[c * 256 + 1] = nxt // 16
        raw[c * 256 + 2] = nxt % 16
    slots = {}
    top = max([f["slot"] for f in files] + [d["slot"] for d in deleted] + [-1])
    for f in files:
        data = f["data"]
        nd = max(1, (len(data) + 255) // 256)
        nts = (nd + 121) // 122
        if nd + nts > len(free):
            continue
        order = f.get("order") or [0]
        picks = []
        for i in range(nd + nts):
            picks.append(free.pop(order[i % len(order)] % len(free)))
        if f.get("ts_first", True):
            ts, chain = picks[:nts], picks[nts:]
        else:
            chain, ts = picks[:nd], picks[nd:]
        for i, n in enumerate(chain):
            part = data[i * 256:(i + 1) * 256]
            raw[n * 256:n * 256 + len(part)] = part
        for i, t in enumerate(ts):
            nxt = ts[i + 1] if i + 1 < nts else 0
            raw[t * 256 + 1], raw[t * 256 + 2] = nxt // 16, nxt % 16
            raw[t * 256 + 5:t * 256 + 7] = struct.pack("<H", 122 * i)
            for j, n in enumerate(chain[i * 122:(i + 1) * 122]):
                raw[t * 256 + 12 + 2 * j], raw[t * 256 + 13 + 2 * j] = n // 16, n % 16
        slots[f["slot"]] = bytes([ts[0] // 16, ts[0] % 16, f["flag"]]) + f["name30"] + struct.pack("<H", nd + nts)
    for d in deleted:
        if d["slot"] not in slots:
            nm = bytearray(d["name30"])
            nm[29] = d.get("track", 20)
            slots[d["slot"]] = bytes([0xff, d.get("sector", 3), d.get("flag", 4)]) + bytes(nm) + struct.pack("<H", d.get("count", 2))
    for s in range(top + 1):
        rec = slots.get(s)
        if rec is None:
            nm = bytearray(name30("GONE"))
            nm[29] = 20
            rec = bytes([0xff, 3, 4]) + bytes(nm) + struct.pack("<H", 2)
        p = cat[s // 7] * 256 + 0xb + 35 * (s % 7)
        raw[p:p + 35] = rec
    v = 17 * 16 * 256
    raw[v:v + 0x38] = bytes(0x38)
    raw[v] = 4
    raw[v + 1], raw[v + 2], raw[v + 3] = cat[0] // 16, cat[0] % 16, 3
    raw[v + 6] = vol
    raw[v + 0x27] = 122
    raw[v + 0x30], raw[v + 0x31] = 18, 1
    raw[v + 0x34], raw[v + 0x35] = 35, 16
    raw[v + 0x36:v + 0x38] = struct.pack("<H", 256)
    for n in free:
        t, s = divmod(n, 16)
        if s >= 8:
            raw[v + 0x38 + 4 * t] |= 1 << (s - 8)
        else:
            raw[v + 0x38 + 4 * t + 1] |= 1 << s
    return bytes(raw)
