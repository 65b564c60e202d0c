"""Independent reference reader / writer for Atari DOS 2.0S, 2.5 and DOS 2
double density disks.  Pure Python on bytes; shares nothing with atrcopy.

Layout (De Re Atari ch. 9, atari.kensclassics.org/dos.htm):
  sectors are numbered from 1; VTOC is sector 360, directory 361-368 with
  eight 16 byte entries in the first 128 bytes of each; a data sector ends in
  (fileno<<2 | next>>8), next&255, byte count.
  VTOC: 0 type code, 1-2 total, 3-4 free count, 10-99 bit map of sectors
  0-719, most significant bit first, 1 = free.
"""
import struct

SIZES = {
    # payload size -> (name, sector size, size of sectors 1-3)
    92160: ("sd", 128, 128),
    133120: ("ed", 128, 128),
    183936: ("dd", 256, 128),
    184320: ("ddf", 256, 256),
}
BY_NAME = {v[0]: k for k, v in SIZES.items()}
SYSTEM = set(range(360, 369)) | {0, 1, 2, 3}


class Geometry:
    def __init__(self, payload, offset):
        self.payload = payload
        self.offset = offset
        self.name, self.ss, self.boot = SIZES[payload]
        self.max = 3 + (payload - 3 * self.boot) // self.ss

    def pos(self, n):
        if not 1 <= n <= self.max:
            raise ValueError("sector %d" % n)
        if n <= 3:
            return self.offset + (n - 1) * self.boot, self.boot
        return self.offset + 3 * self.boot + (n - 4) * self.ss, self.ss


def geometry(raw):
    raw = bytes(raw)
    off = 16 if raw[:2] == b"\x96\x02" else 0
    return Geometry(len(raw) - off, off)


def atr_header(payload, ss):
    par = payload // 16
    return struct.pack("<HHHB9x", 0x296, par & 0xffff, ss, par >> 16)


class Entry:
    __slots__ = ("slot", "raw", "flag", "count", "start", "name", "chain", "data", "error")

    @property
    def live(self):
        return bool(self.flag & 0x40)

    @property
    def locked(self):
        return bool(self.flag & 0x20)


def text_name(raw11):
    base = raw11[:8].rstrip(b" \0")
    ext = raw11[8:11].rstrip(b" \0")
    return (base + (b"." + ext if ext else b"")).decode("latin1")


class Disk:
    """what an Atari would see"""

    def __init__(self, raw):
        self.raw = raw = bytes(raw)
        self.g = g = geometry(raw)
        self.entries = []
        self.all_slots = []
        ended = False
        for s in range(361, 369):
            p, _ = g.pos(s)
            for i in range(0, 128, 16):
                e = Entry()
                e.slot = len(self.all_slots)
                e.raw = raw[p + i:p + i + 16]
                e.flag = e.raw[0]
                e.count, e.start = struct.unpack("<HH", e.raw[1:5])
                e.name = text_name(e.raw[5:16])
                e.chain = []
                e.data = b""
                e.error = None
                self.all_slots.append(e)
                if e.flag == 0:
                    ended = True
                if not ended:
                    self.entries.append(e)
        for e in self.entries:
            if e.live:
                self.follow(e)
        p, _ = g.pos(360)
        v = raw[p:p + 128]
        self.vtoc = v
        self.total, self.free_count = struct.unpack("<HH", v[1:5])
        self.free = set()
        for n in range(720):
            if v[10 + n // 8] & (0x80 >> (n & 7)):
                self.free.add(n)

    def follow(self, e):
        out = bytearray()
        n = e.start
        seen = set()
        g = self.g
        while n:
            if n in seen:
                e.error = "sector chain of %s loops at %d" % (e.name, n)
                return
            if not 1 <= n <= g.max:
                e.error = "sector chain of %s reaches invalid sector %d" % (e.name, n)
                return
            seen.add(n)
            e.chain.append(n)
            p, size = g.pos(n)
            sec = self.raw[p:p + size]
            if sec[-3] >> 2 != e.slot:
                e.error = "%s: sector %d carries file number %d, entry is %d" % (e.name, n, sec[-3] >> 2, e.slot)
                return
            used = sec[-1]
            if used > size - 3:
                e.error = "%s: sector %d claims %d data bytes" % (e.name, n, used)
                return
            out += sec[:used]
            n = (sec[-3] & 3) << 8 | sec[-2]
        e.data = bytes(out)

    def live(self):
        return [e for e in self.entries if e.live]

    def file_sectors(self):
        s = set()
        for e in self.live():
            s.update(e.chain)
        return s

    def reserved(self):
        """allocated sectors that belong to no live file"""
        return set(range(720)) - self.free - self.file_sectors()


def mirrored(disk):
    """is the copy of the bit map in the second VTOC in step?"""
    if disk.g.name != "ed":
        return True
    p, _ = disk.g.pos(1024)
    return disk.raw[p:p + 84] == disk.vtoc[16:100]


def fsck(disk, reserved, count_bias, check_count=True, mirror=False):
    """problems of the file system, given the sectors that were already
    allocated to no file before the history started"""
    bad = []
    owner = {}
    for e in disk.live():
        if e.error:
            bad.append(e.error)
            continue
        if not e.chain:
            bad.append("%s has no sectors (start %d)" % (e.name, e.start))
        if e.count != len(e.chain):
            bad.append("%s: directory says %d sectors, chain has %d" % (e.name, e.count, len(e.chain)))
        for n in e.chain:
            if n in owner:
                bad.append("sector %d belongs to %s and %s" % (n, owner[n], e.name))
            owner[n] = e.name
            if n in SYSTEM or n in reserved:
                bad.append("%s occupies reserved sector %d" % (e.name, n))
            if n < 720 and n in disk.free:
                bad.append("sector %d of %s is marked free" % (n, e.name))
    used = set(owner)
    alloc = set(range(720)) - disk.free
    lost = alloc - used - reserved
    if lost:
        bad.append("sectors allocated to no file: %s" % sorted(lost)[:10])
    gone = (reserved - alloc)
    if gone:
        bad.append("reserved sectors now marked free: %s" % sorted(gone)[:10])
    if check_count and disk.free_count != len(disk.free) + count_bias:
        bad.append("free sector count is %d, bit map has %d free" % (disk.free_count, len(disk.free)))
    if mirror and not mirrored(disk):
        bad.append("the two copies of the bit map of the enhanced density disk differ")
    return bad


def build(density, container, files, deleted=(), boot_seed=None, extra_alloc=()):
    """Write a DOS 2 disk from scratch.

    files: list of dicts slot, name (bytes 11, space padded), flag, data,
    order (list of ints steering the choice of sectors).  Slots not mentioned
    below the highest one become deleted entries.
    """
    payload = BY_NAME[density]
    off = 16 if container == "atr" else 0
    g = Geometry(payload, off)
    raw = bytearray(off + payload)
    if off:
        raw[:16] = atr_header(payload, g.ss)
    free = [n for n in range(4, 720) if n not in SYSTEM and n not in extra_alloc]
    if boot_seed is not None:
        from hutil import prng
        for n in (1, 2, 3):
            p, size = g.pos(n)
            raw[p:p + size] = prng(boot_seed + n, size)
        # not an executable, and no boot flag surprises
        raw[off] = 0
    pay = g.ss - 3
    top = max([f["slot"] for f in files] + [d["slot"] for d in deleted] + [-1])
    slots = {}
    for f in files:
        data = f["data"]
        need = max(1, (len(data) + pay - 1) // pay)
        if need > len(free):
            continue
        chain = []
        order = f.get("order") or [0]
        for i in range(need):
            k = order[i % len(order)] % len(free)
            chain.append(free.pop(k))
        for i, n in enumerate(chain):
            p, size = g.pos(n)
            part = data[i * pay:(i + 1) * pay]
            raw[p:p + len(part)] = part
            nxt = chain[i + 1] if i + 1 < need else 0
            raw[p + size - 3] = f["slot"] << 2 | nxt >> 8
            raw[p + size - 2] = nxt & 255
            raw[p + size - 1] = len(part)
        slots[f["slot"]] = struct.pack("<BHH", f["flag"], need, chain[0]) + f["name"]
    for d in deleted:
        if d["slot"] not in slots:
            slots[d["slot"]] = struct.pack("<BHH", 0x80, d.get("count", 3), d.get("start", 4)) + d["name"]
    for s in range(top + 1):
        rec = slots.get(s)
        if rec is None:
            rec = struct.pack("<BHH", 0x80, 1, 4) + b"GONE    $$$"
        p, _ = g.pos(361 + s // 8)
        i = p + (s % 8) * 16
        raw[i:i + 16] = rec
    p, _ = g.pos(360)
    total = 1010 if density == "ed" else 707
    raw[p:p + 5] = struct.pack("<BHH", 2, total, len(free))
    for n in free:
        raw[p + 10 + n // 8] |= 0x80 >> (n & 7)
    if density == "ed":
        p2, _ = g.pos(1024)
        freeset = set(free)
        for n in range(48, 720):
            if n in freeset:
                raw[p2 + (n - 48) // 8] |= 0x80 >> (n & 7)
        for n in range(720, 1024):
            raw[p2 + (n - 48) // 8] |= 0x80 >> (n & 7)
        raw[p2 + 122:p2 + 124] = struct.pack("<H", 303)
    return bytes(raw)


def store_name(name):
    """the 11 bytes DOS would store for a host file name"""
    b = name.encode("latin1") if isinstance(name, str) else name
    if b"." in b:
        base, ext = b.split(b".", 1)
    else:
        base, ext = b, b""
    return (b"%-8s" % base[:8]) + (b"%-3s" % ext[:3])
