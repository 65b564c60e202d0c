"""Independent SpartaDOS disk builder (read-only format of the library).

Layout follows the SpartaDOS file system description: boot record in sector 1,
a bitmap, files and directories described by sector maps (next map sector,
previous map sector, then data sector numbers), directory entries of 23 bytes
with the directory's own header entry first.
"""
from hutil import HarnessError, prng

CODE = {128: 0x80, 256: 0, 512: 1}


def le16(v):
    return bytes([v & 255, (v >> 8) & 255])


class Geo:
    def __init__(self, ss, nsec):
        self.ss, self.nsec = ss, nsec
        self.short = 3 if ss == 256 else 0

    def pos(self, n):
        if n <= self.short:
            return (n - 1) * 128, 128
        return self.short * 128 + (n - 1 - self.short) * self.ss, self.ss

    @property
    def total(self):
        p, s = self.pos(self.nsec)
        return p + s


def entry(status, sector, length, name, ext, date, time):
    e = bytes([status]) + le16(sector) + bytes([length & 255, (length >> 8) & 255, (length >> 16) & 255])
    e += name.ljust(8)[:8] + ext.ljust(3)[:3] + bytes(date) + bytes(time)
    assert len(e) == 23
    return e


def build(ss, nsec, files, version=0x20, header=True, order=1, seed=0, vol=b"VOLUME  ", boot=1, root_status=0x28, addr=0x3000, layout=None):
    """files: list of dicts status, name, ext, data, date, time"""
    g = Geo(ss, nsec)
    raw = bytearray(g.total)
    if seed:
        raw[:] = prng(seed, len(raw))
    nbitmap = (nsec // 8 + ss) // ss
    first_bitmap = 4
    used = set(range(1, 4)) | set(range(first_bitmap, first_bitmap + nbitmap))
    free = [n for n in range(4, nsec + 1) if n not in used]
    # deterministic shuffle: stride walk through the free list
    m = len(free)
    stride = max(1, order)
    while _gcd(stride, m) != 1:
        stride += 1
    walk = [free[(i * stride + order * 7) % m] for i in range(m)]
    it = iter(walk)

    def put(n, data):
        p, s = g.pos(n)
        if len(data) > s:
            raise HarnessError("sector overflow")
        raw[p:p + len(data)] = data

    def store(data, slack=0):
        """store data, returns the first sector map sector"""
        per = (ss - 4) // 2
        nsecs = (len(data) + ss - 1) // ss
        nmaps = max(1, (nsecs + per - 1) // per)
        maps = [next(it) for _ in range(nmaps)]
        secs = [next(it) for _ in range(nsecs)]
        used.update(maps)
        used.update(secs)
        for i, s in enumerate(secs):
            put(s, data[i * ss:(i + 1) * ss])
        for i, ms in enumerate(maps):
            b = le16(maps[i + 1] if i + 1 < nmaps else 0) + le16(maps[i - 1] if i else 0)
            part = secs[i * per:(i + 1) * per]
            for s in part:
                b += le16(s)
            b += bytes(ss - len(b))
            put(ms, b)
        if layout is not None:
            layout.setdefault("secs", []).append(secs)
        return maps[0]

    entries = []
    try:
        for f in files:
            sec = store(f["data"])
            entries.append(entry(f["status"], sec, f.get("claim") or len(f["data"]), f["name"], f["ext"], f["date"], f["time"]))
        dlen = 23 * (len(entries) + 1)
        head = entry(root_status, 0, dlen, b"MAIN", b"", (1, 1, 88), (0, 0, 0))
        root = store(head + b"".join(entries))
    except StopIteration:
        raise HarnessError("sparta disk full")
    left = [n for n in range(1, nsec + 1) if n not in used]
    bitmap = bytearray(nbitmap * ss)
    for n in left:
        bitmap[n // 8] |= 0x80 >> (n % 8)
    for i in range(nbitmap):
        put(first_bitmap + i, bytes(bitmap[i * ss:(i + 1) * ss]))
    ff = left[0] if left else 0
    rec = bytes([0, boot]) + le16(addr) + le16(0x3040) + b"\x4c" + le16(0x3080) + le16(root) + le16(nsec) + le16(len(left))
    rec += bytes([nbitmap]) + le16(first_bitmap) + le16(ff) + le16(ff) + vol.ljust(8)[:8] + bytes([40, CODE[ss], version])
    assert len(rec) == 33
    if layout is not None:
        layout.update(geo=g, free=len(left), bitmap=(first_bitmap, nbitmap), boot=boot, addr=addr, dirlen=dlen)
    put(1, rec)
    out = bytes(raw)
    if header:
        par = len(out) // 16
        out = bytes([0x96, 0x02]) + le16(par) + le16(ss) + bytes([par >> 16]) + bytes(9) + out
    return out


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a
