"""Builders and readers for disks as other programs leave them: DOS 2.0S,
DOS 2.5 with files above sector 719, MyDOS with 16 bit sector links,
subdirectories and several VTOC sectors, DOS 3.3 with sparse files and
catalogs in any place.  Independent of atrcopy.
"""
import struct

from hutil import prng


class AtariGeo:
    def __init__(self, ss, n, off):
        self.ss, self.n, self.off = ss, n, off

    def pos(self, s):
        if s <= 3:
            return self.off + 128 * (s - 1), 128
        return self.off + 384 + (s - 4) * self.ss, self.ss

    @property
    def size(self):
        return self.off + 384 + (self.n - 3) * self.ss


def mydos_code(ss, total):
    """(type code, number of VTOC sectors)"""
    blocks = 1 + (total + 80) // (8 * ss)
    if ss == 128:
        if blocks == 1:
            return 2, 1
        blocks += blocks & 1
        return blocks // 2 + 2, blocks + 1
    if total < 1024:
        return 2, 1
    return 2 + blocks, blocks


class AtariDisk:
    """expected contents, kept next to the bytes"""

    def __init__(self, spec):
        self.var = var = spec["var"]
        ss, n = spec["ss"], spec["n"]
        self.g = g = AtariGeo(ss, n, 0 if spec.get("bare") else 16)
        raw = bytearray(g.size)
        if g.off:
            par = (g.size - 16) // 16
            raw[:16] = struct.pack("<HHHB9x", 0x296, par & 0xffff, ss, par >> 16)
        code, nv = 2, 1
        total = n - 13
        if var == "dos25":
            total = 1010
        elif var == "mydos":
            total = n - 12
            code, nv = mydos_code(ss, total)
            total -= nv - 1
        self.code, self.nv = code, nv
        self.vtoc_sectors = [360 - i for i in range(nv)] + ([1024] if var == "dos25" else [])
        system = {0, 1, 2, 3} | set(range(361, 369)) | set(self.vtoc_sectors)
        top = {"dos2": 720, "dos25": 1024, "mydos": n + 1}[var]
        self.top = top
        # DOS 2 cannot reach sector 720
        free = [s for s in range(1, top) if s not in system]
        for s in spec.get("used", ()):
            if s in free:
                free.remove(s)
        self.junk = spec.get("junk")
        if self.junk:
            for s in range(4, n + 1):
                if s not in system:
                    p, z = g.pos(s)
                    raw[p:p + z] = prng(self.junk + s, z)
        self.slots = []
        pay = ss - 3
        for slot, e in enumerate(spec["entries"][:64]):
            t = e["t"]
            name = bytes.fromhex(e["name"])
            rec = None
            if t == "file":
                wide = bool(e.get("wide")) and var == "mydos"
                parts = [min(pay, u) for u in e["parts"]] or [0]
                stream = e.get("stream")
                if stream is not None:
                    # given contents, spread over sectors filled as asked for
                    sizes, left = [], len(stream)
                    while left > 0:
                        u = min(left, parts[len(sizes) % len(parts)] or pay)
                        sizes.append(u)
                        left -= u
                    parts = sizes or [0]
                lim = 65536 if wide else 1024
                chain = []
                order = e.get("order") or [0]
                for i in range(len(parts)):
                    ok = [s for s in free if s < lim]
                    if var == "dos25" and not e.get("hi"):
                        ok = [s for s in ok if s < 720]
                    if e.get("far") and ok:
                        k = len(ok) - 1 - order[i % len(order)] % len(ok)
                    elif ok:
                        k = order[i % len(order)] % len(ok)
                    else:
                        break
                    chain.append(ok[k])
                    free.remove(ok[k])
                if chain:
                    parts = parts[:len(chain)]
                    data = b""
                    for i, (s, u) in enumerate(zip(chain, parts)):
                        p, z = g.pos(s)
                        body = prng(e["s"] + i, u) if stream is None else stream[len(data):len(data) + u]
                        data += body
                        raw[p:p + u] = body
                        nx = chain[i + 1] if i + 1 < len(chain) else 0
                        raw[p + z - 3] = nx >> 8 if wide else slot << 2 | nx >> 8
                        raw[p + z - 2] = nx & 255
                        raw[p + z - 1] = u
                    flag = 0x46 if wide else 0x42
                    if var == "dos25" and max(chain) >= 720:
                        flag = 0x03
                    if e.get("locked"):
                        flag |= 0x20
                    rec = {"kind": "file", "flag": flag, "count": len(chain), "start": chain[0], "name": name, "data": data, "chain": chain, "wide": wide, "parts": parts}
            elif t == "dir" and var == "mydos":
                run = None
                fs = set(free)
                for s in free:
                    if s >= 4 and all(s + i in fs for i in range(8)):
                        run = s
                        break
                if run:
                    for i in range(8):
                        free.remove(run + i)
                        p, z = g.pos(run + i)
                        raw[p:p + z] = bytes(z)
                    p, _ = g.pos(run)
                    raw[p:p + 16] = struct.pack("<BHH", 0x42, 3, 700) + b"INNER   DAT"
                    rec = {"kind": "dir", "flag": 0x10 | (0x20 if e.get("locked") else 0), "count": 8, "start": run, "name": name, "data": None, "chain": list(range(run, run + 8))}
            if rec is None:
                rec = {"kind": "del", "flag": 0x80, "count": e.get("count", 2), "start": e.get("start", 4), "name": name, "data": None, "chain": []}
            self.slots.append(rec)
            p, _ = g.pos(361 + slot // 8)
            p += 16 * (slot % 8)
            raw[p:p + 16] = struct.pack("<BHH", rec["flag"], rec["count"], rec["start"]) + name
        self.free = set(free)
        self.put_vtoc(raw, code, total)
        self.raw = bytes(raw)

    def put_vtoc(self, raw, code, total):
        g = self.g
        lo = len([s for s in self.free if s < 720]) if self.var == "dos25" else len(self.free)
        p, _ = g.pos(360)
        raw[p:p + 5] = struct.pack("<BHH", code, total, lo)
        for s in self.free:
            if self.var == "dos25" and s >= 720:
                continue
            q, bit = self.bit(s)
            raw[q] |= bit
        if self.var == "dos25":
            p2, _ = g.pos(1024)
            raw[p2:p2 + 84] = raw[p + 16:p + 100]
            for s in self.free:
                if s >= 720:
                    q, bit = self.bit(s)
                    raw[q] |= bit
            raw[p2 + 122:p2 + 124] = struct.pack("<H", len(self.free) - lo)

    def bit(self, s):
        g = self.g
        if self.var == "dos25" and s >= 720:
            return g.pos(1024)[0] + (s - 48) // 8, 0x80 >> (s & 7)
        i = 10 + s // 8
        return g.pos(360 - i // g.ss)[0] + i % g.ss, 0x80 >> (s & 7)

    # ---- reading a later state of the same disk

    def free_in(self, raw):
        out = set()
        for s in range(0, self.top):
            q, bit = self.bit(s)
            if raw[q] & bit:
                out.add(s)
        return out

    def counts(self, raw):
        p, _ = self.g.pos(360)
        c = struct.unpack("<H", raw[p + 3:p + 5])[0]
        if self.var == "dos25":
            p, _ = self.g.pos(1024)
            c += struct.unpack("<H", raw[p + 122:p + 124])[0]
        return c

    def entry(self, raw, slot):
        p, _ = self.g.pos(361 + slot // 8)
        p += 16 * (slot % 8)
        return raw[p:p + 16]

    def follow(self, raw, start, wide, slot):
        out, chain, s = b"", [], start
        while s:
            if s in chain or not 1 <= s <= self.g.n:
                return None, chain
            chain.append(s)
            p, z = self.g.pos(s)
            sec = raw[p:p + z]
            if wide:
                nx = sec[-3] << 8 | sec[-2]
            else:
                if sec[-3] >> 2 != slot:
                    return None, chain
                nx = (sec[-3] & 3) << 8 | sec[-2]
            out += sec[:sec[-1]]
            s = nx
        return out, chain


def atari_text(name):
    base, ext = name[:8].rstrip(b" \0"), name[8:].rstrip(b" \0")
    return (base + (b"." + ext if ext else b"")).decode("latin1")


TYPES = {0: "T", 1: "I", 2: "A", 4: "B", 8: "S", 0x10: "R", 0x20: "a", 0x40: "b"}


class AppleDisk:
    def __init__(self, spec):
        raw = bytearray(35 * 16 * 256)
        free = [s for s in range(16, 560) if s // 16 != 17]
        if spec.get("junk"):
            raw[:] = prng(spec["junk"], len(raw))
            raw[:16 * 256] = bytes(16 * 256)
            raw[17 * 4096:18 * 4096] = bytes(4096)
        cat = []
        pool = [17 * 16 + 15 - i for i in range(15)]
        for k in spec["catalog"]:
            if not pool:
                break
            cat.append(pool.pop(k % len(pool)))
        for k in spec.get("cat_far", ()):
            if spec.get("far_first"):
                cat.insert(0, free.pop(k % len(free)))
            else:
                cat.append(free.pop(k % len(free)))
        self.cat = cat
        for i, c in enumerate(cat):
            raw[c * 256:(c + 1) * 256] = bytes(256)
            nx = cat[i + 1] if i + 1 < len(cat) else 0
            raw[c * 256 + 1], raw[c * 256 + 2] = nx // 16, nx % 16
        self.slots = []
        for slot, e in enumerate(spec["entries"][:7 * len(cat)]):
            name = bytes.fromhex(e["name"])
            rec = None
            if e["t"] == "file":
                lay = e["lay"]  # one flag per logical sector: present or a hole
                lay = lay[:max([i + 1 for i, x in enumerate(lay) if x] + [0])] or [1]
                nts = (len(lay) + 121) // 122
                nts += e.get("extra_ts", 0)
                need = sum(lay) + nts
                if need <= len(free):
                    order = e.get("order") or [0]
                    picks = [free.pop(order[i % len(order)] % len(free)) for i in range(need)]
                    if e.get("ts_last"):
                        secs, ts = picks[:-nts], picks[-nts:]
                    else:
                        ts, secs = picks[:nts], picks[nts:]
                    data = b""
                    chain = []
                    it = iter(secs)
                    for i, x in enumerate(lay):
                        if x:
                            s = next(it)
                            body = prng(e["s"] + i, 256)
                            raw[s * 256:s * 256 + 256] = body
                            data += body
                            chain.append(s)
                        else:
                            data += bytes(256)
                            chain.append(0)
                    for i, t in enumerate(ts):
                        b = bytearray(256)
                        nx = ts[i + 1] if i + 1 < len(ts) else 0
                        b[1], b[2] = nx // 16, nx % 16
                        b[5:7] = struct.pack("<H", 122 * i)
                        for j, s in enumerate(chain[122 * i:122 * i + 122]):
                            b[12 + 2 * j], b[13 + 2 * j] = s // 16, s % 16
                        raw[t * 256:t * 256 + 256] = b
                    flag = e["type"] | (0x80 if e.get("locked") else 0)
                    rec = {"kind": "file", "flag": flag, "count": need, "ts": ts, "chain": [c for c in chain if c], "data": data, "name": name, "holes": 0 in chain,
                           "raw": bytes([ts[0] // 16, ts[0] % 16, flag]) + name + struct.pack("<H", need)}
            if rec is None:
                nm = name[:29] + bytes([e.get("track", 20)])
                rec = {"kind": "del", "flag": 4, "name": nm, "data": None, "chain": [], "ts": [],
                       "raw": bytes([0xff, e.get("sector", 3), e.get("type", 4)]) + nm + struct.pack("<H", e.get("count", 2))}
            self.slots.append(rec)
            p = self.epos(slot)
            raw[p:p + 35] = rec["raw"]
        v = 17 * 4096
        raw[v:v + 256] = bytes(256)
        raw[v] = spec.get("v0", 4)
        raw[v + 1], raw[v + 2], raw[v + 3] = cat[0] // 16, cat[0] % 16, 3
        raw[v + 6] = spec.get("vol", 254)
        raw[v + 0x27] = 122
        raw[v + 0x30], raw[v + 0x31] = spec.get("last", 18), spec.get("dir", 1)
        raw[v + 0x34], raw[v + 0x35] = 35, 16
        raw[v + 0x37] = 1
        self.free = set(free)
        for s in free:
            q, bit = self.bit(s)
            raw[q] |= bit
        self.raw = bytes(raw)

    def epos(self, slot):
        return self.cat[slot // 7] * 256 + 0xb + 35 * (slot % 7)

    def bit(self, s):
        t, n = divmod(s, 16)
        return 17 * 4096 + 0x38 + 4 * t + (0 if n >= 8 else 1), 1 << (n & 7)

    def free_in(self, raw):
        return {s for s in range(560) if raw[self.bit(s)[0]] & self.bit(s)[1]}

    def follow(self, raw, t, s):
        n = t * 16 + s
        ts, pairs = [], []
        while n:
            if n in ts or n >= 560:
                return None, ts
            ts.append(n)
            b = raw[n * 256:n * 256 + 256]
            pairs += [(b[12 + 2 * i], b[13 + 2 * i]) for i in range(122)]
            n = b[1] * 16 + b[2]
        while pairs and pairs[-1] == (0, 0):
            pairs.pop()
        out = b""
        for a, b in pairs:
            n = a * 16 + b
            if n >= 560:
                return None, ts
            out += raw[n * 256:n * 256 + 256] if n else bytes(256)
        return out, ts + [a * 16 + b for a, b in pairs if a * 16 + b]


def apple_text(name):
    return bytes(b & 0x7f for b in name).decode("ascii").rstrip(" ")
