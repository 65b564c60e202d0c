"""Oracles for executables and boot disks: P11 - P15."""
import numpy as np

from atrcopy import errors
from atrcopy.segments import SegmentData, DefaultSegment, SegmentList
from atrcopy.executables import get_xex, get_bsave, create_executable_file_data
from atrcopy.ataridos import AtariDosFile
from atrcopy.dos33 import Dos33BinFile
from atrcopy.kboot import KBootImage
from atrcopy.standard_delivery import StandardDeliveryImage
import atrcopy

from hutil import check, same, mkdata, prng, quiet, HarnessError, Violation
from props import register
from sim6502 import CPU, Trap


# ------------------------------------------------------------ formats

def parse_xex(b):
    """(offset of data, start, bytes) of every block of a well formed file"""
    b = bytes(b)
    check(b[0:2] == b"\xff\xff", "executable doesn't start with FFFF")
    pos, out = 2, []
    while pos < len(b):
        check(pos + 2 <= len(b), "executable ends inside a block header")
        start = b[pos] | b[pos + 1] << 8
        if start == 0xffff:
            pos += 2
            continue
        check(pos + 4 <= len(b), "executable ends inside a block header")
        end = b[pos + 2] | b[pos + 3] << 8
        check(end >= start, "block with end %04x before start %04x", end, start)
        n = end - start + 1
        check(pos + 4 + n <= len(b), "executable ends inside the block at %04x", start)
        out.append((pos + 4, start, b[pos + 4:pos + 4 + n]))
        pos += 4 + n
    return out


class Src:
    """a list of segments built in one of several ways, and their model"""

    def __init__(self, specs):
        self.segs = []
        self.model = []     # (origin, bytes, styles, {index: comment})
        self.bases = []
        shared = None
        for i, sp in enumerate(specs):
            data = mkdata(sp["d"])
            n = len(data)
            how = sp.get("v", "plain")
            styles = prng(sp["st"], n) if sp.get("st") else bytes(n)
            com = {k % n: t for k, t in sp.get("cm", [])} if n else {}
            pre = sp.get("pre", 3)
            if how == "list":
                sl = SegmentList()
                seg = sl.add_segment(np.frombuffer(data, dtype=np.uint8).copy(), sp["o"])
                idx = list(range(n))
                base = seg
            else:
                if how == "plain":
                    idx = list(range(n))
                    size = n
                elif how == "slice":
                    idx = list(range(pre, pre + n))
                    size = n + pre + 2
                elif how == "rev":
                    size = n + pre
                    idx = list(range(size - 1, pre - 1, -1))
                elif how == "perm":
                    size = n + pre
                    # a fixed stride permutation of the whole base
                    step = 7
                    while size and _gcd(step, size) != 1:
                        step += 2
                    idx = [(pre + k * step) % size for k in range(n)]
                else:
                    raise HarnessError(how)
                buf = bytearray(prng(i + 99, size))
                for k, j in enumerate(idx):
                    buf[j] = data[k]
                base = DefaultSegment(SegmentData(np.frombuffer(bytes(buf), dtype=np.uint8).copy()), 0)
                if how == "plain":
                    seg = DefaultSegment(base.rawdata, sp["o"])
                elif how == "slice":
                    seg = DefaultSegment(base.rawdata[pre:pre + n], sp["o"])
                else:
                    seg = DefaultSegment(base.rawdata.get_indexed(idx), sp["o"])
            for k, j in enumerate(idx):
                base.style[j] = styles[k]
            for k, t in com.items():
                base.set_comment_at(idx[k], t)
            # a comment on a byte the view doesn't show
            if how == "slice":
                if pre:
                    base.set_comment_at(0, "outside")
                base.set_comment_at(pre + n, "outside")
            self.segs.append(seg)
            self.bases.append((base, bytes(base.data.tobytes()), bytes(base.style.tobytes()), dict(base.rawdata.extra.comments)))
            self.model.append((sp["o"], data, styles, com))

    def unchanged(self):
        for base, d, s, c in self.bases:
            same(base.data.tobytes(), d, "data of an input segment changed")
            same(base.style.tobytes(), s, "style of an input segment changed")
            check(dict(base.rawdata.extra.comments) == c, "comments of an input segment changed")
        for seg, (o, d, s, c) in zip(self.segs, self.model):
            check(seg.origin == o, "origin of an input segment changed")
            same(bytes(seg[:]), d, "data of an input segment changed")


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def labels_for(case):
    out = sorted({"view:" + s.get("v", "plain") for s in case["segs"]})
    out.append("nseg:%s" % min(len(case["segs"]), 4))
    return out


def inside(model, addr):
    return any(o <= addr < o + len(d) for o, d, s, c in model)


def invalid_input(model, maxend=0x10000):
    return not model or any(len(d) == 0 or o < 0 or o + len(d) > maxend for o, d, s, c in model)


def memory_of(blocks):
    """memory image after loading the blocks in order: {addr: byte}"""
    mem = {}
    for start, data in blocks:
        for i, b in enumerate(data):
            mem[start + i] = b
    return mem


# ------------------------------------------------------------ P11

@register("P11")
def p11(case):
    src = Src(case["segs"])
    run = case.get("run")
    m = src.model
    lab = labels_for(case)
    bad = invalid_input(m) or any(o == 0xffff for o, d, s, c in m)
    has_run = any(o == 0x2e0 for o, d, s, c in m)
    refuse_run = bool(run) and not has_run and not inside(m, run)
    try:
        if case.get("via") == "file":
            data, ft = create_executable_file_data(case["name"], src.segs, run)
            main = None
            raw = bytes(np.asarray(data).tobytes())
        else:
            main, subs = get_xex(src.segs, run)
            raw = bytes(main.tobytes())
    except errors.InvalidBinaryFile:
        check(bad or refuse_run, "executable refused although all segments are valid")
        src.unchanged()
        lab.append("refused")
        return {"labels": lab, "nontrivial": len(m) > 0}
    check(not bad, "executable created from segments that cannot be loaded")
    check(not refuse_run, "run address %04x outside all segments accepted" % (run or 0))
    src.unchanged()
    blocks = parse_xex(raw)
    # own decoder: blocks are the segments, plus one run block
    extra = [i for i, b in enumerate(blocks) if b[1] == 0x2e0 and len(b[2]) == 2]
    if has_run:
        body = blocks
        lab.append("own-run")
    else:
        check(len(extra) == 1, "%d run address blocks in the executable", len(extra))
        body = blocks[:extra[0]] + blocks[extra[0] + 1:]
    check([(b[1], len(b[2])) for b in body] == [(o, len(d)) for o, d, s, c in m],
          "blocks %s in the executable, segments were %s", [(hex(b[1]), len(b[2])) for b in body], [(hex(o), len(d)) for o, d, s, c in m])
    for b, (o, d, s, c) in zip(body, m):
        same(b[2], d, "block at %04x" % o)
    vec = {}
    for off, start, d in blocks:
        for a in (0x2e0, 0x2e1):
            if start <= a < start + len(d):
                vec[a] = d[a - start]
    got = vec[0x2e0] | vec[0x2e1] << 8
    if has_run:
        lastrun = [d for o, d, s, c in m if o == 0x2e0][-1]
        want = lastrun[0] | lastrun[1] << 8
    else:
        want = run or m[0][0]
    check(got == want, "run address %04x, expected %04x", got, want)
    # the library's own parser
    f = AtariDosFile(SegmentData(np.frombuffer(raw, dtype=np.uint8).copy()))
    f.parse_segments()
    check([(s.origin, len(s)) for s in f.segments] == [(b[1], len(b[2])) for b in blocks], "parsing gives other segments: %s",
          [(hex(s.origin), len(s)) for s in f.segments])
    for s, b in zip(f.segments, blocks):
        same(s.tobytes(), b[2], "parsed segment at %04x" % b[1])
    runs = [s for s in f.segments if hasattr(s, "run_address")]
    check(runs and int(runs[-1].run_address()) == want, "parsed run address wrong")
    # styles and comments go along
    if main is not None:
        check(len(subs) == len(blocks), "%d sub segments for %d blocks", len(subs), len(blocks))
        for sub, b in zip(subs, blocks):
            same(bytes(sub[:])[-len(b[2]):], b[2], "sub segment at %04x" % b[1])
            check(sub.origin == b[1], "sub segment has origin %04x instead of %04x", sub.origin, b[1])
        want_com = {}
        for b, (o, d, s, c) in zip(body, m):
            same(bytes(main.style[b[0]:b[0] + len(d)]), s, "style of the segment at %04x" % o)
            for k, t in c.items():
                want_com[b[0] + k] = t
        got_com = {k: main.get_comment(k) for k in range(len(raw)) if main.get_comment(k)}
        check(got_com == want_com, "comments %s, expected %s", got_com, want_com)
        if want_com:
            lab.append("comments")
    return {"labels": lab, "nontrivial": len(m) > 1 or bool(run)}


# ------------------------------------------------------------ P12

@register("P12")
def p12(case):
    buf = bytearray()
    blocks = []      # (file offset of header, of data, start, data)
    broken = case.get("break")
    bi = case.get("at", 0) % max(1, len(case["blocks"]))
    if broken != "nomark":
        buf += b"\xff\xff" * case.get("lead", 1)
    else:
        buf += bytes(case.get("junk", [0, 0]))
    for i, b in enumerate(case["blocks"]):
        data = mkdata(b["d"])
        start = b["start"]
        end = start + len(data) - 1
        if broken == "endstart" and i == bi:
            end = start - 1 - case.get("by", 0)
            if end < 0:
                start, end = 0x600, 0x5ff - min(case.get("by", 0), 0x500)
        if i:
            buf += b"\xff\xff" * b.get("mark", 0)
        h = len(buf)
        buf += bytes([start & 255, start >> 8, end & 255, end >> 8]) + data
        blocks.append((h, h + 4, start, data))
    buf += b"\xff\xff" * case.get("trail", 0)
    lab = ["break:%s" % broken, "blocks:%d" % min(5, len(blocks))]
    full = len(buf)
    if broken == "trunc":
        cut = 2 + case["cut"] % max(1, full - 2)
        del buf[cut:]
        blocks = [b for b in blocks if b[1] + len(b[3]) <= cut]
    raw = SegmentData(np.frombuffer(bytes(buf), dtype=np.uint8).copy())
    image = bytes(buf)
    via = case.get("via", "file")

    def parse():
        if via == "file":
            f = AtariDosFile(raw)
            f.parse_segments()
            return f.segments
        parser, mime = atrcopy.find_diskimage_from_data(raw.data)
        if mime != "application/vnd.atari8bit.xex":
            return None
        return parser.image.segments

    if broken in ("nomark", "endstart"):
        if broken == "nomark" and image[0:2] == b"\xff\xff":
            return {"labels": lab, "nontrivial": False}
        if via != "file":
            return {"labels": lab, "nontrivial": False}
        try:
            parse()
        except errors.AtrError:
            same(raw.data.tobytes(), image, "file changed by parsing")
            return {"labels": lab}
        raise Violation("file with %s accepted" % ("an end before its start" if broken == "endstart" else "no marker"))
    segs = parse()
    check(segs is not None, "not recognised as Atari executable")
    same(raw.data.tobytes(), image, "file changed by parsing")
    if broken == "trunc":
        check(len(segs) in (len(blocks), len(blocks) + 1), "%d segments, %d complete blocks", len(segs), len(blocks))
    else:
        check(len(segs) == len(blocks), "%d segments for %d blocks", len(segs), len(blocks))
    for s, (h, d0, start, data) in zip(segs, blocks):
        check(s.origin == start, "segment at %04x, block at %04x", s.origin, start)
        same(s.tobytes(), data, "segment at %04x" % start)
        check(len(s) == len(data), "length of segment at %04x", start)
        if start == 0x2e0 and len(data) >= 2:
            check(int(s.run_address()) == data[0] | data[1] << 8, "run address wrong")
            lab.append("run")
        if len(data):
            check(s.get_raw_index(0) == d0, "segment is at file offset %d, block at %d", s.get_raw_index(0), d0)
    # write through
    shadow = bytearray(image)
    base = raw.data if via == "file" or not segs else segs[0].rawdata.data_base
    for k, (i, off, v) in enumerate(case.get("writes", [])):
        if not blocks:
            break
        h, d0, start, data = blocks[i % len(blocks)]
        j = off % len(data)
        e = min(len(data), j + 1 + k)
        segs[i % len(blocks)][j:e] = v
        for q in range(j, e):
            shadow[d0 + q] = v
        same(bytes(np.asarray(base).tobytes()), bytes(shadow), "file after writing to a segment")
    return {"labels": lab, "nontrivial": len(blocks) > 1}


# ------------------------------------------------------------ P13

@register("P13")
def p13(case):
    src = Src(case["segs"])
    run = case.get("run")
    m = src.model
    lab = labels_for(case)
    bad = invalid_input(m)
    lo = min((o for o, d, s, c in m), default=0)
    hi = max((o + len(d) for o, d, s, c in m), default=0)
    jump = bool(run) and run != lo
    refuse = jump and not inside(m, run)
    first = lo - 3 if jump else lo
    toobig = hi - first > 0xffff or first < 0
    try:
        if case.get("via") == "file":
            raw, ft = create_executable_file_data(case["name"], src.segs, run)
            check(ft == "B", "file type %r for an Apple binary", ft)
        else:
            raw = get_bsave(src.segs, run)
    except errors.InvalidBinaryFile:
        check(bad or refuse or toobig, "binary refused although everything is valid")
        src.unchanged()
        return {"labels": lab + ["refused"], "nontrivial": len(m) > 0}
    raw = bytes(np.asarray(raw).tobytes())
    check(not bad, "binary created from segments that cannot be loaded")
    check(not refuse, "run address %04x outside all segments accepted" % (run or 0))
    check(not toobig, "binary larger than the header can express accepted")
    src.unchanged()
    start = raw[0] | raw[1] << 8
    count = raw[2] | raw[3] << 8
    check(start == first, "load address %04x, expected %04x", start, first)
    check(count == len(raw) - 4, "header says %d bytes, file has %d", count, len(raw) - 4)
    want = bytearray(hi - first)
    if jump:
        want[0:3] = bytes([0x4c, run & 255, run >> 8])
        lab.append("jump")
    for o, d, s, c in m:
        want[o - first:o - first + len(d)] = d
    same(raw[4:], want, "contents of the binary")
    f = Dos33BinFile(SegmentData(np.frombuffer(raw, dtype=np.uint8).copy()))
    f.parse_segments()
    check(len(f.segments) == 1, "%d segments in the parsed binary", len(f.segments))
    check(f.segments[0].origin == first, "parsed origin %04x, expected %04x", f.segments[0].origin, first)
    same(f.segments[0].tobytes(), want, "parsed binary")
    return {"labels": lab, "nontrivial": len(m) > 1 or jump}


# ------------------------------------------------------------ P14

def run_kboot(image, limit=6000000):
    """Boot an Atari from `image` (without ATR header).  Returns (memory,
    written addresses in order of loading, init calls, final pc)"""
    mem = bytearray(65536)
    n = image[1]
    load = image[2] | image[3] << 8
    check(n * 128 <= len(image), "boot sector count %d larger than the disk", n)
    mem[load:load + n * 128] = image[0:n * 128]
    loader = range(load, load + n * 128)
    cpu = CPU(mem)
    cpu.io_lo, cpu.io_hi = 0xd000, 0xd7ff
    inits = []

    def siov(c):
        sec = c.word(0x30a)
        buf = c.word(0x304)
        cnt = c.word(0x308)
        check(mem[0x300] == 0x31 and mem[0x301] == 1 and mem[0x302] == 0x52, "boot code uses the wrong device or command")
        check(cnt == 128, "boot code reads %d bytes", cnt)
        check(1 <= sec <= len(image) // 128, "boot code reads sector %d of a disk of %d", sec, len(image) // 128)
        for i in range(128):
            mem[buf + i] = image[(sec - 1) * 128 + i]
        c.y = 1
        c.a = 1
        c.c = True
        c.n = False
        c.z = False
        c.rts()
        return True

    cpu.hooks[0xe459] = siov
    cpu.push(0xff)
    cpu.push(0xfe)
    cpu.pc = load + 6
    while True:
        try:
            pc = cpu.run(lambda p: p in loader or p == 0xe459, limit)
        except Trap as e:
            raise Violation("boot code traps: %s" % e)
        if mem[0x2e2] or mem[0x2e3]:
            inits.append((pc, bytes(mem)))
            check(pc == cpu.word(0x2e2), "init address %04x called as %04x", cpu.word(0x2e2), pc)
            cpu.rts()
            continue
        return mem, inits, pc


@register("P14")
def p14(case):
    src = Src(case["segs"])
    run = case.get("run")
    m = src.model
    lab = labels_for(case)
    has_run = any(o == 0x2e0 for o, d, s, c in m)
    bad = invalid_input(m) or any(o == 0xffff for o, d, s, c in m)
    refuse = bool(run) and not has_run and not inside(m, run)
    total = 2 + sum(4 + len(d) for o, d, s, c in m) + (0 if has_run else 6)
    try:
        with quiet():
            img = KBootImage.create_boot_image(src.segs, run)
    except errors.InvalidBinaryFile:
        check(bad or refuse or total > 0xffff, "boot disk refused although everything is valid")
        src.unchanged()
        return {"labels": lab + ["refused"], "nontrivial": len(m) > 0}
    check(not bad and not refuse, "boot disk created from invalid segments or run address")
    check(total <= 0xffff, "boot disk created from an executable of %d bytes", total)
    src.unchanged()
    atr = bytes(img.bytes.tobytes())
    check(atr[0:2] == b"\x96\x02", "no ATR header")
    pars = atr[2] | atr[3] << 8 | atr[6] << 16
    check(pars * 16 == len(atr) - 16, "ATR header says %d bytes, image has %d", pars * 16, len(atr) - 16)
    check(atr[4] | atr[5] << 8 == 128, "sector size in header")
    check((len(atr) - 16) % 128 == 0, "image ends inside a sector")
    # the saved image, opened again
    parser, mime = atrcopy.find_diskimage_from_data(atr)
    check(isinstance(parser.image, KBootImage), "recognised as %s", type(parser.image).__name__)
    check(mime == "application/vnd.atari8bit.atr", "media type %s", mime)
    check(len(parser.image.files) == 1, "%d files on the boot disk", len(parser.image.files))
    exe = parser.image.get_file(parser.image.files[0])
    exe = bytes(exe)
    blocks = parse_xex(exe)
    check(len(exe) == total, "executable of %d bytes on the disk, expected %d", len(exe), total)
    body = [b for b in blocks if has_run or b[1] != 0x2e0]
    check([(b[1], b[2]) for b in body] == [(o, d) for o, d, s, c in m], "executable on the disk has other blocks")
    want_run = None
    for off, start, d in blocks:
        if start == 0x2e0:
            want_run = d[0] | d[1] << 8
    expected = (run or m[0][0]) if not has_run else None
    if not has_run:
        check(want_run == expected, "run address %04x on the disk, expected %04x", want_run or 0, expected)
    mem, inits, pc = run_kboot(atr[16:])
    check(pc == want_run, "boot code jumps to %04x, run address is %04x", pc, want_run)
    want_mem = memory_of([(o, d) for o, d, s, c in m])
    for a, v in want_mem.items():
        if a in (0x2e2, 0x2e3):
            continue
        if mem[a] != v:
            raise Violation("memory at %04x is %02x after booting, expected %02x" % (a, mem[a], v))
    # init routines are called after the block that sets the vector, when
    # everything before it is in memory
    want_inits = []
    loaded = []
    for off, start, d in blocks:
        loaded.append((start, d))
        if start <= 0x2e2 < start + len(d):
            w = memory_of([(start, d)])
            v = w[0x2e2] | w.get(0x2e3, 0) << 8
            if v:
                want_inits.append((v, memory_of(loaded)))
    check([p for p, mm in inits] == [p for p, mm in want_inits], "init routines called: %s expected: %s", [hex(p) for p, mm in inits], [hex(p) for p, mm in want_inits])
    for (p, mm), (q, wm) in zip(inits, want_inits):
        for a, v in wm.items():
            if a not in (0x2e2, 0x2e3):
                check(mm[a] == v, "memory at %04x not loaded before the init routine", a)
    if inits:
        lab.append("init")
    return {"labels": lab, "nontrivial": len(m) > 1 or bool(run)}


# ------------------------------------------------------------ P15

PHYS = [0, 7, 0xe, 6, 0xd, 5, 0xc, 4, 0xb, 3, 0xa, 2, 9, 1, 8, 0xf]


def run_apple(image, limit=6000000):
    """Boot an Apple ][ from a DOS ordered image with the Disk ][ boot ROM
    modelled at its documented entry point.  Returns (memory, final pc)"""
    mem = bytearray(65536)
    head = {"half": 0, "phase": 0}
    track_of = lambda: head["half"] // 2

    def sector(track, phys):
        check(0 <= track < 35, "boot code moves to track %d", track)
        o = (track * 16 + PHYS[phys]) * 256
        return image[o:o + 256]

    cpu = CPU(mem)
    cpu.io_lo, cpu.io_hi = 0xc000, 0xc0ff
    on = set()

    def io(addr):
        if 0xc0e0 <= addr <= 0xc0e7:
            ph, state = divmod(addr - 0xc0e0, 2)
            if state:
                on.add(ph)
                # the head is pulled to an adjacent energised phase
                cur = head["half"] % 4
                if ph == (cur + 1) % 4:
                    head["half"] += 1
                elif ph == (cur - 1) % 4:
                    head["half"] -= 1
                    check(head["half"] >= 0, "boot code moves below track 0")
            else:
                on.discard(ph)

    cpu.on_io = io

    def rom(c):
        # read physical sector $3d of the current track into page $27
        t = track_of()
        check(head["half"] % 2 == 0, "boot code reads between tracks")
        check(mem[0x41] == t, "boot code waits for track %d with the head on %d", mem[0x41], t)
        check(mem[0x3d] < 16, "boot code reads sector %d", mem[0x3d])
        check(mem[0x26] == 0, "boot code reads into an odd buffer")
        p = mem[0x27]
        check(p < 0xc0, "boot code loads into page %02x", p)
        mem[p * 256:p * 256 + 256] = sector(t, mem[0x3d])
        mem[0x40] = t
        mem[0x27] = (p + 1) & 255
        mem[0x3d] = (mem[0x3d] + 1) & 255
        c.a = mem[0x3d]
        c.x = mem[0x2b]
        c.y = 0
        c.c = True
        c.pc = 0x801
        return True

    def shr4(c):
        c.a = c.nz(c.a >> 4)
        c.rts()
        return True

    def wait(c):
        c.a = c.nz(0)
        c.c = True
        c.rts()
        return True

    cpu.hooks[0xc65c] = rom
    cpu.hooks[0xf87b] = shr4
    cpu.hooks[0xfca8] = wait
    mem[0x800:0x900] = sector(0, 0)
    mem[0x26], mem[0x27], mem[0x2b], mem[0x3d], mem[0x40], mem[0x41] = 0, 9, 0x60, 1, 0, 0
    cpu.a, cpu.x, cpu.y, cpu.c = 1, 0x60, 0, True
    cpu.pc = 0x801
    try:
        pc = cpu.run(lambda p: 0x800 <= p < 0x900 or p in (0xc65c, 0xf87b, 0xfca8), limit)
    except Trap as e:
        raise Violation("boot code traps: %s" % e)
    return mem, pc


def apple_fits(m):
    """None when the loader can't be expected to load it, else True/False when
    the answer is known from the geometry alone"""
    pages = 0
    for o, d, s, c in m:
        if not d:
            continue
        first, last = o // 256, (o + len(d) - 1) // 256
        if first == 0 or last >= 0xc0 or first <= 8 <= last:
            return False
        pages += last - first + 1
    if pages > 559:
        return False
    return True


@register("P15")
def p15(case):
    src = Src(case["segs"])
    run = case.get("run")
    m = src.model
    lab = labels_for(case)
    empty = any(len(d) == 0 for o, d, s, c in m)    # may be skipped or refused
    bad = not m or any(o < 0 or o + len(d) > 0x10000 for o, d, s, c in m)
    fits = not bad and apple_fits(m)
    # commands the loader needs at most: two per 32 pages and segment, a
    # screen switch per segment, the first switch and the end mark
    cmds = 2 + sum(2 * ((len(d) + 511) // (256 * 32) + 1) + 1 for o, d, s, c in m)
    hgr = sum(32 for o, d, s, c in m if o == 0x2000 and len(d) > 0x1f00)
    easy = cmds + hgr < 100
    try:
        with quiet():
            img = StandardDeliveryImage.create_boot_image(src.segs, run)
    except errors.AtrError:
        src.unchanged()
        check(not (fits and easy and not empty), "boot disk refused although everything fits")
        return {"labels": lab + ["refused" + ("" if not fits else "-commands")], "nontrivial": len(m) > 0}
    src.unchanged()
    check(m, "boot disk made from no segments")
    check(fits, "boot disk created from segments the loader cannot load")
    raw = bytes(img.bytes.tobytes())
    check(len(raw) == 143360, "image of %d bytes", len(raw))
    mem, pc = run_apple(raw)
    want = run or m[0][0]
    check(pc == want, "boot code jumps to %04x, run address is %04x", pc, want)
    for a, v in memory_of([(o, d) for o, d, s, c in m]).items():
        if mem[a] != v:
            raise Violation("memory at %04x is %02x after booting, expected %02x" % (a, mem[a], v))
    if hgr:
        lab.append("hgr")
    return {"labels": lab, "nontrivial": len(m) > 1 or bool(run)}
