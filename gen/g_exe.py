"""Executables and boot disks (P11 - P15)."""
from hypothesis import strategies as st

from . import entry

VIEWS = ["plain", "plain", "list", "slice", "rev", "perm"]


def data(sizes):
    return st.builds(lambda n, k, s: {"n": n, "k": k, "s": s}, sizes, st.sampled_from(["rnd", "rnd", "ramp", "const"]), st.integers(0, 999))


SMALL = st.one_of(st.integers(1, 40), st.sampled_from([1, 2, 3, 127, 128, 129, 255, 256, 257, 512, 700]), st.integers(1, 3000))


def seg(origin, sizes, views=VIEWS, comments=True):
    d = dict(o=origin, d=data(sizes), v=st.sampled_from(views), pre=st.integers(0, 9))
    if comments:
        d["st"] = st.sampled_from([0, 0, 1, 7, 31])
        d["cm"] = st.lists(st.tuples(st.integers(0, 300), st.text("abc ", min_size=1, max_size=5)), max_size=3)
    return st.fixed_dictionaries(d)


def covers_run(s):
    return s["o"] <= 0x2e1 and s["o"] + s["d"]["n"] > 0x2e0


def near(prev):
    """origins related to an earlier segment: adjacent, overlapping"""
    return prev


@st.composite
def seg_list(draw, lo, hi, sizes, nmax=6, views=VIEWS, comments=True, keep=None, maxend=0x10000, invalid=True):
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 4, nmax]))
    segs = []
    for i in range(n):
        if segs and draw(st.integers(0, 2)) == 0:
            p = draw(st.sampled_from(segs))
            o = p["o"] + draw(st.sampled_from([p["d"]["n"], p["d"]["n"] // 2, 0, 1, -1, -7, p["d"]["n"] + 1, p["d"]["n"] - 1, 256]))
        else:
            o = draw(st.one_of(st.integers(lo, hi), st.sampled_from([x for x in [0x0, 0x400, 0x600, 0x900, 0x1ffe, 0x2000, 0x2100, 0x3fff, 0x4000, 0x6000, 0x9600, 0xa000, 0xbf00, 0xff00] if lo <= x <= hi] or [lo])))
        s = draw(seg(st.just(max(lo, min(hi, o))), sizes, views, comments))
        if s["o"] + s["d"]["n"] > maxend:
            s["o"] = max(lo, maxend - s["d"]["n"])
            s["d"]["n"] = min(s["d"]["n"], maxend - s["o"])
        if keep is None or keep(s):
            segs.append(s)
    if invalid and draw(st.integers(0, 15)) == 0:
        kind = draw(st.sampled_from(["none", "empty", "over", "neg", "ffff"]))
        if kind == "none":
            segs = []
        elif segs:
            i = draw(st.integers(0, len(segs) - 1))
            if kind == "empty":
                segs[i]["d"] = {"n": 0}
                segs[i]["v"] = "plain"
                segs[i]["cm"] = []
            elif kind == "over":
                segs[i]["o"] = 0x10000 - segs[i]["d"]["n"] + draw(st.integers(1, 300))
            elif kind == "neg":
                segs[i]["o"] = -draw(st.integers(1, 5))
            elif kind == "ffff":
                segs[i]["o"] = 0xffff
                segs[i]["d"]["n"] = 1
    return segs


def run_for(draw, segs):
    """requested run address: none, inside, at an edge, outside"""
    k = draw(st.sampled_from(["none", "none", "in", "in", "in", "in", "first", "last", "last", "after", "before", "any"]))
    if k == "none" or not segs:
        return None
    s = draw(st.sampled_from(segs))
    n = s["d"]["n"]
    r = {"in": s["o"] + draw(st.integers(0, max(0, n - 1))), "first": s["o"], "last": s["o"] + n - 1, "after": s["o"] + n,
         "before": s["o"] - 1, "any": draw(st.integers(1, 0xffff))}[k]
    return r if 0 < r <= 0xffff else None


@st.composite
def p11_case(draw):
    sizes = st.one_of(SMALL, SMALL, SMALL, st.integers(3000, 20000))
    segs = draw(seg_list(0, 0xffff, sizes, nmax=8))
    segs = [s for s in segs if not covers_run(s)]
    own = draw(st.integers(0, 5)) == 0
    run = None
    if own and segs:
        r = draw(seg(st.just(0x2e0), st.sampled_from([2, 2, 4])))
        segs.insert(draw(st.integers(0, len(segs))), r)
    else:
        run = run_for(draw, segs)
    case = {"segs": segs, "run": run}
    if draw(st.integers(0, 4)) == 0:
        case["via"] = "file"
        case["name"] = draw(st.sampled_from(["A.XEX", "a.xex", "out.Xex"]))
    return case


@st.composite
def p12_case(draw):
    n = draw(st.integers(1, 8))
    blocks = []
    for i in range(n):
        k = draw(st.integers(0, 9))
        d = draw(data(st.one_of(SMALL, SMALL, st.integers(1, 9000))))
        if k == 0:
            start = 0x2e0
            d["n"] = draw(st.sampled_from([2, 2, 4]))
        elif k == 1:
            start = 0x2e2
            d["n"] = 2
        else:
            start = draw(st.one_of(st.integers(0, 0xfffe), st.sampled_from([0, 0xff, 0x100, 0xfe00, 0xff00, 0xfffe, 0x2000])))
            d["n"] = min(d["n"], 0x10000 - start)
        if draw(st.integers(0, 40)) == 0 and i == 0:
            start, d["n"] = 0, 65536
        blocks.append({"start": start, "d": d, "mark": draw(st.sampled_from([0, 0, 1, 1, 2]))})
    case = {"blocks": blocks, "lead": draw(st.sampled_from([1, 1, 1, 2, 3])), "trail": draw(st.sampled_from([0, 0, 0, 1])),
            "via": draw(st.sampled_from(["file", "file", "guess"])),
            "writes": draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 70000), st.integers(0, 255)), max_size=4))}
    b = draw(st.sampled_from([None, None, None, "trunc", "trunc", "nomark", "endstart"]))
    if b:
        case["break"] = b
        case["at"] = draw(st.integers(0, 9))
        case["by"] = draw(st.sampled_from([0, 1, 255, 1000]))
        case["cut"] = draw(st.integers(0, 20000))
        case["junk"] = draw(st.sampled_from([[0, 0], [0xff, 0], [0xfe, 0xff], [], [0, 0xff]]))
    return case


@st.composite
def p13_case(draw):
    big = draw(st.integers(0, 5)) == 0
    sizes = st.one_of(SMALL, st.integers(1000, 20000)) if not big else st.integers(20000, 65530)
    segs = draw(seg_list(0, 0xffff, sizes, nmax=6))
    case = {"segs": segs, "run": run_for(draw, segs)}
    if draw(st.integers(0, 4)) == 0:
        case["via"] = "file"
        case["name"] = draw(st.sampled_from(["A.BIN", "a.bsave", "out.bin", "X.BSAVE"]))
    return case


def loadable(s):
    """outside the memory that the boot loader itself uses"""
    a, e = s["o"], s["o"] + s["d"]["n"]
    return (0x400 <= a and e <= 0x700) or (0x880 <= a and e <= 0xd000)


@st.composite
def p14_case(draw):
    k = draw(st.integers(0, 9))
    sizes = st.one_of(SMALL, st.integers(1, 9000)) if k else st.integers(15000, 40000)
    segs = draw(seg_list(0x400, 0xcfff, sizes, nmax=6, comments=False, keep=loadable, maxend=0xd000, views=["plain", "list", "slice", "perm"]))
    bad = any(s["d"]["n"] == 0 or s["o"] < 0 or s["o"] + s["d"]["n"] > 0x10000 or s["o"] == 0xffff for s in segs)
    run = run_for(draw, segs)
    if segs and not bad:
        if draw(st.integers(0, 5)) == 0:
            # pad to land on a sector boundary
            total = 8 + sum(4 + s["d"]["n"] for s in segs)
            want = (-total) % 128 + draw(st.sampled_from([-1, 0, 1]))
            s = segs[-1]
            if s["o"] + s["d"]["n"] + want <= 0xd000 and loadable(dict(s, d=dict(s["d"], n=s["d"]["n"] + max(0, want)))):
                s["d"]["n"] += max(0, want)
        for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
            tgt = draw(st.sampled_from(segs))["o"]
            segs.insert(draw(st.integers(0, len(segs))), {"o": 0x2e2, "d": {"hex": "%02x%02x" % (tgt & 255, tgt >> 8)}, "v": "plain"})
        if draw(st.integers(0, 7)) == 0:
            tgt = draw(st.sampled_from(segs))["o"]
            segs.insert(draw(st.integers(0, len(segs))), {"o": 0x2e0, "d": {"hex": "%02x%02x" % (tgt & 255, tgt >> 8)}, "v": "plain"})
            run = None
        if draw(st.integers(0, 11)) == 0:
            # around the limit of the loader
            total = 2 + sum(4 + len(bytes.fromhex(s["d"]["hex"])) if "hex" in s["d"] else 4 + s["d"]["n"] for s in segs)
            total += 0 if any(s["o"] == 0x2e0 for s in segs) else 6
            need = 65535 + draw(st.sampled_from([-1, 0, 1, 2, 300])) - total
            while need > 4:
                n = min(need - 4, 0xd000 - 0x2000)
                if need - 4 - n in (1, 2, 3, 4):
                    n -= 5
                segs.append({"o": 0x2000, "d": {"n": n, "k": "ramp", "s": 3}, "v": "plain"})
                need -= 4 + n
    return {"segs": segs, "run": run}


@st.composite
def p15_case(draw):
    k = draw(st.integers(0, 9))
    sizes = st.one_of(SMALL, SMALL, st.sampled_from([8192, 8191, 8193, 7937, 7936, 16384]), st.integers(1, 9000)) if k else st.integers(10000, 40000)
    def okay(s):
        if (s["o"] in (0x2001, 0x4001)):
            return False
        return 0x400 <= s["o"] and s["o"] + s["d"]["n"] <= 0xc000
    wild = draw(st.integers(0, 9)) == 0
    segs = draw(seg_list(0x400 if not wild else 0, 0xbfff if not wild else 0xffff, sizes, nmax=draw(st.sampled_from([4, 8, 40])), comments=False,
                         keep=(lambda s: s["o"] not in (0x2001, 0x4001) and not (0x100 <= s["o"] < 0x400)) if wild else okay, maxend=0xc000 if not wild else 0x10000,
                         views=["plain", "list", "slice", "perm"]))
    if not wild and draw(st.integers(0, 7)):
        segs = [s for s in segs if s["o"] + s["d"]["n"] <= 0x800 or s["o"] >= 0x900 or s["d"]["n"] == 0]
    special = draw(st.integers(0, 19))
    if special in (0, 7):
        # around the size of the command table
        size = draw(st.sampled_from([1, 256, 300, 600]))
        k = draw(st.one_of(st.integers(25, 125), st.integers(117, 122) if size <= 256 else st.integers(57, 62)))
        step = draw(st.sampled_from([0x100, 0x200, 0x300]))
        segs = [{"o": 0x1000 + (i * step) % 0x9000, "d": {"n": size, "k": "rnd", "s": i}, "v": "plain"} for i in range(k)]
        segs = [s for s in segs if s["o"] + s["d"]["n"] <= 0xc000]
    elif special == 1:
        # around the size of the disk
        left = 559 + draw(st.sampled_from([-17, -16, -1, 0, 1, 2]))
        segs = []
        while left > 0:
            k = min(left, draw(st.integers(40, 0xc0 - 9)))
            segs.append({"o": 0x900 + 256 * draw(st.integers(0, 0xc0 - 9 - k)), "d": {"n": k * 256 - draw(st.sampled_from([0, 1, 255])), "k": "rnd", "s": left}, "v": "plain"})
            left -= k
    run = run_for(draw, segs)
    # the boot page itself is not a place to run from
    if run is not None and (0x800 <= run < 0x900 or run in (0xc65c, 0xf87b, 0xfca8)):
        run = None
    if run is None and segs and 0x800 <= segs[0]["o"] < 0x900:
        pass
    return {"segs": segs, "run": run}


entry("P11", strategy=p11_case(), quick=2400, thorough=80000,
      rule="at least two segments or a requested run address",
      assumptions=["no run address is requested when a segment already sets the run vector", "no segment covers the run vector other than one starting there"],
      technique="property-based testing: build, decode with an independent reader of the format, and parse back")
entry("P12", strategy=p12_case(), quick=4000, thorough=80000,
      rule="at least two complete blocks, or a broken file",
      technique="property-based testing of generated and damaged files against an independent reader of the format")
entry("P13", strategy=p13_case(), quick=1600, thorough=80000,
      rule="at least two segments or a jump to the run address",
      technique="property-based testing: build, compare with a memory image model, and parse back")
entry("P14", strategy=p14_case(), quick=1600, thorough=60000,
      rule="at least two segments or a requested run address",
      assumptions=["segments lie outside the memory the boot loader itself uses (zero page, stack, $02xx/$03xx system variables, $0700-$087F, ROM)",
                   "the OS is modelled by its documented boot sequence and SIO call; init routines return at once"],
      technique="property-based testing; the boot code is executed on a simulated 6502 and the resulting memory compared with a model")
entry("P15", strategy=p15_case(), quick=1000, thorough=60000,
      rule="at least two segments or a requested run address",
      assumptions=["the boot ROM is modelled by its documented entry points and the head by the stepper phases",
                   "origins $2001 and $4001, which the code uses as a marker to load a page without showing it, are left out",
                   "segments in pages 1-3 (stack and vectors) are left out"],
      technique="property-based testing; the boot code is executed on a simulated 6502 and disk and the resulting memory compared with a model")
