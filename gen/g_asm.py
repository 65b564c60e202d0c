"""assemble and boot on the command line (P26)."""
from hypothesis import strategies as st

from . import entry
from .g_fs import atari_disk, dos33_disk
from .g_parse import pick

FMT = ["hex", "hex", "HEX", "0x", "$", "#", "%", "h4"]
NAMES = ["a.dat", "b.bin", "title.pic", "x[1].raw", "d@2.bin", "sp ace.bin", "sub/c.dat"]


def dat(lo, hi):
    return st.builds(lambda n, k, s: {"n": n, "k": k, "s": s}, st.one_of(st.integers(lo, 60), st.integers(lo, 600), st.integers(lo, hi)),
                     st.sampled_from(["rnd", "ramp", "rnd"]), st.integers(0, 99))


def addr(low=False, lo=0x900, hi=0xb000):
    a = st.one_of(st.integers(lo, hi), st.sampled_from([0x900, 0x2000, 0x2100, 0x4000, 0x6000, 0x1ffe, 0x8000]))
    if not low:
        return a
    # anywhere, when nothing has to be loaded there by a boot loader
    return st.one_of(a, a, a, st.sampled_from([1, 2, 3, 4, 0x80, 0xfe, 0xff, 0x100, 0x1ff, 0x200, 0x400, 0xc000, 0xd000]), st.integers(1, 0x260), st.integers(0x300, 0xfe00))


@st.composite
def sl(draw, n):
    """a slice, mostly one that selects something of a file of n bytes"""
    if n < 2 or draw(st.integers(0, 12)) == 7:
        return draw(any_sl())
    a = draw(st.integers(0, n - 1))
    b = draw(st.integers(a + 1, n))
    step = draw(st.sampled_from(["", "", None, 1, 2, 3, 7, -1, -2]))
    if isinstance(step, int) and step < 0:
        lo, hi = b - 1, a - 1
        if hi < 0:
            hi = None
        elif draw(st.booleans()):
            hi -= n
        return [lo - n if draw(st.booleans()) else lo, hi, step]
    r = [draw(st.sampled_from([a, a - n] + ([None] * 2 if a == 0 else []))), draw(st.sampled_from([b, b] + ([b - n] * 2 if b < n else [None, n + 5])))]
    return r if step == "" else r + [step]


def any_sl():
    b = st.one_of(st.none(), st.integers(0, 80), st.integers(-80, -1), st.integers(0, 700))
    return st.one_of(st.tuples(b, b).map(list), st.tuples(b, b).map(list), st.tuples(b, b, st.sampled_from([None, 1, 2, 3, 7, -1, -2])).map(list))


@st.composite
def xex_obj(draw, low=False):
    blocks = []
    datas = []
    for _ in range(draw(st.integers(1, 4))):
        b = {"t": "data", "o": draw(addr(low)), "d": draw(dat(1, 900))}
        if b["o"] < 0x300:
            b["d"]["n"] = min(b["d"]["n"], 0x2e0 - b["o"])
        blocks.append(b)
        datas.append(b)
    k = draw(st.integers(0, 3))
    if k:
        d = draw(st.sampled_from(datas))
        b = {"t": "run", "run": d["o"] + draw(st.integers(0, d["d"]["n"] - 1))}
        if k == 3:
            b["init"] = datas[0]["o"]
        blocks.insert(draw(st.integers(0, len(blocks))), b)
    if draw(st.integers(0, 3)) == 0:
        blocks.insert(draw(st.integers(0, len(blocks))), {"t": "init", "init": datas[0]["o"]})
    for b in blocks[1:]:
        b["mark"] = draw(st.integers(0, 3)) == 0
    return {"k": "xex", "blocks": blocks}


@st.composite
def bsave_obj(draw, low=False):
    return {"k": "bsave", "o": draw(addr(low)), "d": draw(dat(1, 900))}


@st.composite
def p26_case(draw, where):
    host = {n: draw(dat(draw(st.sampled_from([0, 1, 1, 1, 1, 1])), 2500)) for n in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))}
    apple = draw(st.booleans())
    objs = {}
    for n in draw(st.lists(st.sampled_from(["o1", "o2.xex", "prog.bin"]), max_size=2, unique=True)):
        objs[n] = draw(pick(xex_obj(where != "boot"), bsave_obj(where != "boot")))
    case = {"where": where, "host": host, "objs": objs}
    args = []
    items = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 1, 2, 2] + ([0] * 2 if objs else [])))):
        its = []
        for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
            it = {"file": draw(st.sampled_from(sorted(host))), "fmt": draw(st.sampled_from(FMT)), "addr": draw(addr(where != "boot"))}
            if draw(st.integers(0, 1)):
                it["slice"] = draw(sl(host[it["file"]]["n"]))
            if draw(st.integers(0, 90)) == 60:
                it["addr"] = draw(st.sampled_from([0xffff, 0x10000, 0xff00, 0x12345, 0]))
            if draw(st.integers(0, 70)) == 46:
                it["badaddr"] = draw(st.sampled_from(["", "@", "@xyz", "@#12g", "@0xg", "@%102"]))
            if draw(st.integers(0, 70)) == 46:
                it["file"] = "missing.dat"
            its.append(it)
        items += its
        args.append([draw(st.sampled_from(["-d", "-d", "--data"])), its])
    if draw(st.integers(0, 3)) == 2:
        case["srcs"] = {n: [[draw(addr(where != "boot")), draw(dat(1, 300))] for _ in range(draw(st.integers(1, 3)))] for n in ("m1.s", "m2.s")}
        if draw(st.integers(0, 15)) == 9:
            case["srcs"]["m1.s"].append([None, None])
        case["noasm"] = draw(st.integers(0, 15)) == 9
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            args.insert(draw(st.integers(0, len(args))), [draw(st.sampled_from(["-s", "--asm"])), draw(st.lists(st.sampled_from(["m1.s", "m2.s"]), min_size=1, max_size=2))])
    if objs:
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            its = draw(st.lists(st.sampled_from(sorted(objs)), min_size=1, max_size=2))
            if draw(st.integers(0, 70)) == 46:
                its.append("missing.xex")
            args.append([draw(st.sampled_from(["-b", "-b", "--obj", "--bload"])), its])
    case["args"] = args
    k = draw(st.integers(0, 5))
    if k >= 2:
        cand = [i["addr"] + draw(st.integers(0, 4)) for i in items] + [b["o"] for o in objs.values() for b in o.get("blocks", [o]) if "o" in b]
        a = draw(st.sampled_from(cand)) if cand and draw(st.integers(0, 9)) != 6 else draw(st.integers(1, 0x10001))
        case["run"] = {"addr": a or 1, "fmt": draw(st.sampled_from(FMT)), "opt": draw(st.sampled_from(["-r", "--run-addr", "--brun"]))}
        if draw(st.integers(0, 15)) == 10:
            case["run"] = {"bad": draw(st.sampled_from(["main", "20g0", "$", "0x", "12 34", "start"]))}
    case["dry"] = draw(st.integers(0, 12)) == 8
    case["force"] = draw(st.booleans())
    if where == "boot":
        case["target"] = draw(st.sampled_from(["new.atr", "new.atr", "new.dsk", "NEW.ATR", "x.dsk", draw(st.sampled_from(["y.atr", "x.zzz", "plain"]))]))
        case["exists"] = draw(st.integers(0, 2)) == 0
        case["alias"] = draw(st.sampled_from(["boot", "b"]))
    else:
        case["alias"] = draw(st.sampled_from(["assemble", "asm", "s"]))
        outs = ["OUT.XEX", "OUT.BIN", "OUT", "game.xex", "G.BSAVE", "LONGOUTPUTNAME.XEX", "MYBIN", "TEST"]
        if where == "disk":
            case["disk"] = draw(pick(atari_disk(3), dos33_disk(3)))
            names = [f["name"] for f in case["disk"].get("files", [])]
            case["out"] = draw(st.sampled_from(outs + names)) if names else draw(st.sampled_from(outs))
        else:
            case["out"] = draw(st.sampled_from(outs))
            case["exists"] = draw(st.integers(0, 2)) == 0
    return case


entry("P26", strategy=pick(p26_case("disk"), p26_case("disk"), p26_case("boot"), p26_case("local")), quick=1200, thorough=20000,
      rule="at least two segments, a requested run address or a slice",
      assumptions=["object files are whole XEX files with at most one run block each, or BSAVE files, whose segments start above address 0; object files of no known kind are skipped with a message, as documented by the code",
                   "pyatasm is not installed: source files are assembled by a stand-in for it",
                   "data is not placed over the run and init vectors"],
      technique="property-based testing of command lines against an independent model of the executable formats; boot disks are run in a 6502 simulator")
