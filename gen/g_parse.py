"""Images of every kind, whole and damaged (P16, P17, P22, P23, P27)."""
from hypothesis import strategies as st

from . import entry
from .g_fs import atari_disk, dos33_disk, UP, NUM

TEST = ["dos_sd_test1.atr", "dos_ed_test1.atr", "dos_dd_test1.atr", "kboot_test1.atr", "sd_sd_test1.atr", "sd_dd_test1.atr",
        "dos33_master.dsk", "air_defense_v18.xex", "dos_sd_test4.atr", "sd_dd_test5.atr"]
TPL = ["dos2dd.atr", "dos2ed+2.5.atr", "dos2ed.atr", "dos2sd+2.0s.atr", "dos2sd.atr", "dos33.dsk", "dos33autobrun.dsk"]
SIZES = [0, 1, 2, 3, 4, 5, 6, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 384, 400, 512, 1024, 2048, 4096, 8192, 8208, 16384, 16400, 92160,
         92176, 133120, 133136, 143360, 183936, 183952, 184320, 184336, 46080 + 16, 92176 - 1, 184336 - 128, 143359, 143361, 40960 + 16]


def dat(top=600):
    return st.builds(lambda n, k, s: {"n": n, "k": k, "s": s}, st.integers(0, top), st.sampled_from(["rnd", "const", "ramp", "tail0"]), st.integers(0, 255))


def hexes(lo=1, hi=4):
    return st.binary(min_size=lo, max_size=hi).map(lambda b: b.hex())


@st.composite
def atr_head(draw):
    par = draw(st.sampled_from([0, 1, 8, 24, 5760, 8320, 11496, 11520, 65535, 5759]))
    ss = draw(st.sampled_from([0, 1, 2, 3, 4, 16, 127, 128, 128, 128, 256, 256, 512, 65535]))
    hi = draw(st.sampled_from([0, 0, 0, 1, 255]))
    rest = draw(st.sampled_from(["00" * 9, "ff" * 9, "0102030405060708 09".replace(" ", "")]))
    return "9602" + par.to_bytes(2, "little").hex() + ss.to_bytes(2, "little").hex() + "%02x" % hi + rest


@st.composite
def raw_img(draw):
    n = draw(st.one_of(st.sampled_from(SIZES), st.sampled_from(SIZES), st.integers(0, 3000)))
    spec = {"k": "raw", "data": {"n": n, "k": draw(st.sampled_from(["rnd", "const", "ramp", "tail0"])), "s": draw(st.sampled_from([0, 255, 1, 65, 7]))}}
    if draw(st.booleans()):
        spec["head"] = draw(st.one_of(
            st.sampled_from(["ffff", "ffff0020", "ffff00200020", "43415254", "4341525400000001", "43415254000000ff0000000000000000", "504b0304", "504b0506" + "00" * 18,
                             "1f8b", "1f8b0800000000000003", "425a68", "425a6839314159265359", "fd377a585a00", "5d00008000", "f901", "fa21", "fa41", "fa61", "f902", "fa00", "f9", "fa",
                             "0138b003", "000300074015", "00ff00000000", "00010000", "0138a003", "82396721", "9602"]),
            atr_head(), hexes(1, 20)))
    return spec


def file_img():
    t = st.sampled_from(TPL).map(lambda n: ["atrcopy", "templates", n])
    d = st.sampled_from(TEST).map(lambda n: ["test_data", n])
    return st.builds(lambda p, s: {"k": "file", "path": p, "strip": s}, st.one_of(t, d), st.sampled_from([False, False, False, True]))


def pick(*alts):
    """one of the alternatives with equal weight (one_of would spread the
    weight over the nested alternatives)"""
    @st.composite
    def p(draw):
        return draw(alts[draw(st.integers(0, len(alts) - 1))])
    return p()


def fs_img(files_max=4):
    return pick(atari_disk(files_max), dos33_disk(files_max)).map(lambda d: {"k": "fs", "disk": d})


@st.composite
def xex_img(draw, tail=True):
    segs = draw(st.lists(st.tuples(st.one_of(st.sampled_from([0x2000, 0x600, 0x2e0, 0x2e2, 0x2e0, 0, 0xff00, 0x80]), st.integers(0, 0xfffe)),
                                   st.one_of(dat(300), st.just({"n": 2, "k": "rnd", "s": 4})), st.booleans()).map(list), min_size=1, max_size=6))
    spec = {"k": "xex", "segs": segs}
    if tail:
        spec["tail"] = draw(st.one_of(st.just(""), st.just(""), hexes(1, 7), st.sampled_from(["ff", "ffff", "0020", "002000", "00200120aa", "30203020"])))
    return spec


KNOWN_TYPES = list(range(0, 70)) + [255, 1 << 24, 0xffffffff]
CART_SIZES = {57: 2, 58: 4, 59: 4, 1: 8, 2: 16, 3: 16, 45: 16, 12: 32, 33: 32, 44: 8, 15: 16, 13: 64, 18: 40, 20: 4, 19: 8, 4: 32, 16: 16, 6: 16, 7: 40, 0: 0, 46: 4}


@st.composite
def cart_img(draw):
    t = draw(st.one_of(st.sampled_from(sorted(CART_SIZES)), st.sampled_from(sorted(CART_SIZES)), st.sampled_from(KNOWN_TYPES)))
    n = 1024 * CART_SIZES.get(t, 8) + draw(st.sampled_from([0, 0, 0, 0, 1, -1, 16, 1024, -1024]))
    return {"k": "cart", "type": t, "data": {"n": max(0, n), "k": "rnd", "s": draw(st.integers(0, 9))}, "crc": draw(st.sampled_from([0, 1, 0xffffffff]))}


@st.composite
def zip_img(draw):
    names = st.sampled_from(["a.rom", "b", "dir/c.bin", "x" * 40, "\u00e9", "a.rom", "empty"])
    mem = draw(st.lists(st.tuples(names, st.builds(lambda k, s: {"n": k, "k": "rnd" if s & 1 else "const", "s": s}, st.sampled_from([0, 16, 32, 4096, 2048, 100, 15, 1 << 13]), st.integers(0, 9)),
                                  st.sampled_from([0, 8, 8, 12, 14])).map(list), max_size=5))
    return {"k": "zip", "members": mem}


@st.composite
def kboot_img(draw):
    if draw(st.booleans()):
        spec = draw(xex_img())
        spec["k"] = "kboot"
        return spec
    return {"k": "kboot", "data": draw(dat(5000))}


SPARTA_GEO = [(128, 720), (128, 1040), (256, 720), (128, 400), (256, 400), (512, 200), (256, 1440)]
SPARTA_BIG = [(256, 5000), (512, 1400), (128, 33500)]


@st.composite
def sparta_img(draw, geos=SPARTA_GEO, files_max=6):
    ss, ns = draw(st.sampled_from(geos))
    per = (ss - 4) // 2
    unit = st.one_of(st.integers(0, 3 * ss), st.builds(lambda k, d: max(0, k * ss + d), st.integers(0, 8), st.integers(-2, 2)),
                     st.builds(lambda k, d: max(0, k * ss * per + d), st.integers(1, 4 if ss == 128 else 1), st.sampled_from([0, 0, 0, -1, 1, ss, -ss, 5 * ss + 7])))
    if draw(st.integers(0, 5)) == 3 and ss * ns > 80000:
        # longer than 64 K
        unit = st.builds(lambda k, d: k * 65536 + d, st.integers(1, 2), st.one_of(st.integers(-2, 2), st.integers(-300, 300), st.integers(0, 20000)))
    budget = (ns - 40) * ss
    files = []
    names = set()
    nf = draw(st.one_of(st.integers(0, files_max), st.integers(0, files_max), st.integers(0, 30)))
    for i in range(nf):
        n = draw(unit) if nf <= files_max else draw(st.integers(0, 2 * ss))
        need = (n // ss + 3) * ss + (n // (per * ss) + 1) * ss
        if need > budget:
            break
        budget -= need
        status = draw(st.sampled_from([0x08, 0x08, 0x08, 0x09, 0x10, 0x00, 0x31, 0x28, 0x29, 0x0a, 0x0c, 0x0f]))
        name = draw(st.text(UP + NUM, min_size=1, max_size=8)), "" if status & 0x20 else draw(st.text(UP + NUM, max_size=3))
        if status & 8:
            if name in names:
                continue
            names.add(name)
        files.append({"status": status, "name": name[0], "ext": name[1],
                      "data": {"n": n, "k": draw(st.sampled_from(["rnd", "rnd", "ramp", "const"])), "s": draw(st.integers(0, 255))},
                      "date": [draw(st.integers(1, 31)), draw(st.integers(1, 12)), draw(st.integers(0, 99))],
                      "time": [draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59))]})
    return {"k": "sparta", "ss": ss, "nsec": ns, "files": files, "version": draw(st.sampled_from([0x11, 0x20, 0x21])),
            "header": True, "order": draw(st.one_of(st.just(1), st.integers(1, 900))), "seed": draw(st.integers(0, 5))}


@st.composite
def bootdisk_img(draw):
    return {"k": "bootdisk", "size": draw(st.sampled_from([92160, 133120, 183936, 184320, 128, 384, 1024, 4096, 127, 6, 1])),
            "nsec": draw(st.sampled_from([0, 1, 2, 3, 4, 20, 255])), "addr": draw(st.sampled_from([0, 0x700, 0x3000, 0xbf80, 0xbfff, 0xc000, 0xffff])),
            "flag": draw(st.sampled_from([0, 0, 1, 255])), "ss": draw(st.sampled_from([128, 128, 256])), "header": draw(st.booleans()), "s": draw(st.integers(0, 9))}


@st.composite
def bsave_img(draw):
    d = draw(dat(3000))
    spec = {"k": "bsave", "origin": draw(st.sampled_from([0, 0x300, 0x2000, 0xffff, 0xfffe])), "data": d}
    if draw(st.booleans()):
        spec["count"] = max(0, d["n"] + draw(st.sampled_from([-1, 1, 2, 100, -100])))
    return spec


def comp_img(inner, cuts=True):
    return st.builds(lambda i, m, l, c, o: {"k": "comp", "inner": i, "m": m, "level": l, "cuts": c, "opts": o}, inner,
                     st.sampled_from(["gz", "bz2", "xz"]), st.sampled_from([0, 1, 6, 9]),
                     st.one_of(st.just([]), st.lists(st.integers(0, 1000), max_size=3)) if cuts else st.just([]),
                     st.fixed_dictionaries({"check": st.integers(0, 3), "name": st.sampled_from(["", "disk.atr", "x" * 300]), "mtime": st.sampled_from([0, 1, 1 << 31])}))


@st.composite
def foreign_img(draw, which=None):
    """disks as other programs leave them, MyDOS disks among them"""
    from . import g_foreign
    d = draw({"my": g_foreign.mydos, "atari": g_foreign.atari, "apple": g_foreign.apple}[which or draw(st.sampled_from(["my", "atari", "apple"]))]())
    return {"k": "foreign", "disk": {k: v for k, v in d.items() if k != "ops"}}


def any_img():
    base = [foreign_img(), raw_img(), file_img(), fs_img(), fs_img(), xex_img(), cart_img(), zip_img(), kboot_img(), sparta_img(), bootdisk_img(), bsave_img(),
            st.builds(lambda s: {"k": "prodos", "s": s}, st.integers(0, 3))]
    plain = pick(*base)
    wrapped = st.builds(lambda h, i: {"k": "atr", "header": h, "inner": i}, atr_head(), plain)
    return pick(*(base + [comp_img(plain), wrapped]))


def pos():
    atari = st.builds(lambda s, o: ["s", s, o], st.one_of(st.sampled_from([1, 1, 360, 360, 361, 361, 361, 362, 368, 1024, 4, 5]), st.integers(1, 1040)),
                      st.one_of(st.integers(0, 40), st.sampled_from([122, 123, 124, 125, 126, 127, 253, 254, 255]), st.integers(0, 255)))
    apple = st.builds(lambda t, s, o: ["t", t, s, o], st.one_of(st.just(17), st.just(17), st.integers(0, 34)), st.one_of(st.sampled_from([0, 15, 15, 14]), st.integers(0, 15)),
                      st.one_of(st.integers(0, 60), st.integers(0, 255)))
    off = st.one_of(st.integers(0, 30), st.integers(-3, 255), st.sampled_from([-3, -2, -1, 1, 2, 12, 13]))
    links = st.builds(lambda w, e, k, o: [w, e, k, o], st.sampled_from(["ac", "dc", "sp", "my"]), st.integers(0, 5), st.integers(0, 3), off)
    frac = st.integers(0, 1000).map(lambda f: ["f", f])
    return st.one_of(st.integers(0, 64), st.integers(-64, -1), atari, atari, apple, apple, links, links, links, frac)


def mut():
    val = st.one_of(hexes(1, 1), st.sampled_from(["00", "ff", "0000", "ffff", "0100", "01", "80", "7f", "fe", "d002", "6801", "0400", "1000"]), hexes(1, 4))
    return st.one_of(
        st.tuples(st.just("set"), pos(), val), st.tuples(st.just("set"), pos(), val), st.tuples(st.just("set"), pos(), val),
        st.tuples(st.just("xor"), pos(), st.sampled_from([1, 2, 4, 8, 16, 32, 64, 128, 255])),
        st.tuples(st.just("cut"), pos()), st.tuples(st.just("drop"), pos(), st.sampled_from([1, 2, 16, 128, 256])),
        st.tuples(st.just("ins"), pos(), dat(300)),
        st.tuples(st.just("fill"), pos(), st.sampled_from([1, 2, 16, 128, 300, 3000, 200000]), st.sampled_from([0, 255, 1, 0x42])),
        st.tuples(st.just("rnd"), pos(), st.sampled_from([1, 2, 16, 128, 300, 3000]), st.integers(0, 99)),
        st.tuples(st.just("copy"), pos(), pos(), st.sampled_from([1, 2, 16, 128, 256])),
        st.tuples(st.just("app"), dat(300)), link(),
    ).map(list)


def link():
    """a structure that leads back to itself"""
    return st.tuples(st.just("link"), st.sampled_from(["ac", "ac", "my", "dc", "cat", "sp"]), st.integers(0, 3), st.one_of(st.integers(0, 4), st.integers(0, 14)), st.integers(0, 3))


def fs_ac():
    return atari_disk(4, avail=False).map(lambda d: {"k": "fs", "disk": d})


def fs_dc():
    return dos33_disk(4, avail=False).map(lambda d: {"k": "fs", "disk": d})


@st.composite
def hostile(draw):
    if draw(st.integers(0, 9)) == 7:
        # a disk with files of several sectors, and links that lead back
        kind = draw(st.sampled_from(["ac", "ac", "my", "my", "dc", "cat", "sp"]))
        img = draw({"ac": fs_ac, "my": lambda: foreign_img("my"), "dc": fs_dc, "cat": fs_dc, "sp": sparta_img}[kind]())
        img = dict(img)
        img["muts"] = [["link", kind, draw(st.integers(0, 4)), draw(st.integers(0, 5)), draw(st.integers(0, 3))]] + draw(st.lists(mut(), max_size=1))
        return {"img": img, "carts": []}
    img = draw(any_img())
    img = dict(img)
    img["muts"] = draw(st.lists(mut(), max_size=6))
    return {"img": img, "carts": draw(st.lists(st.integers(0, 70), max_size=3)), "name": draw(st.sampled_from(["", "game.atr", "GAME.ATR", "a.b.c", "disk", ".x", "gr\u00f6\u00dfe.dsk", "\u65e5.atr"]))}


entry("P17", strategy=hostile, quick=1600, thorough=60000,
      rule="at least one parser besides the raw data parser accepted the bytes",
      assumptions=["memory is sufficient for the image"])


def whole_img():
    return pick(file_img(), fs_img(), fs_img(), xex_img(tail=False), cart_img(), zip_img(), kboot_img(), sparta_img(), bootdisk_img(), bsave_img(),
                     st.builds(lambda s: {"k": "prodos", "s": s}, st.integers(0, 3)))


def cmut():
    p = st.one_of(st.integers(0, 40), st.integers(-40, -1), st.integers(0, 1000).map(lambda f: ["f", f]))
    return st.one_of(st.tuples(st.just("cut"), p), st.tuples(st.just("xor"), p, st.sampled_from([1, 2, 4, 8, 16, 32, 64, 128, 255])),
                     st.tuples(st.just("set"), p, hexes(1, 4)), st.tuples(st.just("rnd"), p, st.sampled_from([1, 16, 300]), st.integers(0, 99)),
                     st.tuples(st.just("drop"), p, st.sampled_from([1, 2, 16, 128])), st.tuples(st.just("ins"), p, dat(100)),
                     st.tuples(st.just("app"), dat(100)), st.tuples(st.just("fill"), p, st.sampled_from([1, 16, 3000]), st.sampled_from([0, 255]))).map(list)


def packed():
    good = st.builds(lambda i: {"t": "comp", "img": i, "muts": []}, comp_img(whole_img()))
    small = st.one_of(xex_img(), bsave_img(), kboot_img(), cart_img(), raw_img().filter(lambda r: "head" not in r))
    bad = st.builds(lambda i, m: {"t": "comp", "img": i, "muts": m}, comp_img(st.one_of(small, small, file_img())), st.lists(cmut(), min_size=1, max_size=3))
    dcm = st.builds(lambda a, f, d: {"t": "dcm", "head": a + f, "data": d}, st.sampled_from(["f9", "fa", "f9", "fa", "f8", "fb"]),
                    st.one_of(st.just(""), st.integers(0, 255).map(lambda v: "%02x" % v), st.sampled_from(["01", "21", "41", "61", "81", "a1", "c1", "e1"])), dat(300))
    # larger than any buffer: cartridges and hard disk images of 1 to 4 MB
    mb = st.one_of(st.sampled_from([(25, 1024), (42, 1024), (61, 2048), (63, 4096), (64, 2048), (24, 512)]).flatmap(
        lambda t: st.builds(lambda k, s: {"k": "cart", "type": t[0], "data": {"n": t[1] * 1024, "k": k, "s": s}}, st.sampled_from(["ramp", "rnd", "const"]), st.integers(0, 9))),
        st.builds(lambda n, k, s: {"k": "raw", "data": {"n": n, "k": k, "s": s}}, st.integers(500000, 4500000), st.sampled_from(["ramp", "const"]), st.integers(0, 9)))
    large = st.builds(lambda i, m, l, c: {"t": "comp", "muts": [], "img": {"k": "comp", "inner": i, "m": m, "level": l, "cuts": c, "opts": {}}}, mb,
                      st.sampled_from(["gz", "bz2", "xz"]), st.sampled_from([0, 1]), st.sampled_from([[], [], [500], [999]]))

    @st.composite
    def one(draw):
        return draw(large if draw(st.integers(0, 29)) == 17 else usual)
    usual = st.one_of(good, good, bad, bad, bad, dcm)
    return one()


entry("P16", strategy=packed, quick=900, thorough=40000,
      rule="a compressed image holding files compared with the plain one, compressed data that was really damaged, or a recognisable DCM header",
      assumptions=["the image itself does not begin with the signature of a compression format"])


@st.composite
def sparta_case(draw):
    img = draw(sparta_img(SPARTA_GEO * 4 + SPARTA_BIG))
    big = draw(st.integers(0, 3)) == 0
    for f in img["files"]:
        if big and draw(st.integers(0, 5)) == 0:
            f["claim"] = draw(st.sampled_from([0x7fffff, 0x800000, 0xffffff, 65536, 0x8000]))
    return {"img": img, "how": draw(st.sampled_from(["find", "find", "direct"]))}


entry("P24", strategy=sparta_case, quick=2000, thorough=30000, rule="at least one live file of more than one sector",
      assumptions=["names of live entries are unique and consist of letters and digits; a folder has no extension", "files have no holes (sector map entries of zero before the end)"])


# ---------------------------------------------------------------- cartridges

# type: size in KB (from the cartridge format description of atari800)
CART_KB = {57: 2, 58: 4, 59: 4, 1: 8, 21: 8, 2: 16, 44: 8, 15: 16, 3: 16, 45: 16, 12: 32, 13: 64, 67: 64, 14: 128, 23: 256, 24: 512, 25: 1024, 33: 32, 34: 64,
           35: 128, 36: 256, 37: 512, 38: 1024, 22: 32, 8: 64, 9: 64, 10: 64, 11: 64, 43: 128, 17: 128, 18: 40, 26: 16, 27: 32, 28: 64, 29: 128, 30: 256, 31: 512, 32: 1024,
           39: 8, 46: 4, 40: 16, 60: 32, 41: 128, 42: 1024, 47: 32, 48: 64, 49: 128, 50: 64, 51: 128, 52: 32, 53: 8, 5: 32, 54: 128, 55: 256, 56: 512, 61: 2048, 63: 4096, 64: 2048,
           20: 4, 19: 8, 4: 32, 16: 16, 6: 16, 7: 40}
UNKNOWN_CART = [68, 69, 100, 255, 256, 0x10001, 0x80000000, 0xffffffff]


@st.composite
def cart_case(draw):
    t = draw(st.sampled_from(sorted(CART_KB)))
    data = {"n": CART_KB[t] * 1024, "k": draw(st.sampled_from(["rnd", "rnd", "rnd", "const", "ramp"])), "s": draw(st.integers(0, 255))}
    how = draw(st.sampled_from(["good", "good", "good", "size", "bare", "bare", "other", "unknown"]))
    case = {"how": how, "type": t, "data": data, "crc": draw(st.sampled_from([0, 1, 0x12345678, 0xffffffff])), "unused": draw(st.sampled_from(["00000000", "ffffffff"])),
            "first": draw(st.sampled_from(["", "", "", "ffff", "0138b003", "9602", "43415254"]))}
    if how == "size":
        data["n"] = max(1, data["n"] + draw(st.sampled_from([1, -1, 16, -16, 1024, -1024, 2048, 512, data["n"]])))
    if how == "other":
        case["other"] = draw(st.sampled_from(sorted(CART_KB)))
    if how == "unknown":
        case["type"] = draw(st.sampled_from(UNKNOWN_CART))
    return case


entry("P22", strategy=cart_case, quick=400, thorough=12000, rule="a cartridge accepted as its type, or one with a wrong size or type refused",
      assumptions=["types larger than 4 MB (The!Cart) are not generated"])


# ---------------------------------------------------------------- zip

@st.composite
def zip_case(draw):
    names = st.one_of(st.sampled_from(["a.rom", "b.bin", "dir/c.bin", "x" * 60, "caf\u00e9", "\u4e2d.bin", "A B", "136002.125"]), st.text(UP + NUM + "._-/ ", min_size=1, max_size=12))
    good = st.sampled_from([16, 32, 4096, 2048, 48, 1024, 160])
    bad = draw(st.integers(0, 4)) == 0
    nm = draw(st.integers(0, 8))
    mem = []
    for i in range(nm):
        n = draw(st.one_of(good, good, good, st.just(0), st.integers(1, 300).map(lambda k: k * 16)))
        if bad and draw(st.booleans()):
            n = max(0, n + draw(st.sampled_from([1, 2, 4, 8, 15])))
        mem.append([draw(names), {"n": n, "k": draw(st.sampled_from(["rnd", "const", "ramp"])), "s": draw(st.integers(0, 255))}, draw(st.sampled_from([0, 8, 8, 12, 14]))])
    case = {"zip": {"k": "zip", "members": mem, "comment": draw(st.sampled_from(["", "", "a comment"]))}}
    d = draw(st.sampled_from([None, None, "cut", "flip", "muts"]))
    if d == "cut":
        case["cut"] = draw(st.one_of(st.integers(1, 60), st.integers(0, 1000).map(lambda f: -f)))
    elif d == "flip":
        case["flip"] = [draw(st.integers(0, 9)), draw(st.integers(0, 1000)), draw(st.sampled_from([1, 2, 16, 128, 255]))]
    elif d == "muts":
        case["muts"] = draw(st.lists(cmut(), min_size=1, max_size=3))
    return case


entry("P23", strategy=zip_case, quick=800, thorough=40000, rule="an archive with at least two members compared, or a damaged one",
      assumptions=["the archive file does not happen to have exactly the size of an Atari or Apple disk image"])


# ---------------------------------------------------------------- recognition

def good_cart():
    return st.sampled_from([t for t in sorted(CART_KB) if CART_KB[t] <= 64]).flatmap(
        lambda t: st.builds(lambda s: {"k": "cart", "type": t, "data": {"n": CART_KB[t] * 1024, "k": "rnd", "s": s}}, st.integers(0, 20)))


def good_kboot():
    return st.one_of(st.builds(lambda d: {"k": "kboot", "data": dict(d, n=d["n"] + 1)}, dat(9000)), st.builds(lambda n, s: {"k": "kboot", "data": {"n": n, "k": "rnd", "s": s}}, st.integers(60000, 140000), st.integers(0, 9)), xex_img(tail=False).map(lambda x: dict(x, k="kboot")))


def good_boot():
    return st.builds(lambda n, k, a, s, h: {"k": "bootdisk", "size": n, "nsec": k, "addr": a, "s": s, "header": h, "ss": 256 if n > 140000 else 128, "muts": [["set", ["s", 360, 0], "ff"]]},
                     st.sampled_from([92160, 133120, 183936]), st.integers(1, 60), st.integers(0x500, 0x7000), st.integers(0, 30), st.booleans())


DISK_SIZES = (92160, 133120, 183936, 183952, 184320, 143360)


def recog():
    size = pick(st.integers(0, 20).map(lambda k: 1 << k), st.builds(lambda k, j: (1 << k) + (1 << j), st.integers(0, 19), st.integers(0, 19)).filter(lambda n: n not in DISK_SIZES), st.integers(1, 200000).filter(lambda n: n not in DISK_SIZES))
    plain = pick(st.builds(lambda n, k, s: {"k": "data", "data": {"n": n, "k": k, "s": s}}, size, st.sampled_from(["rnd", "rnd", "const", "ramp"]), st.integers(0, 99)),
                 st.builds(lambda o, n, s: {"k": "bsave", "origin": o, "data": {"n": n, "k": "rnd", "s": s}}, st.sampled_from([0x300, 0x2000, 0x803, 0xbfff]),
                           st.one_of(st.integers(0, 3000), st.integers(0, 65535)).filter(lambda n: n + 4 not in DISK_SIZES), st.integers(0, 99)))
    one = pick(fs_img(3), fs_img(3), xex_img(tail=False), good_cart(), good_kboot(), good_boot(), sparta_img(files_max=3), st.builds(lambda s: {"k": "prodos", "s": s}, st.integers(0, 9)), plain)
    edit = st.lists(st.one_of(st.tuples(st.just("w"), st.sampled_from(["NEW1", "NEW2", "AUTORUN.SYS"]), dat(3000)), st.tuples(st.just("d"), st.integers(0, 5)), st.just(("shred", 0))).map(list), max_size=4)
    A = "application/vnd.atari8bit.atr."
    miss = st.one_of(st.none(), st.none(), st.integers(0, 40))
    sd = st.sampled_from([{"k": "bootdisk", "size": 92160, "nsec": 3, "addr": 0x700, "header": True, "ss": 128, "muts": [["set", ["s", 360, 0], "ff"]]},
                          {"k": "fs", "disk": {"fs": "atari", "src": "template", "name": "dos2sd.atr", "strip": False}},
                          {"k": "fs", "disk": {"fs": "atari", "src": "test", "name": "dos_sd_test1.atr", "strip": False}}])
    tester = st.just({"k": "bootdisk", "size": 23808, "nsec": 3, "addr": 0x700, "header": True, "ss": 128})
    game = pick(st.builds(lambda i, m, g: {"img": i, "edit": [], "name": None, "sig": A + m, "miss": g}, sd, st.sampled_from(["getaway_pd", "getaway", "jumpman"]), miss),
                st.builds(lambda i, g: {"img": i, "edit": [], "name": None, "sig": A + "jumpman_level_tester", "miss": g}, tester, miss),
                st.builds(lambda s, c: {"img": {"k": "xex", "segs": [[0x2a80, {"n": 0x6080, "k": "rnd", "s": s}, False]]}, "edit": [], "name": None, "cut": c}, st.integers(0, 9), st.sampled_from([None, None, 2, 3, 4, 5, 6, 7, 8, 100])))
    rom = st.builds(lambda mn, s, k: {"img": {"k": "rom", "mime": mn[0], "data": {"n": mn[1], "k": "rnd", "s": s}, "known": k}, "edit": [], "name": None},
                    st.sampled_from([("application/vnd.vectrex", 90), ("application/vnd.vectrex", 1031), ("application/vnd.vectrex", 256), ("application/vnd.atari2600.cart", 2048),
                                     ("application/vnd.atari2600.cart", 8448), ("application/vnd.atari2600.cart", 10495), ("application/vnd.atari2600.starpath", 8448),
                                     ("application/vnd.atari2600.starpath", 25344), ("application/vnd.atari5200.cart", 32768), ("application/vnd.atari5200.cart", 16384),
                                     ("application/vnd.atari5200.cart", 8192), ("application/vnd.atari2600.cart", 65536)]), st.integers(0, 99), st.sampled_from([True, True, False]))
    item = st.builds(lambda i, e, n: {"img": i, "edit": e, "name": n}, one, edit, st.sampled_from([None, None, "x.atr", "x.dsk", "x.xex", "noext", "x.car", "x.rom"]))
    return st.lists(pick(item, item, item, item, game, rom), min_size=1, max_size=6).map(lambda l: {"items": l})


entry("P27", strategy=recog, quick=600, thorough=15000, rule="at least two images of different kinds opened after each other",
      assumptions=["executables and archives do not happen to have exactly the size of an Atari disk without header",
                   "boot disks: the boot record names a sensible number of sectors and load address and the disk has no DOS file system"])
