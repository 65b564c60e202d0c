"""Disk images with every kind of content, for their segments (P29)."""
from hypothesis import strategies as st

from . import entry
from .g_foreign import atari, apple
from .g_parse import pick, sparta_img, xex_img


def boot_rec():
    return st.builds(lambda f, n, a, s: {"flag": f, "num": n, "addr": a, "s": s}, st.sampled_from([0, 0, 0, 0, 1, 0xff]),
                     st.one_of(st.sampled_from([1, 2, 3, 3, 4, 5, 20]), st.integers(1, 255)), st.one_of(st.sampled_from([0x700, 0x3000, 0, 0x6ff]), st.integers(0, 0xbfff)), st.integers(0, 99))


def edits():
    return st.lists(st.tuples(st.integers(0, 60), st.one_of(st.sampled_from([0, 1000]), st.integers(0, 1000))).map(list), max_size=3)


def common(draw, kind, disk, **kw):
    c = {"fs": kind, "disk": disk, "front": draw(st.booleans()), "edits": draw(edits()), "cli": draw(st.integers(0, 5)) == 3}
    c.update(kw)
    return c


@st.composite
def c_atari(draw):
    d = draw(atari())
    d.pop("ops", None)
    d.pop("front", None)
    for e in d["entries"]:
        if e["t"] == "file" and draw(st.integers(0, 2)) == 1:
            e["xex"] = draw(xex_img())
    return common(draw, "atari", d, boot=draw(st.one_of(st.none(), boot_rec(), boot_rec())))


@st.composite
def c_apple(draw):
    d = draw(apple())
    d.pop("ops", None)
    d.pop("front", None)
    return common(draw, "apple", d, boot=draw(st.one_of(st.none(), boot_rec())))


@st.composite
def c_sparta(draw):
    d = draw(sparta_img(files_max=4))
    for f in d["files"]:
        if len(d["files"]) < 8 and draw(st.integers(0, 2)) == 1:
            f["xex"] = draw(xex_img())
    d["boot"] = draw(st.sampled_from([0, 1, 1, 2, 3, 3, 4, 7, 40, 255]))
    if d["nsec"] < d["boot"]:
        d["boot"] = 1
    d["addr"] = draw(st.one_of(st.sampled_from([0x3000, 0x700, 0x600, 0xfff0]), st.integers(0, 0xffff)))
    return common(draw, "sparta", d)


@st.composite
def c_boot(draw):
    ss, size = draw(st.sampled_from([(128, 92160), (128, 133120), (256, 183936), (128, 40960), (128, 128 * 900), (256, 384 + 256 * 900)]))
    header = True if size not in (92160, 133120) else draw(st.booleans())
    n = draw(st.one_of(st.sampled_from([1, 2, 3, 4, 5, 20]), st.integers(1, 180)))
    top = 0xc000 - n * ss
    return common(draw, "boot", {"size": size, "ss": ss, "header": header, "nsec": n, "addr": draw(st.one_of(st.sampled_from([0x700, 0, top]), st.integers(0, max(0, top)))) % max(1, top + 1),
                                 "flag": draw(st.sampled_from([0, 0, 0, 1])), "s": draw(st.integers(0, 99)), "init": draw(st.integers(0, 0xffff))}) | {"front": False}


@st.composite
def c_kboot(draw):
    d = draw(xex_img())
    return common(draw, "kboot", d)


entry("P29", strategy=pick(c_atari(), c_atari(), c_atari(), c_apple(), c_apple(), c_sparta(), c_boot(), c_kboot()), quick=500, thorough=30000,
      rule="at least two of: a boot record, several or second VTOC sectors, several catalog sectors, chained sectors, an executable with several blocks, an edit through a segment",
      assumptions=["file names on a disk are distinct", "the boot record asks for at least one sector", "segments of executables that end early and of Apple files with holes are not compared", "addresses of Apple binary files are at least 4"])
