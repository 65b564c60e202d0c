"""Sector geometry (P18)."""
from hypothesis import strategies as st

from . import entry
from .g_fs import atari_disk, dos33_disk
from .g_parse import pick, sparta_img, kboot_img

STD = [92160, 133120, 183936, 184320]


def picks():
    return st.lists(st.tuples(st.one_of(st.integers(0, 5), st.integers(0, 1100), st.integers(-3, -1)), st.one_of(st.integers(0, 5), st.integers(0, 40), st.just(2000))).map(list), min_size=2, max_size=6)


@st.composite
def plain(draw):
    header = draw(st.booleans())
    ss = draw(st.sampled_from([128, 128, 256, 512])) if header else 128
    if ss == 512:
        n = 512 * draw(st.integers(1, 300))
    elif ss == 256:
        n = draw(st.one_of(st.sampled_from([183936, 184320]), st.builds(lambda k, s: k * 256 + s * 384, st.integers(1, 1100), st.integers(0, 1))))
    else:
        n = draw(st.one_of(st.sampled_from(STD), st.builds(lambda k, s: k * 128 + (0 if header else s), st.integers(1, 1500), st.sampled_from([0, 0, 0, 1, 127, 16]))))
    return {"t": "plain", "header": header, "ss": ss, "n": n, "s": draw(st.integers(0, 9)), "picks": draw(picks())}


def header():
    par = st.one_of(st.sampled_from(["8016", "8020", "e82c", "002d"]), st.binary(min_size=2, max_size=2).map(bytes.hex))
    ss = st.one_of(st.sampled_from(["8000", "0001", "0002"]), st.binary(min_size=2, max_size=2).map(bytes.hex))
    rest = st.one_of(st.just("00" * 10), st.binary(min_size=10, max_size=10).map(bytes.hex))
    return st.builds(lambda a, b, c: {"t": "header", "bytes": a + b + c}, par, ss, rest)


def case():
    img = st.builds(lambda d, p: {"t": "image", "img": {"k": "fs", "disk": d}, "picks": p}, atari_disk(3), picks())
    sp = st.builds(lambda d, p: {"t": "image", "img": d, "picks": p}, sparta_img(), picks())
    kb = st.builds(lambda d, p: {"t": "image", "img": d, "picks": p}, kboot_img(), picks())
    ap = st.builds(lambda d, p: {"t": "apple", "img": {"k": "fs", "disk": d}, "picks": p}, dos33_disk(3), picks())
    return pick(plain(), plain(), header(), img, img, sp, kb, ap)


entry("P18", strategy=case, quick=800, thorough=30000, rule="a disk with at least one sector, or a header that was accepted",
      assumptions=["a double density image whose size is 128 bytes more than a multiple of 256 has three short boot sectors; other sizes have sectors of equal size (the ATR convention)"])
