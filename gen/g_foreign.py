"""Disks as other programs leave them (P25)."""
from hypothesis import strategies as st

from . import entry
from .g_fs import UP, NUM, order
from .g_parse import pick

CH = [ord(c) for c in UP + NUM] * 2 + list(range(0x61, 0x7b)) + [0x5f, 0x2d, 0x21, 0xc1, 0xd7, 0xe1, 0xff, 0x7b, 0xa1]


@st.composite
def name11(draw):
    base = draw(st.lists(st.sampled_from(CH), min_size=1, max_size=8))
    ext = draw(st.lists(st.sampled_from(CH), max_size=3))
    pad = draw(st.sampled_from([32, 32, 32, 0]))
    k = draw(st.integers(0, 19))
    if k in (7, 8) and len(base) > 2:
        base[1] = 32
    elif k == 9 and len(base) > 1:
        base[0] = 32
    elif k == 10 and len(ext) > 1:
        ext[0] = 32
    return (bytes(base).ljust(8, bytes([pad])) + bytes(ext).ljust(3, bytes([pad]))).hex()


@st.composite
def parts(draw, pay):
    k = draw(st.integers(0, 5))
    if k == 0:
        return draw(st.lists(st.integers(0, pay), min_size=1, max_size=6))
    if k == 1:
        return [pay] * draw(st.integers(1, 60)) + [draw(st.integers(0, pay))]
    if k == 2:
        return [pay] * draw(st.integers(1, 6)) + [draw(st.integers(0, pay))] + [pay] * draw(st.integers(0, 4)) + [draw(st.integers(0, pay))]
    return [pay] * draw(st.integers(0, 8)) + [draw(st.sampled_from([1, pay, pay - 1, 0, draw(st.integers(0, pay))]))]


@st.composite
def aentry(draw, var, pay):
    t = draw(st.sampled_from(["file"] * 5 + ["del", "del"] + (["dir", "dir"] if var == "mydos" else [])))
    e = {"t": t, "name": draw(name11())}
    if t == "file":
        e.update(parts=draw(parts(pay)), s=draw(st.integers(0, 999)), locked=draw(st.booleans()), order=draw(order()))
        if var == "mydos":
            e["wide"] = draw(st.booleans())
            e["far"] = draw(st.booleans())
        if var == "dos25":
            e["hi"] = draw(st.booleans())
            e["far"] = draw(st.booleans())
    elif t == "del":
        e.update(count=draw(st.integers(0, 300)), start=draw(st.integers(0, 719)))
    else:
        e["locked"] = draw(st.booleans())
    return e


def ops(top):
    add = st.tuples(st.just("add"), st.integers(0, top), st.integers(0, 99)).map(list)
    dele = st.tuples(st.just("del"), st.integers(0, 40)).map(list)
    delo = st.tuples(st.just("delobj"), st.integers(0, 40)).map(list)
    return st.lists(st.one_of(add, dele, delo), max_size=3)


def mydos():
    """a small MyDOS disk with files that use 16 bit links"""
    return st.sampled_from([128, 256]).flatmap(lambda ss: st.builds(
        lambda es, bare: {"fs": "atari", "var": "mydos", "ss": ss, "n": 720, "bare": bare, "entries": uniq([dict(e, wide=True) for e in es]), "used": [], "junk": 0, "front": True},
        st.lists(aentry("mydos", ss - 3).filter(lambda e: e["t"] == "file"), min_size=1, max_size=3), st.booleans()))


@st.composite
def atari(draw):
    var, ss, n = draw(st.sampled_from(
        [("dos2", 128, 720), ("dos2", 256, 720), ("dos25", 128, 1040), ("dos25", 128, 1040), ("mydos", 128, 720), ("mydos", 256, 720)]
        + [("mydos", 128, k) for k in (721, 900, 1040, 1400, 2000, 2900)] + [("mydos", 256, k) for k in (800, 1000, 1440, 1900, 2100, 2880)]))
    pay = ss - 3
    nf = draw(st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(7, 20), st.integers(60, 64)))
    ents = []
    for i in range(nf):
        if nf > 20:
            ents.append({"t": "file" if i % 5 else "del", "name": (b"F%-7dEXT" % i).hex(), "parts": [i], "s": i})
        else:
            ents.append(draw(aentry(var, pay)))
    ents = dups(uniq(ents), draw)
    return {"fs": "atari", "var": var, "ss": ss, "n": n, "bare": n == 720 and draw(st.integers(0, 3)) == 0 or (var == "dos25" and draw(st.integers(0, 3)) == 0),
            "entries": ents, "used": draw(st.lists(st.integers(4, 719), max_size=5)), "junk": draw(st.sampled_from([0, 0, 5])),
            "front": draw(st.booleans()), "ops": twin(ents, draw) + draw(ops(9000))}


def uniq(ents):
    """file names on a disk are distinct"""
    seen = set()
    for i, e in enumerate(ents):
        if e["t"] == "file":
            b = bytes.fromhex(e["name"])
            key = (b[:8].rstrip(b" \0"), b[8:].rstrip(b" \0")) if len(b) == 11 else b
            if key in seen:
                e["name"] = ("Z%-7dDUP" % i).encode().hex() if len(b) == 11 else bytes(c | 0x80 for c in b"DUP%-27d" % i).hex()
            else:
                seen.add(key)
    return ents


def dups(ents, draw):
    """now and then two files of the same name (and often size), as left by
    copying between disks or renaming"""
    live = [e for e in ents if e["t"] == "file"]
    if len(live) >= 2 and draw(st.integers(0, 4)) == 3:
        a = draw(st.integers(0, len(live) - 1))
        b = draw(st.integers(0, len(live) - 1))
        live[b]["name"] = live[a]["name"]
        if draw(st.booleans()):
            for k in ("parts", "lay"):
                if k in live[a]:
                    live[b][k] = list(live[a][k])
    return ents


def twin(ents, draw):
    """delete one of two files of the same name"""
    names = [e["name"] for e in ents if e["t"] == "file"]
    if len(set(names)) < len(names) and draw(st.integers(0, 2)):
        return [["deldup", draw(st.integers(0, 3))]]
    return []


ACH = [ord(c) for c in UP * 2 + NUM + " .-,!#$%&'()*+/:;<=>?@[]^_"] + list(range(0x61, 0x7b)) + [1, 4, 7, 8]


@st.composite
def bentry(draw):
    t = draw(st.sampled_from(["file"] * 5 + ["del", "del"]))
    first = draw(st.sampled_from([ord(c) for c in UP] * 2 + ACH[:-4]))
    if first == 32:
        first = b" " + draw(st.sampled_from([b"A", b" B", b"-"]))
    else:
        first = bytes([first])
    rest = bytes(draw(st.lists(st.sampled_from(ACH), max_size=29)))
    if draw(st.integers(0, 5)) == 3:
        rest = (rest + b"QWERTYUIOPASDFGHJKLZXCVBNM12345")[:29].rstrip(b" ")  # a name as long as it gets
    nm = (first + rest)[:30].rstrip(b" ").ljust(30)
    e = {"t": t, "name": bytes(c | 0x80 for c in nm).hex(), "type": draw(st.sampled_from([0, 1, 2, 4, 4, 8, 0x10, 0x20, 0x40, 6]))}
    if t == "file":
        k = draw(st.integers(0, 4))
        if k == 0:
            lay = draw(st.lists(st.integers(0, 1), min_size=1, max_size=12)) + [1]
        elif k == 1:
            lay = [1] * draw(st.sampled_from([121, 122, 123, 130, 244, 245]))
        elif k == 2:
            lay = [1] + [0] * draw(st.sampled_from([5, 120, 121, 122, 240, 300])) + [1, 1]
        else:
            lay = [1] * draw(st.integers(1, 9))
        e.update(lay=lay, s=draw(st.integers(0, 999)), locked=draw(st.booleans()), order=draw(order()), ts_last=draw(st.booleans()))
        if draw(st.integers(0, 5)) == 0:
            e["extra_ts"] = 1
    else:
        e.update(track=draw(st.integers(0, 34)), sector=draw(st.integers(0, 15)), count=draw(st.integers(0, 99)))
    return e


@st.composite
def apple(draw):
    ncat = draw(st.sampled_from([1, 2, 3, 15, 15]))
    cat = draw(st.one_of(st.just([0] * ncat), st.lists(st.integers(0, 14), min_size=ncat, max_size=ncat)))
    far = draw(st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 500), max_size=2)))
    nf = draw(st.one_of(st.integers(0, 7), st.integers(0, 7), st.integers(7, 24)))
    ents = dups(uniq([draw(bentry()) for _ in range(nf)]), draw)
    return {"fs": "apple", "catalog": cat, "cat_far": far, "far_first": draw(st.booleans()), "entries": ents, "junk": draw(st.sampled_from([0, 0, 5])),
            "vol": draw(st.sampled_from([254, 1, 100])), "last": draw(st.integers(1, 34)), "dir": draw(st.sampled_from([1, 255])),
            "front": draw(st.booleans()), "ops": twin(ents, draw) + draw(ops(20000))}


entry("P25", strategy=pick(atari(), atari(), apple()), quick=800, thorough=30000,
      rule="at least two live files, and a deleted entry before one of them, scattered sectors, 16 bit links, sectors above 719, a subdirectory entry, holes or several track/sector lists",
      assumptions=["Apple file names use normal (high bit) characters; Atari names have no blanks below 0x21 at their end",
                   "only the root directory of MyDOS disks is read; subdirectories themselves are not listed but their entries must survive",
                   "MyDOS sizes away from the steps where the number of VTOC sectors changes"])
