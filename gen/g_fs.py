"""Histories on the writable file systems (P01..P08)."""
from hypothesis import strategies as st

from . import entry

UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
NUM = "0123456789"


def atari_name():
    base = st.text(UP + NUM, min_size=1, max_size=8)
    ext = st.one_of(st.just(""), st.just(""), st.text(UP + NUM, min_size=1, max_size=3))
    plain = st.builds(lambda b, e: b + ("." + e if e else ""), base, ext)
    few = st.sampled_from(["A", "B.X", "GAME.XEX", "AUTORUN.SYS", "DOS.SYS", "FILE1.BAS", "ABCDEFGH.IJK", "AB.C"])
    long = st.builds(lambda b, e: b + "." + e, st.text(UP, min_size=9, max_size=12), st.text(UP, min_size=1, max_size=5))
    lower = st.sampled_from(["readme.txt", "a b.c", "x_1.dat", "caf\xe9.bin"])
    odd = st.sampled_from(["A.B.C", "ARCHIVE.TAR.GZ", " LEAD.X", "A.", "A..B", "NOEXT.", "  B", "A. C", "LONGNAME9.TAR.GZ", "x.y.z"])
    return st.one_of(few, few, plain, plain, long, lower, odd)


def dos33_name():
    ch = UP + NUM + " .-,!abc"
    plain = st.builds(lambda a, b: (a + b).rstrip(" "), st.sampled_from(UP), st.text(ch, max_size=28))
    few = st.sampled_from(["A", "HELLO", "LONG NAME WITH SPACES", "X" * 29, "Y" * 30, "FILE.BIN", "A.VERY.LONG.FILE.NAME.OF.40.CHARACTERS..."])
    odd = st.sampled_from([" LEADING SPACE", "  B", "hello", "9 LIVES", "-=MENU=-", " A", "$(%)", "_", "Z" * 31])
    return st.one_of(few, few, plain, plain, odd)


def data_spec(unit, top):
    """sizes: anything small, or within 2 bytes of a multiple of the unit"""
    small = st.integers(0, 3 * unit)
    near = st.builds(lambda k, d: max(0, k * unit + d), st.integers(0, 12), st.integers(-2, 2))
    big = st.builds(lambda k, d: max(0, min(top, k * unit + d)), st.integers(100, 260), st.integers(-2, 2))
    anyb = st.integers(0, top)
    n = st.one_of(small, near, near, near, big, anyb)
    kind = st.sampled_from(["rnd", "rnd", "const", "ramp", "tail0", "xex"])
    return st.builds(lambda n, k, s: {"n": n, "k": k, "s": s}, n, kind, st.integers(0, 255))


def order():
    return st.one_of(st.none(), st.lists(st.integers(0, 700), min_size=1, max_size=6))


ATARI_TEMPLATES = ["dos2dd.atr", "dos2ed+2.5.atr", "dos2ed.atr", "dos2sd+2.0s.atr", "dos2sd.atr"]
ATARI_TEST = ["dos_%s_test1.atr" % d for d in ("sd", "ed", "dd")]


def atari_disk(files_max=12, avail=True):
    tmpl = st.builds(lambda n, s: {"fs": "atari", "src": "template", "name": n, "strip": s},
                     st.sampled_from(ATARI_TEMPLATES), st.booleans())
    test = st.builds(lambda n, s: {"fs": "atari", "src": "test", "name": n, "strip": s},
                     st.sampled_from(ATARI_TEST), st.booleans())

    @st.composite
    def built(draw):
        dens, cont = draw(st.sampled_from([("sd", "atr"), ("sd", "xfd"), ("ed", "atr"), ("ed", "xfd"),
                                           ("dd", "atr"), ("dd", "xfd"), ("ddf", "atr"), ("ddf", "xfd")]))
        unit = 125 if dens in ("sd", "ed") else 253
        nf = draw(st.one_of(st.integers(0, 4), st.integers(0, files_max), st.integers(55, 64) if files_max > 4 else st.integers(0, 4)))
        small = nf > 12
        files = []
        for i in range(nf):
            nm = draw(atari_name()) if not small else "F%d" % i
            d = draw(data_spec(unit, 12000)) if not small else {"n": draw(st.integers(0, 3 * unit)), "k": "rnd", "s": i}
            files.append({"name": nm, "gap": draw(st.integers(0, 2)) if not small else 0,
                          "flag": draw(st.sampled_from([0x42, 0x42, 0x62, 0x40, 0x60, 0x4a])),
                          "data": d, "order": draw(order()) if not small else None})
        spec = {"fs": "atari", "src": "built", "density": dens, "container": cont, "files": files,
                "tail_deleted": draw(st.integers(0, 2)), "boot": draw(st.integers(0, 9))}
        if avail:
            spec["avail"] = draw(st.one_of(st.none(), st.none(), st.integers(0, 40)))
        spec["extra_alloc"] = draw(st.lists(st.integers(4, 719), max_size=6))
        return spec
    return st.one_of(tmpl, test, built(), built())


def dos33_disk(files_max=12, avail=True):
    tmpl = st.builds(lambda n: {"fs": "dos33", "src": "template", "name": n}, st.sampled_from(["dos33.dsk", "dos33autobrun.dsk"]))
    test = st.just({"fs": "dos33", "src": "test", "name": "dos33_master.dsk"})

    @st.composite
    def built(draw):
        cl = draw(st.sampled_from([15, 15, 1, 2, 3, 7]))
        nf = draw(st.one_of(st.integers(0, 4), st.integers(0, files_max),
                            st.integers(max(0, cl * 7 - 4), cl * 7) if files_max > 4 else st.integers(0, 4)))
        small = nf > 12
        files = []
        for i in range(nf):
            nm = draw(dos33_name()) if not small else "F%d" % i
            d = draw(data_spec(256, 20000)) if not small else {"n": draw(st.integers(0, 500)), "k": "rnd", "s": i}
            files.append({"name": nm, "gap": draw(st.integers(0, 2)) if not small else 0,
                          "flag": draw(st.sampled_from([4, 4, 0x84, 2, 0x82, 0, 0x80, 1, 8, 0x10, 0x20, 0x40])),
                          "data": d, "order": draw(order()) if not small else None,
                          "ts_first": draw(st.booleans()) if not small else True})
        spec = {"fs": "dos33", "src": "built", "files": files, "tail_deleted": draw(st.integers(0, 2)),
                "boot": draw(st.integers(0, 9)), "sys_tracks": draw(st.sampled_from([3, 3, 1, 2])), "catalog_len": cl}
        if avail:
            spec["avail"] = draw(st.one_of(st.none(), st.none(), st.integers(0, 40)))
        return spec
    return st.one_of(tmpl, test, built(), built())


def name_for(fs):
    return atari_name() if fs == "atari" else dos33_name()


def ops(fs, max_ops=12, weights=(), bad=False, shred=False):
    unit = 125 if fs == "atari" else 256
    top = 40000 if fs == "atari" else 70000
    ft = st.none() if fs == "atari" else st.sampled_from([None, "B", "B", "A", "I", "T", "S", "R", "a", "b", "?"])
    w = st.tuples(st.just("w"), name_for(fs), data_spec(unit, top), ft)
    w2 = st.tuples(st.just("w"), name_for(fs), data_spec(unit * 2, 3000), ft)
    d = st.tuples(st.just("d"), st.integers(0, 50))
    dobj = st.tuples(st.just("dobj"), st.integers(0, 50))
    dalt = st.tuples(st.just("dalt"), st.integers(0, 2))
    dall = st.just(("dall",))
    fill = st.tuples(st.just("fill"), st.sampled_from(["FILL", "FILL2", "BIG.DAT"]), st.integers(-1, 4), st.integers(-1, 1), st.integers(0, 9))
    many = st.tuples(st.just("many"), st.sampled_from(["F", "G"]), st.sampled_from([2, 3, 5, 7, 8, 8, 3, 5, 20, 65, 106]), st.integers(0, 300))
    reopen = st.tuples(st.just("reopen"), st.sampled_from(["find", "direct"]))
    alts = [w, w, w, w2, w2, d, d, dobj, dalt, fill, many, reopen, dall]
    if bad:
        # values the format cannot hold
        badname = st.tuples(st.just("badname"), st.sampled_from(["\u20ac.TXT", "\u4e2d\u6587", "A\u0394B.C"]), data_spec(unit, 2000))
        baddata = st.tuples(st.just("baddata"), st.sampled_from(["BAD", "WORSE.X"]), st.sampled_from(["str", "none", "int", "tuple", "biglist"]))
        dmiss = st.tuples(st.just("dmiss"), name_for(fs))
        hurt = st.tuples(st.just("hurt"), st.sampled_from(["num", "num", "loop", "far"]), st.integers(0, 50), st.integers(0, 8), st.integers(0, 60))
        alts += [badname, baddata, dmiss, dmiss, fill, many, hurt, hurt, d]
    else:
        alts += [st.tuples(st.just("dmiss"), name_for(fs))]
    if shred:
        sh = st.tuples(st.just("shred"), st.one_of(st.integers(0, 255), st.just(0)))
        alts += [sh, sh, sh, sh]
    return st.lists(st.one_of(*alts).map(list), min_size=1, max_size=max_ops)


def history(fs, **kw):
    disk = atari_disk() if fs == "atari" else dos33_disk()

    def fin(disk, ops):
        return {"disk": disk, "ops": thin(ops)}
    return st.builds(fin, disk, ops(fs, **kw))


def thin(ops):
    """at most one long run of small files and one delete-everything per
    history: more of them cost seconds and show nothing new"""
    out = []
    big = dall = 0
    for o in ops:
        if o[0] == "many" and o[2] > 8:
            big += 1
            if big > 1:
                o = o[:2] + [3] + o[3:]
        elif o[0] == "dall":
            dall += 1
            if dall > 1:
                o = ["d", 0]
        out.append(o)
    return out


def both(**kw):
    return st.one_of(history("atari", **kw), history("dos33", **kw))


NT = "a history with at least two accepted writes and at least one deletion"
AS = ["names are legal for the format and unique on a disk; write_file is not asked to create a second file of the same name (the caller deletes first, as the command line does)"]
entry("P01", strategy=history("atari"), quick=320, thorough=20000, rule=NT, assumptions=AS)
entry("P02", strategy=history("dos33"), quick=320, thorough=20000, rule=NT, assumptions=AS)
entry("P03", strategy=history("atari"), quick=320, thorough=20000, rule=NT, assumptions=AS)
entry("P04", strategy=history("dos33"), quick=320, thorough=20000, rule=NT, assumptions=AS)
entry("P05", strategy=both(max_ops=8), quick=280, thorough=16000, rule="at least two files remain and at least two operations took place", assumptions=AS)
entry("P06", strategy=both(bad=True), quick=320, thorough=16000, rule="at least one operation failed while at least one file was on the disk", assumptions=AS)
entry("P07", strategy=both(), quick=320, thorough=20000, rule="the history reached a capacity limit or deleted something", assumptions=AS)
entry("P08", strategy=both(max_ops=8, shred=True), quick=280, thorough=16000, rule="at least one shred with at least one file on the disk", assumptions=AS)
