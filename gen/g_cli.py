"""Command line histories (P09) and effects (P10)."""
from hypothesis import strategies as st

from . import entry
from .g_fs import atari_disk, dos33_disk, atari_name, dos33_name, data_spec, ATARI_TEMPLATES

TEMPLATES = ATARI_TEMPLATES + ["dos33.dsk", "dos33autobrun.dsk"]


def host_name(fs):
    common = ["A", "HELLO.TXT", "longfilename.text", "longfilename2.text", "longfileother.text", "LONGFILE.TEX", "two.dots.x",
              "noext", ".hidden", "lower.bin", "X.Y", "spaces in name.txt", "A.", "DOS.SYS", "HELLO", "AUTORUN.SYS"]
    n = atari_name() if fs == "atari" else dos33_name().filter(lambda s: "/" not in s)
    return st.one_of(st.sampled_from(common), st.sampled_from(common), n).filter(
        lambda s: s and s not in (".", "..") and "/" not in s and s.isascii())


def cmd(fs):
    idx = st.integers(-1, 30)
    pos = st.integers(0, 30)
    fl = st.one_of(st.lists(pos, min_size=1, max_size=4), st.lists(pos, min_size=1, max_size=4), st.lists(idx, min_size=1, max_size=4))
    names = st.one_of(st.just([]), st.lists(idx, min_size=0, max_size=3))
    dry = st.sampled_from([False, False, False, False, True])
    b = st.booleans()
    common = dict(dry=dry, gpos=b, alias=st.integers(0, 9))
    add = st.fixed_dictionaries(dict(c=st.just("add"), files=fl, force=b,
                                     ft=st.sampled_from(["", "", "B", "A", "T", "I"]), **common))
    dele = st.fixed_dictionaries(dict(c=st.just("delete"), files=fl, force=b, **common))
    lst = st.fixed_dictionaries(dict(c=st.just("list"), files=names, crc=b, default=b, **common))
    crc = st.fixed_dictionaries(dict(c=st.just("crc"), files=names, **common))
    ext = st.fixed_dictionaries(dict(c=st.just("extract"), files=st.lists(st.integers(-1, 3), max_size=3), all=b, lower=b, text=b, force=b,
                                     dir=st.sampled_from(["", "", "out", "out/deep"]), **common))
    vtoc = st.fixed_dictionaries(dict(c=st.just("vtoc"), clear=b, **common))
    tm = ATARI_TEMPLATES if fs == "atari" else ["dos33.dsk", "dos33autobrun.dsk"]
    # the whole name, the name without extension as documented, part of a name, or no template at all
    stem = st.sampled_from(tm).map(lambda t: t[:-4])
    part = st.builds(lambda t, i, n: t[i:i + n], st.sampled_from(tm), st.integers(0, 6), st.integers(1, 9)).filter(bool)
    tname = st.one_of(st.sampled_from(tm), stem, part, part, st.sampled_from(["dos", "atr.", ".inf", "dos33.dsk.inf", "nothere", "*", "dos2??"]))
    create = st.fixed_dictionaries(dict(c=st.just("create"), template=tname, force=b, **common))
    return st.one_of(add, add, add, add, dele, dele, lst, crc, ext, ext, vtoc, create)


def pre():
    """folder, file on the disk image, lower case: host files that exist already"""
    return st.lists(st.tuples(st.sampled_from(["", "out", "out", "out/deep"]), st.integers(0, 8), st.booleans()).map(list), max_size=4)


def p09_case(fs):
    unit = 125 if fs == "atari" else 256
    disk = (atari_disk(files_max=6) if fs == "atari" else dos33_disk(files_max=6)).filter(lambda d: not d.get("strip"))
    host = st.lists(st.fixed_dictionaries(dict(name=host_name(fs), data=data_spec(unit, 20000))), min_size=1, max_size=6,
                    unique_by=lambda h: h["name"])
    return st.fixed_dictionaries(dict(disk=disk, host=host, pre=pre(), cmds=st.lists(cmd(fs), min_size=3, max_size=9)))


# hostile names on the image
RAW11 = ["../X", "../../EV", "/TMP/EV ", "A/B", "..", ".", "/", "..\\EVIL", "\0X", "A\0B", "../../..", "HOST/H1 ", "~ROOT",
         "-F", "DISK    ATR", "disk    atr", "existingatr", "H1      BIN", "../l3   ", "        ../", "..      /X", ".       /X", "/etc/x  ", "SUB/X"]
RAW30 = ["../X", "../../../../../../ESCAPE", "/TMP/EVIL", "A/B", "..", ".", "/", "SUB/DIR/FILE", "../SIBLING", "..\\EVIL", "disk.dsk",
         "disk.atr", "DISK.ATR", "/ABSOLUTE/PATH/NAME", "./X", "X/../../Y", "existing.atr", "h1.bin"]


@st.composite
def hostile_disk(draw):
    fs = draw(st.sampled_from(["atari", "dos33"]))
    n = draw(st.integers(1, 6))
    files = []
    for i in range(n):
        f = {"gap": 0, "flag": 0x42 if fs == "atari" else 4, "data": {"n": draw(st.integers(0, 700)), "k": "rnd", "s": i},
             "order": None, "ts_first": True}
        if fs == "atari":
            if draw(st.booleans()):
                f["raw11"] = draw(st.one_of(st.sampled_from(RAW11), st.text("./\\AB~", min_size=1, max_size=11)))
            else:
                f["name"] = draw(atari_name())
            f.setdefault("name", "")
            f["flag"] = draw(st.sampled_from([0x42, 0x42, 0x62]))
        else:
            f["name"] = draw(st.one_of(st.sampled_from(RAW30), st.text("./\\AB~", min_size=1, max_size=30), dos33_name()))
        files.append(f)
    spec = {"fs": fs, "src": "built", "files": files, "tail_deleted": 0, "boot": 1}
    if fs == "atari":
        spec.update(density=draw(st.sampled_from(["sd", "dd", "ed"])), container="atr")
        if draw(st.booleans()):
            spec["avail"] = draw(st.integers(0, 40))
    else:
        spec.update(sys_tracks=3, catalog_len=15)
        if draw(st.booleans()):
            spec["avail"] = draw(st.integers(0, 40))
    return spec


@st.composite
def p10_case(draw):
    disk = draw(st.one_of(hostile_disk(), hostile_disk(), atari_disk(files_max=4), dos33_disk(files_max=4),
                          st.builds(lambda n: {"fs": "bytes", "data": n}, data_spec(128, 2000))))
    host = {"h1.bin": {"n": draw(st.integers(0, 3000)), "k": "rnd", "s": 1}, "h2.bin": {"n": draw(st.integers(0, 300)), "k": "rnd", "s": 2},
            "prog.xex": {"n": 40, "k": "xex", "s": 3}, "big.bin": {"n": 190000, "k": "const", "s": 4}}
    if disk["fs"] == "bytes":
        known = ["A"]
    elif disk["src"] == "built":
        known = [f.get("name") or "X" for f in disk["files"]] or ["A"]
        known += [f["raw11"] for f in disk["files"] if f.get("raw11")]
    else:
        known = ["HELLO", "DOS.SYS", "DUP.SYS", "A"]
    known = [k for k in known if k and not k.startswith("-") and "\0" not in k] or ["A"]
    cmds = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["extract", "extract", "extract", "add", "add", "delete", "vtoc-e", "vtoc", "list", "crc", "segments", "create",
                                     "boot", "boot", "assemble", "assemble"]))
        c = {"kind": kind, "dry": draw(st.sampled_from([False, False, True])), "gpos": draw(st.booleans())}
        force = draw(st.booleans())
        f = ["-f"] if force else []
        c["force"] = force
        names = draw(st.lists(st.sampled_from(known + ["NOSUCH"]), min_size=1, max_size=3))
        data = draw(st.lists(st.sampled_from(["h1.bin@2000", "h2.bin@$3000", "h1.bin[0:10]@4000", "h2.bin@zz", "h1.bin", "missing@2000", "big.bin@800",
                                              "h2.bin@0x6000", "h1.bin[5:]@#8192"]), min_size=1, max_size=3))
        obj = draw(st.sampled_from([[], [], ["-b", "prog.xex"], ["-b", "missing.xex"], ["-b", "h1.bin"]]))
        run = draw(st.sampled_from([[], [], ["-r", "2000"], ["-r", "9999"], ["-r", "zzz"]]))
        if kind == "extract":
            o = draw(st.sampled_from([[], ["-l"], ["-t"], ["-l", "-t"]]))
            if draw(st.booleans()):
                c["dir"] = draw(st.sampled_from(["out", "out/deep", "."]))
                o = o + ["-d", c["dir"]]
            if draw(st.integers(0, 3)):
                c["argv"] = ["extract"] + f + o + ["-a"]
            else:
                c["argv"] = ["extract"] + f + o + names
        elif kind == "add":
            h = draw(st.lists(st.sampled_from(["h1.bin", "h2.bin", "prog.xex", "missing.bin", "big.bin", "./h1.bin"]), min_size=1, max_size=3))
            c["argv"] = ["add"] + f + h
        elif kind == "delete":
            c["argv"] = ["delete"] + f + names
        elif kind == "vtoc-e":
            c["argv"] = ["vtoc", "-e"]
        elif kind == "list":
            c["argv"] = ["list"] + draw(st.sampled_from([[], ["-c"], ["-g"], ["-m"], ["-c", "-m"]]))
        elif kind in ("vtoc", "crc", "segments"):
            c["argv"] = [kind]
        elif kind == "create":
            c["target"] = draw(st.sampled_from(["", "new.atr", "existing.atr", "sub.dsk"]))
            c["argv"] = ["create"] + f + [draw(st.sampled_from(["dos2sd.atr", "dos33.dsk", "dos2", "nosuch", "dos2dd"]))]
        elif kind == "boot":
            c["target"] = draw(st.sampled_from(["", "new.atr", "new.dsk", "existing.atr", "existing.dsk", "new.zzz", "new.xex"]))
            c["argv"] = ["boot"] + f + (["-d"] + data if data else []) + obj + run
        else:
            c["argv"] = ["assemble"] + f + ["-d"] + data + obj + run + ["-o", draw(st.sampled_from(["OUT.XEX", "OUT.BIN", "OUT", "A", "LONGOUTPUTNAME.XEX"]))]
        cmds.append(c)
    return {"disk": disk, "host": host, "img": draw(st.sampled_from(["disk.atr", "disk.dsk"])), "cmds": cmds, "pre": draw(pre()),
            "shadow": ["../X", "../../EV", "../EVIL", "../SIBLING", "../EVIL.X", "../x"]}


entry("P09", strategy=st.one_of(p09_case("atari"), p09_case("dos33")), quick=320, thorough=16000,
      rule="at least three commands of which at least one changed the disk image",
      assumptions=["host file names are ASCII; names that cannot be stored are covered by P06",
                   "file names with path separators are left to P10"],
      technique="stateful property-based testing of command line histories against a map model, an independent image reader and whole-folder snapshots")
entry("P10", strategy=p10_case(), quick=1200, thorough=16000,
      rule="at least one command that succeeded and either changed something or ran with --dry-run",
      assumptions=["the escape of a write beyond the scratch folder is caught by an audit hook in an unprivileged process"],
      technique="property-based testing of command lines with whole-folder snapshots before and after each command")
