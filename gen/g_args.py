"""Arbitrary command lines (P28)."""
from hypothesis import strategies as st

from . import entry
from .g_parse import pick, whole_img, mut, raw_img, comp_img, fs_img

ALIAS = {"list": ["t", "ls", "dir", "catalog"], "crc": [], "extract": ["x"], "add": ["a"], "create": ["c"], "boot": ["b"],
         "assemble": ["s", "asm"], "delete": ["rm", "del"], "vtoc": ["v"], "segments": []}
HOST = ["h1.bin", "h2.txt", "prog.xex", "list", "create", "LONGFILENAME.TEXT"]
FILES = ["A", "HELLO", "DOS.SYS", "DUP.SYS", "*.*", "", "h1.bin", "X.Y", "AUTORUN.SYS", "kboot"]
# option groups of each command: option alternatives, argument choices (None: takes no argument)
OPTS = {
    "list": [(["-g", "--segments"], None), (["-m", "--metadata"], None), (["-c", "--crc"], None)],
    "crc": [],
    "extract": [(["-a", "--all"], None), (["-l", "--lower"], None), (["-e", "--ext"], ["xex", "", ".x"]), (["-d", "--dir"], ["out", "sub", "out/deep", "h1.bin", ""]),
                (["-t", "--text"], None), (["-f", "--force"], None)],
    "add": [(["-f", "--force"], None), (["-t", "--filetype"], ["B", "A", "T", "b", "text", "", "Z"])],
    "create": [(["-f", "--force"], None)],
    "assemble": [(["-f", "--force"], None), (["-r", "--run-addr", "--brun"], ["2000", "zz", "0x2000", "$2001", "", "#8192", "99999999"]),
                 (["-o", "--output"], ["OUT.XEX", "OUT", "", "A.BIN", "LONGOUTPUTNAME.XEX"])],
    "boot": [(["-f", "--force"], None), (["-r", "--run-addr", "--brun"], ["2000", "zz", "0x2000", "$2001", ""])],
    "delete": [(["-f", "--force"], None)],
    "vtoc": [(["-e", "--clear-empty"], None)],
    "segments": [],
}


def image():
    damaged = st.builds(lambda i, m: dict(i, muts=m), pick(whole_img(), fs_img(), fs_img()), st.lists(mut(), min_size=1, max_size=3))
    return pick(whole_img(), whole_img(), fs_img(), fs_img(), damaged, comp_img(fs_img()), raw_img(), st.none())


@st.composite
def asm_args(draw):
    out = []
    for _ in range(draw(st.integers(0, 2))):
        out.append(draw(st.sampled_from(["-d", "--data"])))
        out += draw(st.lists(st.sampled_from(["h1.bin@2000", "h1.bin[0:3]@$3000", "h2.txt@4000", "h1.bin", "h1.bin@", "@2000", "missing@1", "h1.bin[@2000", "h1.bin[1:2:3]@0x2000",
                                              "h1.bin[::0]@2000", "h1.bin@2000@3000", "sub@2000", "h1.bin[-3:]@ffff", "h1.bin@-1"]), max_size=3))
    if draw(st.booleans()):
        out.append(draw(st.sampled_from(["-b", "--obj", "--bload"])))
        out += draw(st.lists(st.sampled_from(["prog.xex", "h1.bin", "missing", "disk.img", "sub", "list"]), max_size=2))
    if draw(st.integers(0, 6)) == 3:
        out += ["-s", "h2.txt"]
    return out


@st.composite
def p28_case(draw):
    case = {"img": draw(image()), "host": {"h1.bin": {"n": draw(st.sampled_from([0, 5, 300, 3000])), "k": "rnd", "s": 1}, "h2.txt": {"n": 50, "k": "ramp", "s": 32},
                                           "prog.xex": {"n": draw(st.sampled_from([0, 5, 40, 700])), "k": "xex", "s": 3}, "list": {"n": 3, "k": "rnd", "s": 2},
                                           "LONGFILENAME.TEXT": {"n": 260, "k": "rnd", "s": 5}}}
    target = draw(st.sampled_from(["disk.img"] * 12 + [".", "missing.atr", "sub", "h1.bin", "prog.xex", "new.atr", "new.dsk", ""]))
    if draw(st.integers(0, 12)) == 5:
        # anything
        toks = st.sampled_from(list(ALIAS) + sum(ALIAS.values(), []) + FILES + HOST + ["-f", "-a", "-v", "-vv", "--dry-run", "-h", "--help", "-x", "--", "-", "disk.img", "disk.img", "-o", "-d", "-e", "-t", "."])
        case["argv"] = draw(st.lists(toks, max_size=6))
        case["cmd"] = "anything"
        return case
    cmd = draw(st.sampled_from(sorted(ALIAS)))
    if cmd in ("boot", "create"):
        target = draw(st.sampled_from(["disk.img", "new.atr", "new.dsk", "new.zzz", "new", "h1.bin", "sub", "nodir/x.atr"]))
    args = []
    for o, vals in OPTS[cmd]:
        p = draw(st.integers(0, 2))
        if p == 2 or (cmd == "assemble" and o[0] == "-o" and p):
            args.append([draw(st.sampled_from(o))] + ([draw(st.sampled_from(vals))] if vals else []))
    pos = []
    if cmd in ("list", "crc", "extract", "delete"):
        pos = draw(st.lists(st.sampled_from(FILES), min_size=1 if cmd == "delete" else 0, max_size=3))
    elif cmd == "add":
        pos = draw(st.lists(st.sampled_from(HOST + ["missing", "sub", "sub/inner.bin", "disk.img", ""]), min_size=1, max_size=3))
    elif cmd == "create":
        pos = [draw(st.sampled_from(["dos2sd.atr", "dos2sd", "dos33", "dos33autobrun.dsk", "nosuch", "", "dos2", "../__init__.py", "dos2ed+2.5.atr"]))]
    tail = draw(asm_args()) if cmd in ("boot", "assemble") else []
    glob = draw(st.sampled_from([[], [], ["-v"], ["--dry-run"], ["--dry-run", "-v"], ["-vv"]]))
    order = draw(st.permutations(args))
    flat = sum(order, [])
    base = [cmd] + flat + pos + tail
    g = draw(st.booleans())
    case["argv"] = glob + [target] + base if g else [target] + glob + base
    case["cmd"] = cmd
    if draw(st.integers(0, 9)) == 4:
        h = draw(st.sampled_from(["-h", "--help"]))
        short = draw(st.integers(0, 3))
        whole = {0: [target, h], 1: [h], 2: [target, cmd, h], 3: case["argv"] + [h]}[short]
        if short == 3:
            whole = case["argv"][:]
            whole.insert(draw(st.integers(0, len(whole))), h)
        case["argv"] = whole
        case["help"] = True
        return case
    vs = []
    if ALIAS[cmd] and draw(st.booleans()):
        c2 = draw(st.sampled_from(ALIAS[cmd]))
        vs.append(["alias", [c2 if x is cmd else x for x in case["argv"]]])
    if glob and draw(st.booleans()):
        vs.append(["place", [target] + glob + base if g else glob + [target] + base])
    if draw(st.integers(0, 2)) == 0:
        vs.append(["verbose", ["-v"] + case["argv"]])
    if len(args) > 1 and draw(st.booleans()):
        o2 = draw(st.permutations(args))
        vs.append(["order", (glob + [target] if g else [target] + glob) + [cmd] + sum(o2, []) + pos + tail])
    if cmd == "list" and len(base) == 1 and not glob and draw(st.booleans()):
        vs.append(["default", [target]])
    case["variants"] = vs
    return case


entry("P28", strategy=p28_case(), quick=900, thorough=40000,
      rule="a command that failed or changed something, or was compared with another spelling of it",
      assumptions=["pyatasm is not installed",
                   "errors of the library and of the operating system that reach the user as such count as messages"],
      technique="property-based testing of generated command lines with metamorphic relations (aliases, option order, verbosity) on whole-folder snapshots")
