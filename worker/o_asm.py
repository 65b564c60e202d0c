"""P26: assemble and boot on the command line."""
import os
import sys
import types

from fsmodel import MFile
from hutil import Violation, HarnessError, check, mkdata, prng, same, scratch
from o_cli import cli, snapshot, put, describe, make_fs, Model
from o_exe import parse_xex, run_kboot, run_apple, memory_of, apple_fits
from props import register


def le(n):
    return bytes([n & 255, n >> 8])


def addr_text(n, fmt):
    return {"hex": "%x", "HEX": "%X", "0x": "0x%x", "$": "$%04x", "#": "#%d", "h4": "%04x"}[fmt] % n if fmt != "%" else "%" + bin(n)[2:]


def object_file(o):
    """(bytes, segments it stands for, run address or None)"""
    if o["k"] == "xex":
        out = b"\xff\xff"
        segs, run = [], None
        for b in o["blocks"]:
            if b.get("mark"):
                out += b"\xff\xff"
            if b["t"] == "run":
                body = le(b["run"]) + (le(b["init"]) if b.get("init") else b"")
                start = 0x2e0
                if run is None:
                    run = b["run"]
                if b.get("init"):
                    segs.append((0x2e2, le(b["init"])))
            elif b["t"] == "init":
                start, body = 0x2e2, le(b["init"])
                segs.append((start, body))
            else:
                start, body = b["o"], mkdata(b["d"])
                segs.append((start, body))
            out += le(start) + le(start + len(body) - 1) + body
        return out, segs, run
    if o["k"] == "bsave":
        body = mkdata(o["d"])
        return le(o["o"]) + le(len(body)) + body, [(o["o"], body)], None
    raise HarnessError(o["k"])


def want_xex(segs, run):
    """None when it must be refused, else (blocks, run)"""
    if not segs or any(not d or o + len(d) > 0x10000 or o == 0xffff for o, d in segs):
        return None
    if run and not any(o <= run < o + len(d) for o, d in segs):
        return None
    return segs, run or segs[0][0]


def want_bsave(segs, run):
    if not segs or any(not d or o + len(d) > 0x10000 for o, d in segs):
        return None
    lo = min(o for o, d in segs)
    hi = max(o + len(d) for o, d in segs)
    jump = bool(run) and run != lo
    if jump and not any(o <= run < o + len(d) for o, d in segs):
        return None
    first = lo - 3 if jump else lo
    if first < 0 or hi - first > 0xffff:
        return None
    out = bytearray(hi - first)
    if jump:
        out[0:3] = b"\x4c" + le(run)
    for o, d in segs:
        out[o - first:o - first + len(d)] = d
    return le(first) + le(len(out)) + bytes(out)


def check_xex(raw, segs, run, what):
    blocks = [(o, d) for _, o, d in parse_xex(raw)]
    runs = [d for o, d in blocks if o == 0x2e0]
    check(len(runs) == 1 and len(runs[0]) == 2, "%s: executable has run blocks %r", what, runs)
    check(runs[0] == le(run), "%s: run address is %s, expected %s", what, runs[0][::-1].hex(), le(run)[::-1].hex())
    body = [b for b in blocks if b[0] != 0x2e0]
    check([o for o, d in body] == [o for o, d in segs], "%s: blocks at %s, expected %s", what, ["%04x" % o for o, d in body], ["%04x" % o for o, d in segs])
    for (o, d), (_, w) in zip(body, segs):
        same(d, w, "%s: block at %04x" % (what, o))
    check(len(raw) == 2 + 6 + sum(4 + len(d) for o, d in segs), "%s: executable has %d bytes", what, len(raw))


def store_text(fs, name):
    """the name a file is listed under"""
    if fs.kind == "atari":
        b, _, e = name.partition(".")
        return b[:8].rstrip() + ("." + e[:3].rstrip() if e[:3].rstrip() else "")
    return name[:30].rstrip()


class StandIn:
    """stand-in for the assembler package: a source has lines of an address
    and hex digits"""

    def __init__(self, name):
        self.segments = []
        with open(name) as fh:
            for line in fh:
                if line.startswith("error"):
                    raise SyntaxError("bad line")
                a, h = line.split()
                d = bytes.fromhex(h)
                self.segments.append((int(a, 16), int(a, 16) + len(d), d))


@register("P26")
def p26(case):
    if not any(o in ("-s", "--asm") for o, _ in case["args"]):
        return p26_case(case)
    mod = types.ModuleType("pyatasm")
    mod.Assemble = StandIn
    old = sys.modules.get("pyatasm", mod)
    sys.modules["pyatasm"] = None if case.get("noasm") else mod
    try:
        return p26_case(case)
    finally:
        if old is mod:
            del sys.modules["pyatasm"]
        else:
            sys.modules["pyatasm"] = old


def p26_case(case):
    labels = set()
    with scratch() as work:
        os.chdir(work)
        root = os.path.normpath(os.path.join(work, "..", "..", "..", ".."))
        host = {n: mkdata(d) for n, d in case["host"].items()}
        for n, d in host.items():
            put(n, d)
        objs = {}
        for n, o in case["objs"].items():
            objs[n] = object_file(o)
            put(n, objs[n][0])
        for n, src in case.get("srcs", {}).items():
            put(n, "".join("error\n" if o is None else "%04x %s\n" % (o, mkdata(d).hex()) for o, d in src).encode())
        argv = []
        asm_segs, data_segs, obj_segs = [], [], []
        run = None
        bad = False
        for opt, items in case["args"]:
            argv.append(opt)
            for it in items:
                if opt in ("-d", "--data"):
                    t = it["file"]
                    known = t in host
                    d = host.get(t, b"")
                    if it.get("slice") is not None:
                        sl = it["slice"]
                        t += "[" + ":".join("" if x is None else str(x) for x in sl) + "]"
                        d = d[slice(*sl)]
                    if it.get("badaddr"):
                        t += it["badaddr"]
                        bad = True
                    else:
                        t += "@" + addr_text(it["addr"], it["fmt"])
                    if not known:
                        bad = True
                    argv.append(t)
                    data_segs.append((it.get("addr"), d))
                elif opt in ("-s", "--asm"):
                    argv.append(it)
                    src = case["srcs"][it]
                    if case.get("noasm") or any(o is None for o, d in src):
                        bad = True
                    else:
                        asm_segs += [(o, mkdata(d)) for o, d in src]
                        labels.add("source")
                else:
                    argv.append(it)
                    if it in objs:
                        _, segs, r = objs[it]
                        obj_segs += segs
                        if run is None:
                            run = r
                    else:
                        bad = True
        segs = asm_segs + data_segs + obj_segs
        if case.get("run") is not None:
            r = case["run"]
            if "bad" in r:
                argv += [r.get("opt", "-r"), r["bad"]]
                bad = True
            else:
                argv += [r.get("opt", "-r"), addr_text(r["addr"], r["fmt"])]
                run = r["addr"]
        where = case["where"]
        glob = ["--dry-run"] if case.get("dry") else []
        f = ["-f"] if case.get("force") else []
        if where == "boot":
            return boot(case, root, argv, f, glob, segs, run, bad)
        out = case["out"]
        fs = None
        if where == "disk":
            spec = case["disk"]
            fs = make_fs(spec)
            img = "disk.atr" if fs.kind == "atari" else "disk.dsk"
            put(img, fs.raw)
            model = Model(fs, fs.raw)
        else:
            img = "."
            if case.get("exists"):
                put(out, b"OLD")
        before = snapshot(root)
        cmd = [img] + glob + [case.get("alias", "assemble")] + f + argv + ["-o", out]
        what = "atrcopy " + " ".join(cmd)
        r = cli(cmd)
        after = snapshot(root)
        kind = "xex" if out.lower().endswith("xex") else "bsave" if out.lower().endswith(("bin", "bsave")) else None
        if kind is None and fs is not None:
            kind = "xex" if fs.kind == "atari" else "bsave"
        if kind == "xex":
            want = want_xex(segs, run) if not bad else None
        elif kind == "bsave":
            want = want_bsave(segs, run) if not bad else None
        else:
            want = None
        nt = len(segs) > 1 or case.get("run") is not None or any(len(a[1]) and a[0] in ("-d", "--data") and a[1][0].get("slice") for a in case["args"])
        info = {"nontrivial": bool(nt)}
        if want is None:
            check(r.failed, "%s: accepted although it should be refused", what)
            check(before == after, "%s failed but %s", what, describe(before, after))
            why = "bad" if bad else "format" if kind is None else "none" if not segs else "empty" if any(not d for o, d in segs) else "range" if any(o + len(d) > 0x10000 for o, d in segs) else "run"
            return dict(info, labels=["refused", "refused: " + why])
        name = store_text(fs, out) if fs else out
        exists = name in model.files if fs else out in os.listdir(".") and case.get("exists")
        if (exists and not f) or glob:
            check(not r.failed, "%s: %s", what, r)
            check(before == after, "%s: %s", what, describe(before, after))
            return dict(info, labels=["kept", where])
        if fs is None:
            check(not r.failed, "%s: %s", what, r)
            with open(out, "rb") as fh:
                raw = fh.read()
            if kind == "xex":
                check_xex(raw, want[0], want[1], what)
            else:
                same(raw, want, what)
            only(before, after, "l1/l2/l3/work/" + out, what)
            return dict(info, labels=["local " + kind])
        size = len(want) if kind == "bsave" else 8 + sum(4 + len(d) for o, d in segs)
        if exists:
            model.remove(name)
        fits = model.add(name, bytes(size), "B" if fs.kind == "dos33" else None)
        if not fits:
            check(r.failed, "%s: succeeded although the file does not fit", what)
            check(before == after, "%s failed but %s", what, describe(before, after))
            return dict(info, labels=["full"])
        check(not r.failed, "%s: %s", what, r)
        only(before, after, "l1/l2/l3/work/" + img, what)
        with open(img, "rb") as fh:
            raw = fh.read()
        d = fs.disk(raw)
        live = {e.name: e for e in d.live()}
        check(sorted(live) == sorted(model.files), "%s: files on the disk are %r, expected %r", what, sorted(live)[:8], sorted(model.files)[:8])
        for n, e in live.items():
            check(not e.error, "%s: %s", what, e.error)
            if n != name:
                same(e.data, model.files[n].back, "%s: other file %r" % (what, n))
        e = live[name]
        got = e.data
        if fs.kind == "dos33":
            check(e.ftype == 4, "%s: stored with type %02x", what, e.ftype)
            check(set(got[size:]) <= {0}, "%s: garbage after the end of the file", what)
            got = got[:size]
        if kind == "xex":
            check_xex(got, want[0], want[1], what)
        else:
            same(got, want, what)
        return dict(info, labels=["disk %s %s" % (fs.kind, kind)] + (["replaced"] if exists else []))


def only(before, after, path, what):
    path = os.path.normpath(path)
    b = {k: v for k, v in before.items() if k != path}
    a = {k: v for k, v in after.items() if k != path}
    check(a == b, "%s: %s", what, describe(b, a))


def boot(case, root, argv, f, glob, segs, run, bad):
    target = case["target"]
    if case.get("exists"):
        put(target, b"OLD")
    before = snapshot(root)
    cmd = [target] + glob + [case.get("alias", "boot")] + f + argv
    what = "atrcopy " + " ".join(cmd)
    r = cli(cmd)
    after = snapshot(root)
    info = {"nontrivial": len(segs) > 1 or case.get("run") is not None}
    ext = target.lower().rsplit(".", 1)[-1]
    if bad or ext not in ("atr", "dsk") or not segs:
        check(before == after, "%s cannot succeed but %s", what, describe(before, after))
        if bad and ext in ("atr", "dsk"):
            check(r.failed, "%s: accepted although it should be refused", what)
        return dict(info, labels=["boot nothing"])
    m = [(o, d, None, None) for o, d in segs]
    if ext == "atr":
        want = want_xex(segs, run)
        total = 8 + sum(4 + len(d) for o, d in segs)
        if want is None or total > 0xffff:
            check(r.failed, "%s: accepted although it should be refused", what)
            check(before == after, "%s failed but %s", what, describe(before, after))
            return dict(info, labels=["boot refused"])
    else:
        fits = apple_fits(m) and not any(o < 0 or o + len(d) > 0x10000 for o, d in segs)
        if not fits:
            check(r.failed, "%s: accepted although the loader cannot load it", what)
        if r.failed:
            check(not fits or any(not d for o, d in segs), "%s: %s", what, r)
            check(before == after, "%s failed but %s", what, describe(before, after))
            return dict(info, labels=["boot refused"])
    check(not r.failed, "%s: %s", what, r)
    if (case.get("exists") and not f) or glob:
        check(before == after, "%s: %s", what, describe(before, after))
        return dict(info, labels=["boot kept"])
    only(before, after, "l1/l2/l3/work/" + target, what)
    with open(target, "rb") as fh:
        raw = fh.read()
    if ext == "atr":
        mem, inits, pc = run_kboot(raw[16:])
        check(pc == want[1], "%s: boots to %04x, run address is %04x", what, pc, want[1])
        skip = (0x2e2, 0x2e3)
    else:
        mem, pc = run_apple(raw)
        w = run or segs[0][0]
        check(pc == w, "%s: boots to %04x, run address is %04x", what, pc, w)
        skip = ()
    for a, v in memory_of(segs).items():
        if a not in skip and mem[a] != v:
            raise Violation("%s: memory at %04x is %02x after booting, expected %02x" % (what, a, mem[a], v))
    return dict(info, labels=["boot " + ext] + (["replaced"] if case.get("exists") else []))
