"""Oracles of the command line properties (P09, P10)."""
import os
import re
import sys
import zlib

import atrcopy

from fsmodel import AtariFS, Dos33FS, MFile, TYPE_TEXT
from hutil import Violation, HarnessError, check, mkdata, same, scratch, quiet, repo_bytes, repo_path
from props import register


class Result:
    def __init__(self, out, exc, code):
        self.out, self.exc, self.code = out, exc, code

    @property
    def failed(self):
        return self.exc is not None or self.code not in (0, None)

    def __str__(self):
        if self.exc is not None:
            return "%s: %s" % (type(self.exc).__name__, str(self.exc)[:200])
        return "exit code %r" % self.code


def cli(argv):
    """run the command line in this process, in the current folder"""
    old = sys.argv
    sys.argv = ["atrcopy"] + argv
    exc = code = None
    with quiet() as buf:
        try:
            atrcopy.run()
        except SystemExit as e:
            code = e.code if e.code is not None else 0
        except Exception as e:
            exc = e
        finally:
            sys.argv = old
    return Result(buf.getvalue(), exc, code)


def snapshot(root):
    """every file (with contents) and folder below root"""
    out = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        out[rel + "/"] = None
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.normpath(os.path.join(rel, f))] = fh.read()
    return out


def put(path, data):
    d = os.path.dirname(path)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(path, "wb") as fh:
        fh.write(data)


def describe(before, after):
    for k in sorted(set(before) | set(after)):
        if k not in after:
            return "%s is gone" % k
        if k not in before:
            return "%s was created" % k
        if before[k] != after[k]:
            return "%s was changed" % k
    return ""


def make_fs(spec):
    return Dos33FS(spec) if spec["fs"] == "dos33" else AtariFS(spec)


# ---------------------------------------------------------------- P09

class Model:
    """what must be on the disk image"""

    def __init__(self, fs, raw):
        self.fs = fs
        d = fs.disk(raw)
        self.max_slots = fs.max_slots
        self.slots_used = len(d.entries)
        self.deleted = sum(1 for e in d.entries if e not in d.live())
        self.free = len(d.free)
        self.files = {}
        for e in d.live():
            own = set(e.chain) | set(getattr(e, "ts", ()))
            ft = TYPE_TEXT.get(e.ftype, "?") if fs.kind == "dos33" else None
            self.files[e.name] = MFile(e.data, e.data, len(own - {0}), ft, e.locked, e.count)

    def copy(self):
        m = Model.__new__(Model)
        m.__dict__.update(self.__dict__)
        m.files = dict(self.files)
        return m

    def remove(self, name):
        f = self.files.pop(name)
        self.free += f.need
        self.deleted += 1

    def add(self, stored, data, ftype):
        need = self.fs.need(len(data))
        if need > self.free or not (self.deleted or self.slots_used < self.max_slots):
            return False
        if self.deleted:
            self.deleted -= 1
        else:
            self.slots_used += 1
        self.free -= need
        self.files[stored] = MFile(data, self.fs.readback(data), need, self.fs.ftype(ftype))
        return True


ATARI_LINE = re.compile(r"^File #(\d+) *\((.{5})(.)\) (\d{3,}) (.{8})(.{3})  (\d{3,})(?:  ([0-9a-f]{8}))?$")
DOS33_LINE = re.compile(r"^File #(\d+) *\((.)(.)\) (\d{3,}) (.{30}) (\d{3,}) (\d{3,})(?:  ([0-9a-f]{8}))?$")

IMAGE = {"atari": "disk.atr", "dos33": "disk.dsk"}


def occupy(pre, names, img):
    """host files in the way of files to be extracted"""
    for d, k, lower in pre:
        if not names:
            return
        n = names[k % len(names)]
        n = n.lower() if lower else n
        if "/" in n or "\\" in n or "\0" in n or n in ("", ".", ".."):
            continue
        p = os.path.join(d, n)
        if p != img and not os.path.exists(p):
            put(p, b"IN THE WAY")


class History:
    def __init__(self, case):
        self.case = case
        self.labels = set()
        self.stats = dict(changes=0, refused=0, multi=0)

    def run(self):
        spec = self.case["disk"]
        self.fs = make_fs(spec)
        self.img = IMAGE[spec["fs"]]
        with scratch() as work:
            os.chdir(work)
            self.root = os.path.normpath(os.path.join(work, "..", "..", "..", ".."))
            self.host = {}
            for i, h in enumerate(self.case["host"]):
                if h["name"] in self.host:
                    continue
                self.host[h["name"]] = mkdata(h["data"])
                put(os.path.join("host", h["name"]), self.host[h["name"]])
            if spec["src"] == "template":
                r = cli([self.img, "create", spec["name"].rsplit(".", 1)[0]])
                check(not r.failed, "create %s failed: %s", spec["name"], r)
                with open(self.img, "rb") as fh:
                    same(fh.read(), self.fs.raw, "image created from the template %s" % spec["name"])
            else:
                put(self.img, self.fs.raw)
            self.model = Model(self.fs, self.fs.raw)
            occupy(self.case.get("pre", ()), list(self.model.files), self.img)
            for c in self.case["cmds"]:
                self.before = snapshot(self.root)
                getattr(self, "c_" + c["c"])(c)

    def flags(self, c, argv):
        """global options go before or after the image name"""
        g = []
        if c.get("dry"):
            g.append("--dry-run")
        if c.get("gpos"):
            return g + [self.img] + argv
        return [self.img] + g + argv

    def expect_tree(self, changes, what):
        """the whole scratch folder is as before, except for `changes`"""
        after = snapshot(self.root)
        want = dict(self.before)
        for k, v in changes.items():
            want[k] = v
        for k in sorted(set(want) | set(after)):
            if k not in after:
                raise Violation("%s: %s is missing" % (what, k))
            if k not in want:
                raise Violation("%s: %s was written" % (what, k))
            if want[k] != after[k]:
                if want[k] is None:
                    raise Violation("%s: %s changed" % (what, k))
                same(after[k], want[k], "%s: %s" % (what, k))

    @property
    def prefix(self):
        return "l1/l2/l3/work/"

    def verify_image(self, what):
        with open(self.img, "rb") as fh:
            raw = fh.read()
        d = self.fs.disk(raw)
        got = {}
        for e in d.live():
            check(e.name not in got, "%s: %r is on the disk twice", what, e.name)
            check(not e.error, "%s: %s", what, e.error)
            got[e.name] = e
        extra = sorted(set(got) - set(self.model.files))
        missing = sorted(set(self.model.files) - set(got))
        check(not extra and not missing, "%s: files on the disk image: unexpected %r, missing %r", what, extra[:4], missing[:4])
        for n, f in self.model.files.items():
            same(got[n].data, f.back, "%s: contents of %r" % (what, n))
            check(got[n].locked == f.locked, "%s: lock of %r", what, n)
            if self.fs.kind == "dos33":
                check(TYPE_TEXT.get(got[n].ftype, "?") == f.ftype, "%s: type of %r", what, n)

    def only_image_changed(self, what):
        after = snapshot(self.root)
        img = self.prefix + self.img
        for k in sorted(set(self.before) | set(after)):
            if k == img:
                continue
            check(k in after and k in self.before and self.before[k] == after[k], "%s: %s was changed", what, k)

    # commands
    def c_add(self, c):
        hosts = sorted(self.host)
        names = []
        for k in c["files"]:
            if k < 0:
                names.append(None)
            elif hosts:
                names.append(hosts[k % len(hosts)])
        if not names:
            return
        argv = [["add", "a"][c.get("alias", 0) % 2]]
        if c.get("force"):
            argv.append("-f")
        if c.get("ft") and self.fs.kind == "dos33":
            argv += ["-t", c["ft"]]
        argv += [os.path.join("host", n) if n is not None else "host/nosuchfile" for n in names]
        m = self.model.copy()
        ok = True
        skipped = 0
        dft = "B" if self.fs.kind == "dos33" else None
        for n in names:
            if n is None:
                ok = False
                break
            stored = self.fs.norm(n)
            if stored in m.files:
                if not c.get("force"):
                    skipped += 1
                    continue
                if c.get("dry"):
                    continue
                m.remove(stored)
            if not c.get("dry"):
                if not m.add(stored, self.host[n], c.get("ft") or dft):
                    ok = False
                    break
        what = "add %s%s" % ("-f " if c.get("force") else "", " ".join(str(n) for n in names))
        r = cli(self.flags(c, argv))
        if c.get("dry"):
            self.expect_tree({}, "--dry-run " + what)
            self.labels.add("dry add")
            return
        if not ok:
            check(r.failed, "%s: must fail", what)
            self.expect_tree({}, "failed " + what)
            self.stats["refused"] += 1
            self.labels.add("add refused")
            return
        check(not r.failed, "%s: %s", what, r)
        if len(names) > 1:
            self.stats["multi"] += 1
            self.labels.add("add several" + (" some skipped" if skipped and skipped < len(names) else ""))
        if skipped:
            self.labels.add("add skipped")
        self.only_image_changed(what)
        self.model = m
        self.stats["changes"] += 1
        self.verify_image(what)

    def c_delete(self, c):
        have = list(self.model.files)
        names = []
        for k in c["files"]:
            if k < 0 or not have:
                names.append("NOSUCH.FIL")
            else:
                names.append(have[k % len(have)])
        names = [n for n in names if n and not n.startswith("-")]
        if not names:
            return
        argv = [["delete", "rm", "del"][c.get("alias", 0) % 3]]
        if c.get("force"):
            argv.append("-f")
        argv += names
        m = self.model.copy()
        for n in names:
            if n in m.files:
                if m.files[n].locked and not c.get("force"):
                    self.labels.add("locked kept")
                    continue
                if not c.get("dry"):
                    m.remove(n)
        what = " ".join(argv)
        r = cli(self.flags(c, argv))
        check(not r.failed, "%s: %s", what, r)
        if c.get("dry"):
            self.expect_tree({}, "--dry-run " + what)
            self.labels.add("dry delete")
            return
        self.only_image_changed(what)
        if len(m.files) != len(self.model.files):
            self.stats["changes"] += 1
            self.labels.add("delete")
        self.model = m
        self.verify_image(what)

    def pick(self, c):
        have = list(self.model.files)
        names = ["NOSUCH.FIL" if k < 0 or not have else have[k % len(have)] for k in c["files"]]
        return [n for n in names if n and not n.startswith("-")]

    def c_list(self, c):
        names = self.pick(c)
        argv = [["list", "t", "ls", "dir", "catalog"][c.get("alias", 0) % 5]]
        if c.get("crc"):
            argv.append("-c")
        argv += names
        if argv == ["list"] and c.get("default"):
            argv = []
        r = cli(self.flags(c, argv))
        what = "list " + " ".join(argv)
        check(not r.failed, "%s: %s", what, r)
        self.expect_tree({}, what)
        lines = [l for l in r.out.split("\n") if l.startswith("File #")]
        want = {n for n in self.model.files if not names or n in names}
        got = set()
        for l in lines:
            m = (DOS33_LINE if self.fs.kind == "dos33" else ATARI_LINE).match(l)
            check(m is not None, "%s: cannot read the line %r", what, l)
            if self.fs.kind == "dos33":
                n = m.group(5).rstrip(" ")
                locked, count, crc = m.group(2) == "*", int(m.group(4)), m.group(8)
            else:
                b, e = m.group(5).rstrip(" "), m.group(6).rstrip(" ")
                n = b + ("." + e if e else "")
                locked, count, crc = m.group(3) == "*", int(m.group(7)), m.group(8)
            check(n in want, "%s: lists %r, which is not asked for or not on the disk", what, n)
            check(n not in got, "%s: lists %r twice", what, n)
            got.add(n)
            f = self.model.files[n]
            check(count == f.count, "%s: %r listed with %d sectors, should be %d", what, n, count, f.count)
            check(locked == f.locked, "%s: %r listed with lock %r", what, n, locked)
            if self.fs.kind == "dos33":
                check(m.group(3) == f.ftype, "%s: %r listed with type %r, should be %r", what, n, m.group(3), f.ftype)
            if c.get("crc"):
                check(crc == "%08x" % (zlib.crc32(f.back) & 0xffffffff), "%s: CRC of %r is shown as %s", what, n, crc)
        check(got == want, "%s: does not list %r", what, sorted(want - got)[:4])
        self.labels.add("list")

    def c_crc(self, c):
        names = self.pick(c)
        r = cli(self.flags(c, ["crc"] + names))
        what = "crc " + " ".join(names)
        check(not r.failed, "%s: %s", what, r)
        self.expect_tree({}, what)
        got = sorted(l for l in r.out.split("\n") if l.strip())
        want = sorted("%s: %08x" % (n, zlib.crc32(f.back) & 0xffffffff) for n, f in self.model.files.items() if not names or n in names)
        check(got == want, "%s: prints %r, should be %r", what, [l for l in got if l not in want][:3], [l for l in want if l not in got][:3])
        self.labels.add("crc")

    def c_extract(self, c):
        names = self.pick(c)
        argv = [["extract", "x"][c.get("alias", 0) % 2]]
        for flag, opt in (("all", "-a"), ("lower", "-l"), ("text", "-t"), ("force", "-f")):
            if c.get(flag):
                argv.append(opt)
        out = ""
        if c.get("dir"):
            argv += ["-d", c["dir"]]
            out = c["dir"]
        argv += names
        targets = list(self.model.files) if c.get("all") else names
        changes = {}
        tree = dict(self.before)
        for n in targets:
            if n not in self.model.files:
                continue
            if not c.get("dry"):
                if out:
                    parts = out.split("/")
                    for i in range(len(parts)):
                        k = os.path.normpath(self.prefix + "/".join(parts[:i + 1])) + "/"
                        tree[k] = changes[k] = None
            o = n.lower() if c.get("lower") else n
            if "/" in o or "\\" in o or "\0" in o or o in ("", ".", ".."):
                return
            path = os.path.normpath(self.prefix + os.path.join(out, o))
            if path == self.prefix + self.img:
                return
            data = self.model.files[n].back
            if c.get("text"):
                data = data.replace(b"\x7f", b"\t").replace(b"\x9b", b"\n")
            if path in tree and not c.get("force"):
                self.labels.add("extract skipped")
                continue
            if not c.get("dry"):
                tree[path] = changes[path] = data
        r = cli(self.flags(c, argv))
        what = " ".join(argv)
        check(not r.failed, "%s: %s", what, r)
        if c.get("dry"):
            changes = {}
        self.expect_tree(changes, what)
        self.labels.add("extract")
        if c.get("text"):
            self.labels.add("extract text")

    def c_vtoc(self, c):
        r = cli(self.flags(c, [["vtoc", "v"][c.get("alias", 0) % 2]] + (["-e"] if c.get("clear") else [])))
        what = "vtoc%s" % (" -e" if c.get("clear") else "")
        check(not r.failed, "%s: %s", what, r)
        if c.get("dry") or not c.get("clear"):
            self.expect_tree({}, what)
            return
        self.only_image_changed(what)
        self.verify_image(what)
        with open(self.img, "rb") as fh:
            raw = fh.read()
        d = self.fs.disk(raw)
        old = self.before[self.prefix + self.img]
        d0 = self.fs.disk(old)
        check(d0.free == d.free, "%s: the free sectors changed", what)
        for n in d.free:
            p, size = (n * 256, 256) if self.fs.kind == "dos33" else d.g.pos(n)
            check(not any(raw[p:p + size]), "%s: free sector %d is not cleared", what, n)
        self.labels.add("vtoc -e")

    def c_create(self, c):
        t = c["template"]
        argv = [["create", "c"][c.get("alias", 0) % 2]] + (["-f"] if c.get("force") else []) + [t]
        r = cli(self.flags(c, argv))
        what = "create %s%s over an existing image" % (t, " -f" if c.get("force") else "")
        check(not r.failed, "%s: %s", what, r)
        found = template(t)
        if found is None:
            self.expect_tree({}, what)
            self.labels.add("create refused")
            return
        self.labels.add("create by " + ("name" if t == found else "stem" if t == found[:-4] else "part"))
        t = found
        if c.get("dry") or not c.get("force"):
            self.expect_tree({}, what)
            self.labels.add("create kept")
            return
        raw = repo_bytes("atrcopy", "templates", t)
        self.expect_tree({self.prefix + self.img: raw}, what)
        self.fs = make_fs({"fs": "dos33" if t.endswith(".dsk") else "atari", "src": "template", "name": t})
        self.model = Model(self.fs, raw)
        self.labels.add("create replaced")


def template(t):
    """the template meant by a name, the documented name without extension, or
    a part that only one template has; None if there is none or several"""
    names = [n for n in os.listdir(repo_path("atrcopy", "templates")) if n + ".inf" in os.listdir(repo_path("atrcopy", "templates"))]
    for f in (lambda n: n == t, lambda n: os.path.splitext(n)[0] == t, lambda n: t in n):
        m = [n for n in names if f(n)]
        if m:
            return m[0] if len(m) == 1 else None
    return None


@register("P09")
def p09(case):
    h = History(case)
    h.run()
    return {"labels": sorted(h.labels) + ["fs:" + case["disk"]["fs"]],
            "nontrivial": h.stats["changes"] >= 1 and len(case["cmds"]) >= 3}


# ---------------------------------------------------------------- P10

MUTATES = {"add", "delete", "vtoc-e", "assemble"}


@register("P10")
def p10(case):
    spec = case["disk"]
    labels = set()
    nontrivial = False
    with scratch() as work:
        os.chdir(work)
        root = os.path.normpath(os.path.join(work, "..", "..", "..", ".."))
        raw = make_fs(spec).raw if spec["fs"] != "bytes" else mkdata(spec["data"])
        img = case.get("img", "disk.atr")
        put(img, raw)
        put("existing.atr", b"KEEP")
        put("existing.dsk", b"KEEP2")
        for n, d in case["host"].items():
            put(n, mkdata(d))
        if spec["fs"] != "bytes":
            fs = make_fs(spec)
            occupy(case.get("pre", ()), [e.name for e in fs.disk(fs.raw).live()], img)
        for path in case.get("shadow", ()):
            # host files that an escaping name could hit
            p = os.path.normpath(os.path.join(work, path))
            if p.startswith(root + "/") and not os.path.exists(p) and os.path.isdir(os.path.dirname(p)):
                put(p, b"SHADOW")
        for c in case["cmds"]:
            before = snapshot(root)
            target = c.get("target") or img
            glob = ["--dry-run"] if c.get("dry") else []
            argv = (glob + [target] if c.get("gpos") else [target] + glob) + c["argv"]
            r = cli(argv)
            after = snapshot(root)
            what = " ".join(argv)
            kind = c["kind"]
            tpath = os.path.normpath("l1/l2/l3/work/" + target)
            changed = [k for k in sorted(set(before) | set(after)) if k not in after or k not in before or before[k] != after[k]]
            labels.add(kind + (" dry" if c.get("dry") else "") + (" failed" if r.failed else ""))
            if not r.failed and (changed or c.get("dry")):
                nontrivial = True
            if c.get("dry") or kind in ("list", "crc", "segments", "vtoc"):
                check(not changed, "%s: %s", what, describe(before, after))
                continue
            for k in changed:
                check(k in after, "%s: %s was removed", what, k)
            if kind in MUTATES:
                for k in changed:
                    check(k == tpath, "%s: %s was changed", what, k)
                if r.failed:
                    check(not changed, "%s failed (%s) but changed the disk image", what, r)
                continue
            if kind in ("create", "boot"):
                for k in changed:
                    check(k == tpath, "%s: %s was changed", what, k)
                    check(k not in before or c.get("force"), "%s: replaced %s without -f", what, k)
                if r.failed and kind == "boot":
                    check(not changed, "%s failed (%s) but wrote the disk image", what, r)
                continue
            if kind == "extract":
                base = os.path.normpath("l1/l2/l3/work/" + (c.get("dir") or "."))
                for k in changed:
                    if k.endswith("/"):
                        check(base + "/" == k or base.startswith(k), "%s: created the folder %s", what, k)
                        continue
                    check(os.path.dirname(k) == base, "%s: wrote %s, which is not in the output folder", what, k)
                    check(k not in before or c.get("force"), "%s: replaced %s without -f", what, k)
                if changed:
                    labels.add("extract wrote")
                continue
            raise HarnessError("kind %r" % kind)
    return {"labels": sorted(labels) + ["fs:" + spec["fs"]], "nontrivial": nontrivial}
