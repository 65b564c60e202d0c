"""P30: saving is all or nothing under write errors and crashes."""
import errno
import os
import resource
import shutil
import signal
import sys

from fsmodel import AtariFS, Dos33FS
from hutil import HarnessError, check, mkdata, scratch
from o_cli import cli, make_fs, put, snapshot
from props import register

EVENTS = {"open", "os.rename", "os.remove", "os.truncate", "os.chmod", "os.link", "os.unlink", "os.replace", "shutil.copymode", "shutil.copyfile", "shutil.move", "tempfile.mkstemp"}


class Strike:
    """audit hook: the process ends, or the operation fails, just before the
    k-th operation that changes files; or these are only counted"""

    def __init__(self, how, k=-1):
        self.how = how
        self.k = k
        self.count = 0

    def __call__(self, event, args):
        if event not in EVENTS:
            return
        if event == "open":
            mode, flags = args[1], args[2]
            if isinstance(mode, str):
                if not set(mode) & set("wax+"):
                    return
            elif not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
                return
            if args[0] == os.devnull:
                return
        if self.count == self.k:
            self.count += 1
            if self.how == "kill":
                os._exit(77)
            raise OSError(errno.ENOSPC, "injected error")
        self.count += 1


def count_events(argv):
    """number of operations of the command that change files"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            c = Strike("count")
            sys.addaudithook(c)
            cli(argv)
            os.write(wr, b"%d" % c.count)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as fh:
        text = fh.read()
    os.waitpid(pid, 0)
    if not text:
        raise HarnessError("no count of file operations")
    return int(text)


def faulted(argv, fault, size):
    """run the command line in a child that is hit by the fault: returns
    "ok", "error", or "killed" """
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if fault["m"] in ("event", "event error"):
                sys.addaudithook(Strike("kill" if fault["m"] == "event" else "error", fault["k"]))
            elif fault["m"] in ("error", "kill"):
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if fault["m"] == "error" else signal.SIG_DFL)
                limit = size * fault["f"] // 1000
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            r = cli(argv)
            os._exit(3 if r.failed else 0)
        except BaseException:
            os._exit(3)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) != signal.SIGXFSZ:
            raise HarnessError("child ended by signal %d" % os.WTERMSIG(status))
        return "killed"
    return {0: "ok", 3: "error", 77: "killed"}[os.WEXITSTATUS(status)]


def content(path):
    try:
        with open(path, "rb") as fh:
            return fh.read()
    except FileNotFoundError:
        return None


def command(op, names):
    c = op["c"]
    if c == "add":
        return ["add", "-f"] + [["h1.bin", "h2.bin", "prog.xex"][k % 3] for k in op["files"]]
    if c == "delete":
        return ["delete", "-f"] + ([names[k % len(names)] for k in op["files"]] if names else ["NOSUCH"])
    if c == "vtoc":
        return ["vtoc", "-e"]
    if c == "assemble":
        return ["assemble", "-f", "-d", "h2.bin@2000", "-o", "OUT.XEX"]
    if c == "create":
        return ["create", "-f", op["template"]]
    if c == "boot":
        return ["boot", "-f", "-d", "h1.bin@2000", "h2.bin@4000"]
    raise HarnessError(c)


@register("P30")
def p30(case):
    labels = set()
    hits = 0
    spec = case["disk"]
    fs = make_fs(spec)
    disk = "disk.atr" if fs.kind == "atari" else "disk.dsk"
    with scratch() as work:
        os.chdir(work)
        root = os.path.normpath(os.path.join(work, "..", "..", "..", ".."))
        for n, d in case["host"].items():
            put(n, mkdata(d))
        real = disk
        if case.get("link"):
            os.mkdir("images")
            real = "images/real.img"
            os.symlink(real if case["link"] == 1 else os.path.abspath(real), disk)
        put(real, fs.raw)
        base, ext = os.path.splitext(real)
        for n in (real + ".tmp", real + ".bak", real + ".new", real + "~", base + ".tmp", base + ".bak", base + ".new" + ext, base + "_tmp" + ext, "tmp" + ext, "temp" + ext, "tmp", os.path.join(os.path.dirname(real), "." + os.path.basename(real) + ".tmp"),
                  "new" + disk[4:] + ".tmp", "new" + disk[4:] + ".bak"):
            put(n, b"do not touch " + n.encode())
        os.chmod(real, case["mode"])
        for op in case["ops"]:
            target = disk if not op.get("new") else "new" + disk[4:]
            path = real if not op.get("new") else target
            try:
                names = [e.name for e in fs.disk(content(real)).live() if not e.name.startswith("-")]
            except Exception:
                names = []   # the disk was replaced by one of another kind
            argv = [target] + command(op, names)
            what = "atrcopy " + " ".join(argv)
            old = content(path)
            mode = os.stat(path).st_mode if old is not None else None
            # what the command does when nothing goes wrong
            twin = os.path.join(root, "twin")
            shutil.copytree(work, twin, symlinks=True)
            if case.get("link") == 2:
                os.remove(os.path.join(twin, disk))
                os.symlink(os.path.join(twin, real), os.path.join(twin, disk))
            os.chdir(twin)
            fault = dict(op.get("fault") or {"m": "none"})
            if "e" in fault:
                keep = content(path)
                count = count_events(argv)
                fault["k"] = fault["e"] * count // 1000
                if keep is None:
                    if os.path.exists(path):
                        os.remove(path)
                else:
                    os.chmod(path, mode | 0o200)
                    put(path, keep)
                    os.chmod(path, mode)
            r = cli(argv)
            new = content(path)
            os.chdir(work)
            shutil.rmtree(twin)
            if old is not None and not mode & 0o200:
                check(r.failed or new == old, "%s: the image is write protected and was changed", what)
                labels.add("write protected")
            before = snapshot(root)
            res = faulted(argv, fault, max(len(new or b""), len(old or b"")))
            what += " (%s)" % {"error": "writing fails after %d/1000 of the image" % fault.get("f", 0), "kill": "killed after writing %d/1000 of the image" % fault.get("f", 0),
                               "event": "killed at file operation %d" % fault.get("k", 0), "event error": "file operation %d fails" % fault.get("k", 0), "none": "no fault"}[fault["m"]]
            now = content(path)
            if res == "ok":
                check(not r.failed, "%s: succeeds although it fails without the fault", what)
                check(now == new, "%s: reported success but the image is not the one saved without the fault", what)
                labels.add("ok")
            elif res == "error":
                if "error" not in fault["m"]:
                    check(r.failed, "%s: fails", what)
                elif not r.failed:
                    hits += 1
                check(now == old, "%s: failed and left %s", what, state(now, old, new))
                labels.add("error")
            else:
                hits += 1
                check(now == old or now == new, "%s: left %s", what, state(now, old, new))
                labels.add("killed, " + ("new" if now == new and new != old else "old"))
            after = snapshot(root)
            p = os.path.normpath("l1/l2/l3/work/" + path)
            same_file = {p} | ({os.path.normpath("l1/l2/l3/work/" + disk)} if path == real else set())
            for k in sorted(set(before) | set(after)):
                if k in same_file:
                    continue
                if k not in before:
                    # a process that is killed may leave a temporary file
                    if res == "killed" and os.path.dirname(k) == os.path.dirname(p):
                        os.remove(os.path.join(root, k))
                        labels.add("leftover")
                        continue
                    check(False, "%s: left %s behind", what, k)
                check(k in after and before[k] == after[k], "%s: %s was changed", what, k)
            if case.get("link"):
                check(os.path.islink(disk), "%s: the symbolic link was replaced by a file", what)
            if mode is not None and os.path.exists(path):
                check(os.stat(path).st_mode == mode, "%s: mode was %o and is %o", what, mode, os.stat(path).st_mode)
            labels.add(op["c"] + (" new" if op.get("new") else "") + " " + fault["m"])
    return {"labels": sorted(labels), "nontrivial": hits > 0}


def state(now, old, new):
    if now is None:
        return "no file"
    return "%d bytes of neither the old (%s bytes) nor the new image (%s bytes)" % (len(now), None if old is None else len(old), None if new is None else len(new)) if now not in (old, new) else \
        "the new image" if now == new else "the old image"
