"""Helpers shared by the oracles (PyPy side)."""
import contextlib
import io
import os
import shutil
import sys


class Violation(Exception):
    """the property does not hold for this case"""


class HarnessError(Exception):
    """the harness is wrong; never reported as a violation"""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


# ---------------------------------------------------------------- guard

_guard_root = None


def install_guard(root):
    """Refuse to open files for writing outside `root` (and /dev/null)."""
    global _guard_root
    _guard_root = os.path.realpath(root)

    def hook(event, args):
        if event == "open":
            path, mode, flags = args[0], args[1], args[2]
            writing = False
            if isinstance(mode, str):
                writing = any(c in mode for c in "wax+")
            elif isinstance(flags, int):
                writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
            if writing and isinstance(path, (str, bytes)):
                p = os.fsdecode(path)
                if p == os.devnull:
                    return
                rp = os.path.realpath(p)
                if rp != _guard_root and not rp.startswith(_guard_root + "/"):
                    raise EscapeAttempt(p)

    sys.addaudithook(hook)


class EscapeAttempt(BaseException):
    """the code under test tried to write outside the scratch folder"""


# ---------------------------------------------------------------- data

def prng(seed, n):
    """n deterministic bytes (xorshift32)"""
    x = (seed * 2654435761 + 0x9e3779b9) & 0xffffffff or 1
    out = bytearray(n)
    i = 0
    while i < n:
        x ^= (x << 13) & 0xffffffff
        x ^= x >> 17
        x ^= (x << 5) & 0xffffffff
        out[i] = x & 0xff
        if i + 1 < n:
            out[i + 1] = (x >> 8) & 0xff
        if i + 2 < n:
            out[i + 2] = (x >> 16) & 0xff
        i += 3
    return bytes(out)


def mkdata(spec):
    """file contents from a small JSON description

    {"hex": "..."} or {"n": length, "k": kind, "s": seed}
    """
    if "hex" in spec:
        return bytes.fromhex(spec["hex"])
    n = spec["n"]
    if n <= 0:
        return b""
    k = spec.get("k", "rnd")
    s = spec.get("s", 0)
    if k == "rnd":
        return prng(s, n)
    if k == "const":
        return bytes([s & 0xff]) * n
    if k == "ramp":
        return bytes((i + s) & 0xff for i in range(n))
    if k == "tail0":  # ends in zeros
        body = prng(s, n)
        z = (n * 3) // 4
        return body[:n - z] + b"\0" * z
    if k == "xex":
        if n < 7:
            return prng(s, n)
        body = n - 6
        start = 0x2000
        end = start + body - 1
        if end > 0xffff:
            return b"\xff\xff" + prng(s, n - 2)
        return bytes([0xff, 0xff, start & 255, start >> 8, end & 255, end >> 8]) + prng(s, body)
    raise HarnessError("unknown data kind %r" % k)


def short(b, n=24):
    b = bytes(b)
    return "%d bytes %s%s" % (len(b), b[:n].hex(), "..." if len(b) > n else "")


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


def same(got, want, what):
    got = bytes(got)
    want = bytes(want)
    if got != want:
        i = first_diff(got, want)
        raise Violation("%s: differ at offset %d: got %s want %s (lengths %d/%d)" % (
            what, i, got[i:i + 16].hex(), want[i:i + 16].hex(), len(got), len(want)))


# ---------------------------------------------------------------- scratch

_count = 0


@contextlib.contextmanager
def scratch():
    global _count
    _count += 1
    root = os.path.join(os.environ["VERIF_SCRATCH"], "c%d" % _count)
    d = os.path.join(root, "l1", "l2", "l3", "work")
    os.makedirs(d)
    old = os.getcwd()
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    old = sys.stdout, sys.stderr
    buf = io.StringIO()
    sys.stdout = sys.stderr = buf
    try:
        yield buf
    finally:
        sys.stdout, sys.stderr = old


def repo_path(*a):
    return os.path.join(os.environ.get("VERIF_REPO", "/repo"), *a)


_file_cache = {}


def repo_bytes(*a):
    p = repo_path(*a)
    if p not in _file_cache:
        with open(p, "rb") as fh:
            _file_cache[p] = fh.read()
    return _file_cache[p]
