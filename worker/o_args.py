"""P28: any command line ends in a result or a message; spelling does not matter."""
import os
import shutil

from atrcopy import errors

import mkimg
from hutil import Violation, check, mkdata, scratch
from o_cli import cli, snapshot, put, describe
from props import register


def outcome(r):
    if r.exc is not None:
        return "error"
    return "exit %r" % (r.code,) if r.code not in (0, None) else "ok"


def setup(case):
    img = case["img"]
    if img is not None:
        put("disk.img", mkimg.build(img))
    for n, d in case["host"].items():
        put(n, mkdata(d))
    put("sub/inner.bin", b"inner")


def one(case, argv):
    """(result, folder before, folder after), run in a fresh folder"""
    with scratch() as work:
        os.chdir(work)
        root = os.path.normpath(os.path.join(work, "..", "..", "..", ".."))
        setup(case)
        before = snapshot(root)
        r = cli(argv)
        return r, before, snapshot(root)


@register("P28")
def p28(case):
    argv = case["argv"]
    what = "atrcopy " + " ".join(argv)
    r, before, after = one(case, argv)
    if r.exc is not None and not isinstance(r.exc, (errors.AtrError, OSError)):
        raise Violation("%s: %s" % (what, r))
    labels = [outcome(r), case.get("cmd", "?")]
    if r.failed:
        check(before == after or case.get("cmd") in ("extract", "create") or "." in argv, "%s: %s, but %s", what, r, describe(before, after))
    if case.get("help"):
        check(r.exc is None and r.code == 0, "%s: help is not shown: %s", what, r)
        check("usage" in r.out.lower(), "%s: help is not shown", what)
        check(before == after, "%s: %s", what, describe(before, after))
        labels.append("help")
    for kind, other in case.get("variants", []):
        r2, _, after2 = one(case, other)
        w2 = "atrcopy " + " ".join(other)
        check(outcome(r2) == outcome(r), "%s: %s; but %s: %s", what, r, w2, r2)
        check(after2 == after, "%s has a different effect than %s: %s", w2, what, describe(after, after2))
        if kind == "alias":
            check(r2.out == r.out or r.code == 2, "%s prints something else than %s", w2, what)
        labels.append(kind)
    return {"nontrivial": bool(case.get("variants")) or before != after or r.failed, "labels": labels}
