"""Opening images: damage, compression, recognition (P16, P17, P23, P27)."""
import hashlib
import io
import sys

import numpy as np

import atrcopy
from atrcopy.omnivore_loader import identify_mime
from atrcopy import errors, parsers
from atrcopy.diskimages import DiskImageBase
from atrcopy.mame import MameZipImage
from atrcopy.segments import SegmentData

import mkimg
from hutil import Violation, check, same, short, quiet
from props import register


def arr(b):
    return np.frombuffer(b, dtype=np.uint8).copy()


def allowed(e):
    return isinstance(e, errors.AtrError)


class Guarded:
    """run a call of the code under test; only library errors may come out"""

    def __init__(self, labels):
        self.labels = labels
        self.calls = 0

    def __call__(self, what, fn, *args):
        self.calls += 1
        try:
            return True, fn(*args)
        except errors.AtrError as e:
            return False, e
        except (MemoryError, Violation):
            raise
        except Exception as e:
            tb = sys.exc_info()[2]
            last = None
            while tb is not None:
                last = tb
                tb = tb.tb_next
            where = "%s:%d" % (last.tb_frame.f_code.co_filename.rsplit("/", 1)[-1], last.tb_lineno)
            raise Violation("%s raised %s (%s) at %s, not one of the library's errors" % (what, type(e).__name__, str(e)[:120], where))


def inspect(g, what, parser, deep=True):
    """list, describe and read everything of an accepted image"""
    g(what + ": str(parser)", str, parser)
    img = parser.image
    if img is not None:
        g(what + ": str(image)", str, img)
        if hasattr(img, "dir"):
            g(what + ": image.dir()", img.dir)
        for d in list(img.files)[:130]:
            g(what + ": str(dirent)", str, d)
            g(what + ": filename", lambda: d.filename)
            g(what + ": verbose_info", lambda: d.verbose_info)
            g(what + ": extra_metadata", d.extra_metadata, img)
            ok, data = g(what + ": get_file", img.get_file, d)
            if ok:
                check(isinstance(data, bytes), "%s: get_file returned %s", what, type(data).__name__)
    for s in parser.segments:
        g(what + ": str(segment)", str, s)
        g(what + ": segment.verbose_info", lambda: s.verbose_info)
        g(what + ": len(segment)", len, s)
        g(what + ": segment.tobytes()", s.tobytes)
        if len(s):
            g(what + ": segment.label", s.label, 0)
            g(what + ": segment.label", s.label, len(s) - 1)


NON_CART = [p for p in parsers.known_segment_parsers if getattr(p, "cart_info", None) is None]
CARTS = [p for p in parsers.known_segment_parsers if getattr(p, "cart_info", None) is not None]


@register("P17")
def p17(case):
    raw = mkimg.build(case["img"])
    labels = ["img:" + case["img"]["k"]]
    g = Guarded(labels)
    a = arr(raw)
    with quiet():
        ok, res = g("find_diskimage_from_data", atrcopy.find_diskimage_from_data, a)
        same(a.tobytes(), raw, "opening changed the input bytes")
        found = None
        if ok:
            parser, mime = res
            found = mime
            check(parser is not None, "find_diskimage_from_data returned no parser")
            labels.append("found:" + type(parser).__name__.rstrip("0123456789"))
            inspect(g, "found %s" % type(parser).__name__, parser)
            same(a.tobytes(), raw, "reading changed the input bytes")
            img = parser.image
            if isinstance(img, DiskImageBase) and not hasattr(img, "cart_type") and not isinstance(img, MameZipImage):
                # the image opened directly, with the name of its file
                name = case.get("name", "")
                what = "%s with the name %r" % (type(img).__name__, name)
                ok4, img2 = g(what, type(img), img.rawdata, name)
                check(ok4, "%s was refused: %r", what, img2)
                check(len(img2.files) == len(img.files), "%s has %d files, %d without", what, len(img2.files), len(img.files))
                for d, d2 in list(zip(img.files, img2.files))[:8]:
                    r1, r2 = g(what, img.get_file, d), g(what, img2.get_file, d2)
                    check(r1[0] == r2[0] and (not r1[0] or r1[1] == r2[1]), "%s: other contents than without", what)
                    g(what, str, d2)
        else:
            labels.append("refused:" + type(res).__name__)
        cls = list(NON_CART)
        if CARTS:
            cls += [CARTS[i % len(CARTS)] for i in case.get("carts", [])]
        n = 0
        for c in cls:
            for strict in (True, False):
                ok, p = g("%s strict=%s" % (c.__name__, strict), c, SegmentData(a), strict)
                if ok:
                    n += 1
                    if not (strict and type(p) is type(res)):
                        inspect(g, "%s strict=%s" % (c.__name__, strict), p)
        same(a.tobytes(), raw, "parsing changed the input bytes")
        ok2, r = g("iter_parsers", atrcopy.iter_parsers, SegmentData(a))
        ok3, r = g("identify_mime", identify_mime, raw[:512], io.BytesIO(raw))
        if ok3:
            if found is None:
                check(r is None, "identify_mime recognises %r in data that is refused", r)
            else:
                check(r is not None and r["mime"] == found, "identify_mime gives %r for data recognised as %s", r, found)
    labels.append("accepted:%d" % min(n, 12))
    return {"labels": labels, "nontrivial": n > 1}


def describe(raw_array):
    """everything a user can see of an image, or the refusal"""
    try:
        parser, mime = atrcopy.find_diskimage_from_data(raw_array)
    except errors.AtrError as e:
        return {"refused": type(e).__name__}
    img = parser.image
    out = {"parser": type(parser).__name__, "mime": mime, "image": str(img)}
    files = []
    for d in img.files:
        try:
            data = img.get_file(d)
            h = (len(data), hashlib.sha1(data).hexdigest())
        except errors.AtrError as e:
            h = type(e).__name__
        files.append((d.filename, str(d), h))
    out["files"] = files
    out["segments"] = [(type(s).__name__, s.name, s.origin, len(s), hashlib.sha1(s.tobytes()).hexdigest()) for s in parser.segments]
    return out


def same_description(got, want, what):
    for k in sorted(set(got) | set(want)):
        if got.get(k) != want.get(k):
            g, w = got.get(k), want.get(k)
            if isinstance(g, list) and isinstance(w, list):
                for i, (x, y) in enumerate(zip(g, w)):
                    if x != y:
                        raise Violation("%s: %s #%d differs: %r, expected %r" % (what, k, i, x, y))
                raise Violation("%s: %d %s, expected %d" % (what, len(g), k, len(w)))
            raise Violation("%s: %s differs: %r, expected %r" % (what, k, g, w))


@register("P16")
def p16(case):
    labels = []
    if case["t"] == "dcm":
        raw = bytes.fromhex(case["head"]) + mkimg.mkdata(case["data"])
        known = len(raw) >= 2 and raw[0] in (0xf9, 0xfa) and raw[1] & 0x1f == 1 and (raw[1] >> 5) & 3 < 3
        labels.append("dcm:%s" % known)
        try:
            atrcopy.find_diskimage_from_data(arr(raw))
            res = "opened"
        except errors.UnsupportedContainer:
            res = "unsupported"
        except errors.AtrError as e:
            res = type(e).__name__
        if known:
            check(res == "unsupported", "a DCM archive (%s) is %s, not reported as unsupported", raw[:2].hex(), res)
        else:
            check(res != "unsupported", "data starting with %s is reported as an unsupported archive", raw[:2].hex())
        return {"labels": labels, "nontrivial": known}
    spec = case["img"]
    raw = mkimg.build(spec["inner"])
    packed = mkimg.comp(dict(spec, muts=[]))
    labels.append("m:%s" % spec["m"])
    labels.append("members:%d" % (1 + len(set(spec.get("cuts", [])) - {0, 1000})))
    with quiet():
        if not case["muts"]:
            want = describe(arr(raw))
            a = arr(packed)
            got = describe(a)
            same(a.tobytes(), packed, "opening changed the compressed bytes")
            if not raw:
                labels.append("empty")
            else:
                same_description(got, want, "%s image" % spec["m"])
                c = atrcopy.guess_container(a)
                check(c is not None, "%s data not recognised as a container", spec["m"])
                same(c.unpacked.tobytes(), raw, "unpacked data")
                labels.append("found:" + want.get("parser", "refused"))
            return {"labels": labels, "nontrivial": bool(want.get("files"))}
        g = Guarded(labels)
        bad = mkimg.mutate(packed, case["muts"])
        a = arr(bad)
        ok, res = g("opening damaged %s data" % spec["m"], atrcopy.find_diskimage_from_data, a)
        same(a.tobytes(), bad, "opening changed the compressed bytes")
        ok2, res2 = g("guess_container on damaged %s data" % spec["m"], atrcopy.guess_container, a)
        if ok:
            inspect(g, "damaged %s" % spec["m"], res[0])
        labels.append("damaged:%s" % ("opened" if ok else type(res).__name__))
        return {"labels": labels, "nontrivial": bad != packed}
