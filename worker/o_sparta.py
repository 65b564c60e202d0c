"""SpartaDOS reader (P24)."""
import numpy as np

import atrcopy
from atrcopy import errors
from atrcopy.spartados import SpartaDosDiskImage
from atrcopy.segments import SegmentData

import mkimg
from hutil import Violation, check, same, mkdata, quiet
from props import register


def arr(b):
    return np.frombuffer(b, dtype=np.uint8).copy()


@register("P24")
def p24(case):
    spec = case["img"]
    layout = {}
    raw = mkimg.sparta(spec, layout)
    labels = ["ss:%d" % spec["ss"], "files:%d" % min(len(spec["files"]), 8)]
    a = arr(raw)
    with quiet():
        if case["how"] == "find":
            parser, mime = atrcopy.find_diskimage_from_data(a)
            img = parser.image
            check(isinstance(img, SpartaDosDiskImage), "SpartaDOS disk opened as %s", type(img).__name__)
            segs = parser.segments
        else:
            img = SpartaDosDiskImage(SegmentData(a))
            img.parse_segments()
            segs = img.segments
        want = [f for f in spec["files"] if f["status"] & 8]
        names = [f["name"] + ("." + f["ext"] if f["ext"] else "") for f in want]
        check([d.filename for d in img.files] == names, "listing shows %s, the disk has %s", [d.filename for d in img.files], names)
        check(int(img.total_sectors) == spec["nsec"] and int(img.unused_sectors) == layout["free"], "%s sectors of which %s free are reported, the disk has %d and %d",
              img.total_sectors, img.unused_sectors, spec["nsec"], layout["free"])
        text = str(img)
        check(" %d usable" % spec["nsec"] in text and "(%d free)" % layout["free"] in text and "%d files" % len(want) in text, "the disk is described as %r; it has %d sectors, %d free, and %d files", text, spec["nsec"], layout["free"], len(want))
        listing = img.dir().split("\n")[1:]
        check(len(listing) == len(want), "dir shows %d lines for %d entries", len(listing), len(want))
        for f, d, name, line in zip(want, img.files, names, listing):
            data = mkdata(f["data"])
            n = f.get("claim") or len(data)
            check(d.length == n, "%s has length %s, stored is %d", name, d.length, n)
            check(bool(d.locked) == bool(f["status"] & 1), "%s locked is %s", name, d.locked)
            check(bool(d.is_dir) == bool(f["status"] & 0x20), "%s folder is %s", name, d.is_dir)
            check(not d.deleted, "%s shown as deleted", name)
            stamp = "%d/%d/%d %d:%d:%d" % tuple(f["date"] + f["time"])
            for text in (str(d), line):
                check(f["name"] in text and " %d " % n in text and text.endswith(stamp), "line %r does not show name %s, length %d and date %s", text, name, n, stamp)
                check(("*" in text) == bool(f["status"] & 1), "line %r does not show the lock state", text)
            if f.get("claim"):
                labels.append("claim")
                continue
            per = (spec["ss"] - 4) // 2
            ns = (len(data) + spec["ss"] - 1) // spec["ss"]
            labels.append("maps:%d" % min(9, max(1, (ns + per - 1) // per)))
            if len(data) > 65535:
                labels.append("64K")
            if ns and ns % per == 0:
                labels.append("map-full")
            same(img.get_file(d), data, "contents of %s" % name)
            same(img.find_file(name), data, "contents of %s by name" % name)
        # the segments of the files are in the order of the listing
        if not any(f.get("claim") for f in want):
            k = 0
            for f, name in zip(want, names):
                data = mkdata(f["data"])
                while k < len(segs) and not (segs[k].name.startswith(name) and segs[k].tobytes() == data):
                    k += 1
                check(k < len(segs), "no segment (in the order of the listing) holds %s", name)
                k += 1
        same(a.tobytes(), raw, "reading changed the disk")
    deleted = len(want) != len(spec["files"])
    if deleted:
        labels.append("deleted")
    return {"labels": labels, "nontrivial": sum(1 for f in want if f["data"]["n"] > spec["ss"]) >= 1}
