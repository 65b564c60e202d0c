"""Oracles for segment views (P19), attributes (P20) and sessions (P21)."""
import json

import jsonpickle
import numpy as np

from atrcopy import errors
from atrcopy.segments import SegmentData, DefaultSegment, interleave_segments, get_style_bits
from atrcopy.ataridos import AtariDosFile
import atrcopy

from hutil import check, same, mkdata, prng, quiet, HarnessError, Violation, repo_bytes
from props import register


def arr(b):
    return np.frombuffer(bytes(b), dtype=np.uint8).copy()


def nbytes(x):
    """bytes of an array or of the indexed stand-in for one"""
    return bytes(np.asarray(x[:], dtype=np.uint8).tobytes())


class View:
    def __init__(self, seg, idx):
        self.seg = seg
        self.idx = idx
        self.dup = len(set(idx)) != len(idx)


class World:
    """one base array, views on it, and the model of both"""

    def __init__(self, n, seed, style=0):
        self.data = bytearray(prng(seed, n))
        self.style = bytearray(prng(style, n)) if style else bytearray(n)
        self.com = {}
        self.ud = {i: {} for i in range(1, 7)}
        raw = SegmentData(arr(self.data))
        seg = DefaultSegment(raw, 0, name="base")
        if style:
            seg.style[:] = arr(self.style)
        self.base = seg
        self.views = [View(seg, list(range(n)))]
        self.origin = 0

    def pick(self, k):
        return self.views[k % len(self.views)]

    def add(self, raw, idx, origin=0, name="v"):
        seg = DefaultSegment(raw, origin, name=name)
        v = View(seg, idx)
        self.views.append(v)
        return v

    # -------------------------------------------------- comparing

    def compare(self, what):
        same(nbytes(self.base.data), self.data, "underlying data " + what)
        same(nbytes(self.base.style), self.style, "underlying styles " + what)
        for k, v in enumerate(self.views):
            s = v.seg
            n = len(v.idx)
            check(len(s) == n, "view %d has %d bytes instead of %d %s", k, len(s), n, what)
            want = bytes(self.data[i] for i in v.idx)
            same(nbytes(s.data), want, "view %d %s" % (k, what))
            same(s.tobytes(), want, "tobytes of view %d %s" % (k, what))
            same(bytes(np.asarray(s.rawdata.unindexed_data).tobytes()), want, "unindexed data of view %d %s" % (k, what))
            wst = bytes(self.style[i] for i in v.idx)
            same(nbytes(s.style), wst, "styles of view %d %s" % (k, what))
            same(bytes(np.asarray(s.rawdata.unindexed_style).tobytes()), wst, "unindexed styles of view %d %s" % (k, what))

    def exports(self, k):
        """saving a segment writes its bytes, after its header if the format has one"""
        s = self.views[k].seg
        want = bytes(self.data[i] for i in self.views[k].idx)
        for saver in s.savers:
            got = bytes(saver.encode_data(s, None))
            if ".bsave" in saver.export_extensions:
                if s.origin > 0xffff or len(want) > 0xffff:
                    continue
                same(got[:4], bytes([s.origin & 255, s.origin >> 8, len(want) & 255, len(want) >> 8]), "header of saved view %d" % k)
                got = got[4:]
            same(got, want, "%s of view %d" % (saver.export_data_name, k))

    def translations(self, k):
        v = self.views[k]
        s = v.seg
        n = len(v.idx)
        probe = sorted({0, n - 1, n // 2, n // 3, n * 2 // 3} & set(range(n)))
        for i in probe:
            check(s.get_raw_index(i) == v.idx[i], "view %d: byte %d is at %d of the underlying data, not %d", k, i, v.idx[i], s.get_raw_index(i))
            check(s.get_raw_index_from_address(s.origin + i) == v.idx[i], "view %d: address of byte %d", k, i)
            j = s.get_index_from_base_index(v.idx[i])
            if v.dup:
                check(0 <= j < n and v.idx[j] == v.idx[i], "view %d: reverse translation of %d is %d", k, v.idx[i], j)
            else:
                check(j == i, "view %d: reverse translation of %d is %d, not %d", k, v.idx[i], j, i)
            check(int(s[i]) == self.data[v.idx[i]], "view %d: byte %d", k, i)
        have = set(v.idx)
        total = len(self.data)
        for b in {0, total - 1, total // 2, (v.idx[0] - 1) if v.idx else 0, (v.idx[-1] + 1) if v.idx else 1}:
            if 0 <= b < total and b not in have:
                try:
                    j = s.get_index_from_base_index(b)
                except IndexError:
                    continue
                raise Violation("view %d: byte %d of the underlying data is not in the view but translated to %d" % (k, b, j))
        got = [int(x) for x in s.rawdata.get_indexes_from_base()]
        check(got == v.idx, "view %d: positions in the underlying data %s, expected %s", k, got[:10], v.idx[:10])


def p19_op(w, op, lab):
    kind = op["op"]
    v = w.pick(op.get("v", 0))
    n = len(v.idx)
    if kind == "slice":
        a, b = op["a"], op["b"]
        w.add(v.seg.rawdata[a:b], v.idx[a:b], op.get("o", 0))
    elif kind == "index":
        if not n:
            return
        order = [x % n for x in op["order"]]
        w.add(v.seg.rawdata.get_indexed(order), [v.idx[x] for x in order], op.get("o", 0))
        if not v.seg.rawdata.is_base:
            lab.add("nested-index")
    elif kind == "subset":
        if not n:
            return
        order = [x % n for x in op["order"]]
        seg = v.seg.create_subset(order, "sub")
        w.views.append(View(seg, [v.idx[x] for x in order]))
    elif kind == "badindex":
        try:
            v.seg.rawdata.get_indexed([n + op["a"] % 5])
        except IndexError:
            return
        raise Violation("selecting byte %d of a view with %d bytes accepted" % (n, n))
    elif kind == "set":
        if not n:
            return
        i = op["a"] % n
        v.seg[i] = op["x"]
        w.data[v.idx[i]] = op["x"]
    elif kind == "setrange":
        a, b = sorted([op["a"] % (n + 1), op["b"] % (n + 1)])
        if op.get("vals") and not v.dup:
            vals = prng(op["x"], b - a)
            v.seg[a:b] = arr(vals)
            for i in range(a, b):
                w.data[v.idx[i]] = vals[i - a]
        else:
            v.seg[a:b] = op["x"]
            for i in range(a, b):
                w.data[v.idx[i]] = op["x"]
        check(bytes(v.seg.search_copy) == bytes(w.data[i] for i in v.idx), "search copy is out of date")
    elif kind == "setmany":
        if not n:
            return
        order = [x % n for x in op["order"]]
        v.seg[np.asarray(order, dtype=np.int64)] = op["x"]
        for i in order:
            w.data[v.idx[i]] = op["x"]
    elif kind == "style":
        a, b = sorted([op["a"] % (n + 1), op["b"] % (n + 1)])
        v.seg.style[a:b] = op["x"]
        for i in range(a, b):
            w.style[v.idx[i]] = op["x"]
    elif kind == "copy":
        raw = v.seg.rawdata.copy()
        want = bytes(w.data[i] for i in v.idx)
        wst = bytes(w.style[i] for i in v.idx)
        same(nbytes(raw.get_data()), want, "copy")
        same(nbytes(raw.get_style()), wst, "styles of the copy")
        c = DefaultSegment(raw, 0)
        if n:
            c[0:n] = op["x"]
            c.style[0:n] = op["x"] ^ 0x55
            c.set_comment_at(0, "on the copy")
            same(nbytes(c.data), bytes([op["x"]]) * n, "copy after writing to it")
        check(not w.base.rawdata.extra.comments, "comment on a copy shows up on the original")
        # checked by compare(): the original is unchanged
        lab.add("copy")
    elif kind == "interleave":
        vs = [w.pick(x) for x in op["views"]]
        nb = op["nb"]
        size = min(len(x.idx) for x in vs)
        size -= size % nb
        idx = []
        for j in range(0, size, nb):
            for x in vs:
                idx.extend(x.idx[j:j + nb])
        seg = interleave_segments([x.seg for x in vs], nb)
        w.views.append(View(seg, idx))
        lab.add("interleave")
    elif kind == "parallel":
        other = DefaultSegment(SegmentData(arr(prng(op["x"], len(w.data)))), 0)
        raw = other.get_parallel_raw_data(v.seg)
        ob = nbytes(other.data)
        same(nbytes(raw.get_data()), bytes(ob[i] for i in v.idx), "parallel view of another image")
    elif kind == "resize":
        old = len(w.data)
        new = old + op["a"] % 40
        if any(x.seg.rawdata is w.base.rawdata for x in w.views[1:]):
            return
        w.base.can_resize = True
        res = w.base.resize(new)
        check(tuple(res) == (old, new), "resize returns %s", res)
        w.data.extend(bytes(new - old))
        w.style.extend(bytes(new - old))
        w.views[0].idx = list(range(new))
        for x in w.views[1:]:
            x.seg.replace_data(w.base)
        lab.add("resize")
    else:
        raise HarnessError(kind)


@register("P19")
def p19(case):
    w = World(case["n"], case["seed"], case.get("style", 0))
    lab = set()
    for t, op in enumerate(case["ops"]):
        if len(w.views) > 9 and op["op"] in ("slice", "index", "subset", "interleave"):
            continue
        p19_op(w, op, lab)
        w.compare("after step %d (%s)" % (t, op["op"]))
        lab.add(op["op"])
    for k in range(len(w.views)):
        w.translations(k)
        w.exports(k)
    deep = len(w.views) >= 3 and any(o["op"].startswith("set") for o in case["ops"])
    return {"labels": sorted(lab), "nontrivial": deep}


# ------------------------------------------------------------ P20

KW = [{"match": True}, {"comment": True}, {"selected": True}, {"data": True}, {"diff": True}] + [{"user": i} for i in range(1, 8)] + \
     [{"match": True, "selected": True}, {"data": True, "match": True}, {"user": 2, "diff": True}, {"selected": True, "diff": True, "match": True}]
BIT = {"match": 0x20, "comment": 0x40, "selected": 0x80, "diff": 0x10}


def bits(kw):
    b = 0
    for k, v in kw.items():
        if k == "user":
            b |= v
        elif k == "data":
            b |= 1
        else:
            b |= BIT[k]
    return b


def clear_bits(kw):
    b = 0
    for k in kw:
        b |= 7 if k in ("user", "data") else BIT[k]
    return b


def runs(flags):
    out = []
    for i, f in enumerate(flags):
        if f:
            if out and out[-1][1] == i:
                out[-1][1] = i + 1
            else:
                out.append([i, i + 1])
    return [tuple(x) for x in out]


def rect_bytes(start, end, bpr, n):
    """bytes of the rectangle between two cursor positions, inclusive of the
    byte under an anchor that is to the right of or below the other"""
    r1, c1 = divmod(start, bpr)
    r2, c2 = divmod(end, bpr)
    if c1 >= c2:
        if r1 >= r2:
            top, bot, left, right = r2, r1, c2, c1 + 1
        elif c2 == 0:
            top, bot, left, right = r1, r2 - 1, c1, bpr
        else:
            top, bot, left, right = r1, r2, c2 - 1, c1 + 1
    else:
        if r1 > r2:
            top, bot, left, right = r2, r1, c1, c2 + 1
        else:
            top, bot, left, right = r1, r2, c1, c2
    return [r * bpr + c for r in range(top, bot + 1) for c in range(left, right) if 0 <= r * bpr + c < n]


def norm_ranges(op, n, key="ranges"):
    """ranges inside the view; possibly reversed"""
    out = []
    for a, b in op[key]:
        out.append((a % (n + 1), b % (n + 1)))
    return out


def fwd(ranges):
    return [(min(a, b), max(a, b)) for a, b in ranges]


class Attr:
    def __init__(self, w, lab):
        self.w, self.lab = w, lab
        self.saved = []

    def vcom(self, v):
        return {k: self.w.com[b] for k, b in enumerate(v.idx) if b in self.w.com}

    def vstyle(self, v):
        return [self.w.style[b] for b in v.idx]

    def op(self, op):
        w = self.w
        kind = op["op"]
        v = w.pick(op.get("v", 0))
        s = v.seg
        n = len(v.idx)
        if kind in ("slice", "index", "set"):
            if kind == "index" and n:
                seen, order = set(), []
                for x in op["order"]:
                    if x % n not in seen:
                        seen.add(x % n)
                        order.append(x % n)
                op = dict(op, order=order)
            return p19_op(w, op, self.lab)
        if n == 0:
            return
        kw = KW[op.get("kw", 0) % len(KW)]
        if kind == "sr":
            r = norm_ranges(op, n)
            s.set_style_ranges(r, **kw)
            for a, b in fwd(r):
                for i in range(a, b):
                    w.style[v.idx[i]] |= bits(kw)
        elif kind == "cr":
            r = norm_ranges(op, n)
            s.clear_style_ranges(r, **kw)
            for a, b in fwd(r):
                for i in range(a, b):
                    w.style[v.idx[i]] &= 0xff ^ clear_bits(kw)
        elif kind == "cb":
            s.clear_style_bits(**kw)
            for i in v.idx:
                w.style[i] &= 0xff ^ clear_bits(kw)
        elif kind == "rect":
            bpr = op["bpr"]
            r = [(a % n, b % n) for a, b in op["ranges"]]
            s.set_style_ranges_rect(r, bpr, **kw)
            for a, b in r:
                for i in rect_bytes(a, b, bpr, n):
                    w.style[v.idx[i]] |= bits(kw)
        elif kind == "si":
            idx = [x % n for x in op["order"]]
            s.set_style_at_indexes(np.asarray(idx, dtype=np.int64), **kw)
            for i in idx:
                w.style[v.idx[i]] |= bits(kw)
            got = [int(x) for x in s.get_style_at_indexes(np.asarray(idx, dtype=np.int64))]
            check(got == [w.style[v.idx[i]] for i in idx], "styles at positions")
        elif kind == "sc":
            r = [(a, b) for a, b in fwd(norm_ranges(op, n)) if a < n]
            s.set_comment(r, op["text"])
            for a, b in r:
                for i in range(a, b):
                    w.style[v.idx[i]] |= 0x40
                w.com[v.idx[a]] = op["text"]
        elif kind == "sca":
            i = op["a"] % n
            s.set_comment_at(i, op["text"])
            w.com[v.idx[i]] = op["text"]
        elif kind == "cc":
            r = fwd(norm_ranges(op, n))
            s.clear_comment(r)
            for a, b in r:
                for i in range(a, b):
                    w.style[v.idx[i]] &= 0xff ^ 0x40
                    w.com.pop(v.idx[i], None)
        elif kind == "rm":
            idx = [x % n for x in op["order"]]
            s.remove_comments_at_indexes(idx)
            for i in idx:
                w.com.pop(v.idx[i], None)
        elif kind == "setcom":
            idx = [x % n for x in op["order"]]
            texts = [op["text"] if k % 2 == 0 else None for k in range(len(idx))]
            s.set_comments_at_indexes(None, idx, texts)
            for i, t in zip(idx, texts):
                if t:
                    w.com[v.idx[i]] = t
                else:
                    w.com.pop(v.idx[i], None)
        elif kind == "fix":
            s.fixup_comments()
            for i in range(len(w.style)):
                w.style[i] &= 0xff ^ 0x40
            for i in w.com:
                w.style[i] |= 0x40
        elif kind == "save":
            r = fwd(norm_ranges(op, n))
            data = s.get_comment_restore_data(r)
            cells = [v.idx[i] for a, b in r for i in range(a, b)]
            self.saved.append((s, data, {b: (w.style[b], w.com.get(b)) for b in cells}))
        elif kind == "restore":
            if not self.saved:
                return
            seg, data, cells = self.saved.pop(op["a"] % len(self.saved))
            seg.restore_comments(data)
            for b, (st, c) in cells.items():
                w.style[b] = st
                if c:
                    w.com[b] = c
                else:
                    w.com.pop(b, None)
            self.lab.add("restored")
        elif kind == "ud":
            r = fwd(norm_ranges(op, n))
            u = 1 + op["a"] % 6
            s.set_user_data(r, u, op["x"])
            for a, b in r:
                for i in range(a, b):
                    w.ud[u][v.idx[i]] = op["x"]
        elif kind == "cmp":
            other = w.pick(op["a"])
            if len(other.idx) != n:
                other_data = bytes(w.data[i] ^ (1 if (i * 7) % 3 == 0 else 0) for i in v.idx)
                o = DefaultSegment(SegmentData(arr(other_data)), 0)
            else:
                other_data = bytes(w.data[i] for i in other.idx)
                o = other.seg
            s.compare_segment(o)
            for i, b in enumerate(v.idx):
                w.style[b] &= 0xff ^ 0x10
            for i, b in enumerate(v.idx):
                if w.data[b] != other_data[i]:
                    w.style[b] |= 0x10
            self.lab.add("compare")
        elif kind == "cpud":
            # copy the comments of one view to another place
            dst = w.pick(op["a"])
            off = 0 if not dst.idx else op["x"] % len(dst.idx)
            coms = self.vcom(v)
            if any(k + off >= len(dst.idx) for k in coms) or dst.seg is s:
                return
            if set(v.idx) & set(dst.idx):
                return
            dst.seg.copy_user_data(s, off)
            for k, t in coms.items():
                w.com[dst.idx[k + off]] = t
        else:
            raise HarnessError(kind)

    def queries(self, k, op):
        w = self.w
        v = w.views[k]
        s = v.seg
        n = len(v.idx)
        st, com = self.vstyle(v), self.vcom(v)
        check(dict(s.rawdata.extra.comments) == w.com, "comments %s, expected %s", dict(s.rawdata.extra.comments), w.com)
        kw = KW[op.get("kw", 0) % len(KW)]
        if n == 0:
            ekw = {q: x for q, x in kw.items() if q != "comment"}
            check(list(s.get_style_ranges(**kw)) == [], "style ranges in an empty view")
            check(list(s.get_entire_style_ranges(split_comments=op.get("split", []), **ekw)) == [], "style listing of an empty view")
            check(s.find_next(0, **kw) is None and s.find_previous(0, **kw) is None, "found a style in an empty view")
            check(list(s.iter_comments_in_segment()) == [] and dict(s.get_comments_in_range(0, 0)) == {}, "comments in an empty view")
            self.lab.add("empty view")
            return
        b = bits(kw)
        want = runs([(x & b) == b for x in st])
        got = [tuple(int(q) for q in r) for r in s.get_style_ranges(**kw)]
        check(got == want, "ranges of %s in view %d: %s, expected %s", kw, k, got, want)
        # complete listing
        ekw = {q: x for q, x in kw.items() if q != "comment"}
        split = op.get("split", [])
        eb = bits(ekw)
        if ekw:
            brk = [0]
            for i in range(1, n):
                if (st[i] & eb) != (st[i - 1] & eb) or ((i in com) and (i - 1 not in com) and (st[i] & eb) in split):
                    brk.append(i)
            ends = brk[1:] + [n]
            wante = [((a, e), st[a] & eb) for a, e in zip(brk, ends)]
            gote = [((int(a), int(e)), int(x)) for (a, e), x in s.get_entire_style_ranges(split_comments=split, **ekw)]
            check(gote == wante, "style listing for %s split %s in view %d: %s, expected %s", ekw, split, k, gote[:6], wante[:6])
        # next and previous
        pos = op.get("a", 0) % n
        starts = [a for a, e in want]
        nx = s.find_next(pos, **kw)
        pv = s.find_previous(pos, **kw)
        if not starts:
            check(nx is None and pv is None, "found a style that is not there")
        else:
            after = [a for a in starts if a > pos]
            before = [a for a in starts if a < pos]
            check(nx == (after[0] if after else starts[0]), "next %s after %d is %s, expected %s (%s)", kw, pos, nx, after[:1] or starts[0], want)
            check(pv == (before[-1] if before else starts[-1]), "previous %s before %d is %s (%s)", kw, pos, pv, want)
        # comments
        a, e = sorted([op.get("a", 0) % (n + 1), op.get("b", 0) % (n + 1)])
        got = dict(s.get_comments_in_range(a, e))
        check({int(q): x for q, x in got.items()} == {q: x for q, x in com.items() if a <= q < e}, "comments in %d-%d of view %d: %s expected %s", a, e, k, got, com)
        check({int(q): x for q, x in s.iter_comments_in_segment()} == com, "comments of view %d", k)
        for i in sorted(com)[:5] + [pos]:
            check(s.get_comment(i) == com.get(i, ""), "comment at %d of view %d: %r expected %r", i, k, s.get_comment(i), com.get(i, ""))
        check(s.get_first_comment([(a % n, e), (pos, pos + 1)]) == com.get(min(a % n, pos), ""), "first comment")
        check([list(x) for x in s.get_sorted_comments()] == [[q, w.com[q]] for q in sorted(w.com)], "sorted comments")
        idx = np.asarray([x % n for x in op.get("order", [0])], dtype=np.int64)
        has, texts = s.get_comments_at_indexes(idx)
        wh = [q for q, i in enumerate(idx) if st[i] & 0x40]
        check([int(x) for x in has] == wh, "positions with comment style: %s expected %s", list(has), wh)
        check(list(texts) == [com.get(int(idx[q])) for q in wh], "comments at positions: %s", texts)
        # user data
        u = 1 + op.get("a", 0) % 6
        for i in (pos, 0, n - 1):
            check(s.get_user_data(i, u) == w.ud[u].get(v.idx[i], 0), "user data at %d", i)
        ranges = []
        for q in sorted(w.ud[u]):
            x = w.ud[u][q]
            if ranges and ranges[-1][0][1] == q and ranges[-1][1] == x:
                ranges[-1][0][1] = q + 1
            else:
                ranges.append([[q, q + 1], x])
        check([[list(r), x] for r, x in s.get_sorted_user_data(u)] == ranges, "user data ranges")


@register("P20")
def p20(case):
    lab = set()
    w = World(case["n"], case["seed"], case.get("style", 0))
    at = Attr(w, lab)
    for t, op in enumerate(case["ops"]):
        if len(w.views) > 6 and op["op"] in ("slice", "index"):
            continue
        at.op(op)
        lab.add(op["op"])
        w.compare("after step %d (%s)" % (t, op["op"]))
        at.queries(t % len(w.views), op)
        at.queries((t * 3 + 1) % len(w.views), op)
    return {"labels": sorted(lab), "nontrivial": len(w.views) > 1 and len(case["ops"]) >= 4}


# ------------------------------------------------------------ P21

def image_for(spec):
    k = spec["kind"]
    if k == "template":
        return repo_bytes("atrcopy", "templates", spec["name"])
    if k == "test":
        return repo_bytes("test_data", spec["name"])
    if k == "xex":
        out = bytearray(b"\xff\xff")
        for start, n in spec["blocks"]:
            end = start + n - 1
            out += bytes([start & 255, start >> 8, end & 255, end >> 8]) + prng(n, n)
        return bytes(out)
    if k == "raw":
        return prng(spec["s"], spec["n"])
    raise HarnessError(k)


ATTRS = ["origin", "error", "name", "verbose_name", "page_size", "map_width", "uuid", "can_resize"]
# of some kinds of segments
MORE = ["metadata_start", "data_start", "boot_sector_size", "num_boot_sectors", "first_sector", "num_sectors"]


def seg_state(s):
    r = {a: getattr(s, a) for a in ATTRS}
    for a in MORE:
        if hasattr(s, a):
            r[a] = getattr(s, a)
    n = len(s)
    r["labels"] = [(i, s.label(i), s.label(i, False)) for i in sorted({0, 1, n // 3, n // 2, n - 2, n - 1}) if 0 <= i < n]
    r["verbose"] = s.verbose_info if n else None
    r["memory_map"] = dict(s.memory_map)
    r["class"] = type(s).__name__
    r["str"] = str(s)
    return r


@register("P21")
def p21(case):
    data = image_for(case["image"])
    lab = {"image:" + case["image"]["kind"]}
    if case["image"]["kind"] == "raw":
        raw = SegmentData(arr(data))
        parser = None
        segs = [DefaultSegment(raw, 0, name="base")]
    else:
        parser, mime = atrcopy.find_diskimage_from_data(data)
        segs = list(parser.segments)
        raw = parser.segment_data
        lab.add("mime:" + mime)
    base = DefaultSegment(raw, 0)
    n = len(raw)
    # the user adds views
    for v in case["views"]:
        src = segs[v["v"] % len(segs)]
        m = len(src)
        if v["k"] == "slice":
            a, b = sorted([v["a"] % (m + 1), v["b"] % (m + 1)])
            new = DefaultSegment(src.rawdata[a:b], v["o"], name=v["name"], verbose_name=v.get("vn"), error=v.get("err"))
        else:
            if not m:
                continue
            new = DefaultSegment(src.rawdata.get_indexed([x % m for x in v["order"]]), v["o"], name=v["name"])
        new.map_width = v.get("mw", 40)
        new.page_size = v.get("ps", -1)
        new.memory_map = {int(a): b for a, b in v.get("mm", [])}
        new.can_resize = v.get("cr", False)
        segs.append(new)
    if parser is not None:
        parser.segments = segs
    # and marks things
    for a, b, kw in case["styles"]:
        a, b = sorted([a % (n + 1), b % (n + 1)])
        base.set_style_ranges([(a, b)], **KW[kw % len(KW)])
    for a, t in case["comments"]:
        base.set_comment_at(a % n, t)
    session = {}
    base.serialize_session(session)
    session = json.loads(json.dumps(session))
    if parser is not None:
        text = jsonpickle.dumps(parser)
    else:
        text = jsonpickle.dumps(segs)
    json.loads(text)
    restored = jsonpickle.loads(text)
    raw2 = SegmentData(arr(bytes(raw.data.tobytes())))
    if parser is not None:
        restored.reconstruct_segments(raw2)
        segs2 = restored.segments
        check(type(restored) is type(parser), "restored parser is %s", type(restored).__name__)
        check(getattr(restored, "strict", None) == parser.strict, "restored parser has strict %s, was %s", getattr(restored, "strict", None), parser.strict)
        check(type(restored.image) is type(parser.image), "restored image is %s", type(restored.image).__name__)
    else:
        segs2 = restored
        for s in segs2:
            s.reconstruct_raw(raw2)
    base2 = DefaultSegment(raw2, 0)
    base2.restore_session(session)
    check(len(segs2) == len(segs), "%d segments restored of %d", len(segs2), len(segs))
    for k, (a, b) in enumerate(zip(segs, segs2)):
        sa, sb = seg_state(a), seg_state(b)
        check(sa == sb, "segment %d (%s): restored as %s", k, {x: y for x, y in sa.items() if sb.get(x) != y}, {x: y for x, y in sb.items() if sa.get(x) != y})
        check(len(a) == len(b), "segment %d: %d bytes restored of %d", k, len(b), len(a))
        same(nbytes(b.data), nbytes(a.data), "restored segment %d" % k)
        m = len(a)
        for i in sorted({0, 1, m // 2, m - 1} & set(range(m))):
            check(a.get_raw_index(i) == b.get_raw_index(i), "segment %d: byte %d is at %d instead of %d", k, i, b.get_raw_index(i), a.get_raw_index(i))
        mask = 0x47
        same(bytes(x & mask for x in nbytes(b.style)), bytes(x & mask for x in nbytes(a.style)), "styles of restored segment %d" % k)
        if m:
            ca = {int(i): t for i, t in a.get_comments_in_range(0, m).items()}
            cb = {int(i): t for i, t in b.get_comments_in_range(0, m).items()}
            check(ca == cb, "comments of restored segment %d: %s, were %s", k, cb, ca)
    session2 = {}
    base2.serialize_session(session2)
    check(json.loads(json.dumps(session2)) == session, "session data differs after restoring")
    # write through
    shadow = bytearray(raw2.data.tobytes())
    for k, i, x in case["writes"]:
        s = segs2[k % len(segs2)]
        if len(s):
            i %= len(s)
            shadow[segs[k % len(segs2)].get_raw_index(i)] = x
            s[i] = x
    same(nbytes(raw2.data), shadow, "data after writing through restored segments")
    return {"labels": sorted(lab), "nontrivial": len(segs) > 2 and bool(case["styles"] or case["comments"])}
