"""Segment views, attributes, sessions (P19 - P21)."""
from hypothesis import strategies as st

from . import entry

POS = st.one_of(st.integers(0, 12), st.integers(0, 400))
ORDER = st.lists(POS, min_size=1, max_size=14)


def S(**kw):
    return st.fixed_dictionaries(kw)


# bounds of a slice, mostly one with some bytes in it
LEN = st.one_of(st.integers(1, 12), st.integers(10, 300), st.integers(20, 60))
BOUNDS = st.one_of(*[st.builds(lambda a, n: {"a": a, "b": a + n}, st.integers(0, 12), LEN)] * 3, st.builds(lambda a, n: {"a": a, "b": a + n}, st.integers(0, 400), LEN),
                   st.fixed_dictionaries({"a": POS, "b": POS}))


def sliced(s):
    return st.builds(lambda d, b: dict(d, **b), s, BOUNDS)


V = st.integers(0, 9)
X = st.integers(0, 255)


def p19_op():
    sl = st.integers(-20, 300)
    j = st.just
    return st.one_of(
        sliced(S(op=j("slice"), v=V, o=st.sampled_from([0, 0x600, 0x2000]))),
        S(op=j("slice"), v=V, a=sl, b=sl, o=st.sampled_from([0, 0x600, 0x2000])),
        S(op=j("index"), v=V, order=ORDER, o=st.sampled_from([0, 0x600])),
        S(op=j("subset"), v=V, order=ORDER),
        S(op=j("badindex"), v=V, a=POS),
        S(op=j("set"), v=V, a=POS, x=X),
        S(op=j("setrange"), v=V, a=POS, b=POS, x=X, vals=st.booleans()),
        S(op=j("setmany"), v=V, order=ORDER, x=X),
        S(op=j("style"), v=V, a=POS, b=POS, x=X),
        S(op=j("copy"), v=V, x=X),
        S(op=j("interleave"), views=st.lists(V, min_size=1, max_size=4), nb=st.integers(1, 5)),
        S(op=j("parallel"), v=V, x=X),
        S(op=j("resize"), a=POS),
    )


P20_QUERY = dict(kw=st.integers(0, 15), a=POS, b=POS, order=ORDER, split=st.lists(st.sampled_from([0, 1, 2, 3, 0x20, 0x80, 0x10]), max_size=3))


def p20_op():
    j = st.just
    ranges = st.lists(st.tuples(POS, POS), min_size=1, max_size=3)
    text = st.sampled_from(["a", "b", "note", "x" * 30, "\u00e9"])
    q = P20_QUERY
    D = lambda **kw: st.fixed_dictionaries(dict(q, **kw))
    return st.one_of(
        sliced(D(op=j("slice"), v=V, o=j(0))), D(op=j("index"), v=V, o=j(0)),
        D(op=j("set"), v=V, x=X),
        D(op=j("sr"), v=V, ranges=ranges), D(op=j("sr"), v=V, ranges=ranges),
        D(op=j("cr"), v=V, ranges=ranges), D(op=j("cr"), v=V, ranges=ranges),
        D(op=j("cb"), v=V), D(op=j("rect"), v=V, ranges=ranges, bpr=st.integers(1, 20)), D(op=j("rect"), v=V, ranges=ranges, bpr=st.integers(3, 10)),
        D(op=j("si"), v=V), D(op=j("sc"), v=V, ranges=ranges, text=text), D(op=j("sc"), v=V, ranges=ranges, text=text),
        D(op=j("sca"), v=V, text=text), D(op=j("cc"), v=V, ranges=ranges), D(op=j("rm"), v=V), D(op=j("setcom"), v=V, text=text),
        D(op=j("fix"), v=V), D(op=j("save"), v=V, ranges=ranges), D(op=j("restore")), D(op=j("restore")),
        D(op=j("ud"), v=V, ranges=ranges, x=X), D(op=j("cmp"), v=V), D(op=j("cpud"), v=V, x=X),
    )


def seq(op, lo, hi):
    return st.fixed_dictionaries(dict(n=st.one_of(st.integers(1, 12), st.integers(10, 300), st.integers(30, 120)), seed=st.integers(0, 99), style=st.sampled_from([0, 0, 5]),
                                      ops=st.lists(op, min_size=lo, max_size=hi)))


def prefixed(op, extra=None, rare=40, top=150000):
    """start with a few views so that most steps have something to work on"""
    def fix(c):
        n = c["n"]
        pre = c.pop("pre")
        c["ops"] = pre + c["ops"]
        return c
    view = st.one_of(sliced(S(op=st.just("slice"), v=V, o=st.just(0))), S(op=st.just("index"), v=V, order=ORDER, o=st.just(0)))
    base = seq(op, 2, 14)
    # now and then data larger than 64 K and 128 K, with views near its end
    far = st.builds(lambda n, a, b, v: [dict(v, op="slice", v=0, a=max(0, n - a), b=n - b, o=0), n], st.one_of(st.integers(65530, 65545), st.integers(65536, top)),
                    st.integers(0, 400), st.integers(0, 40), st.fixed_dictionaries(extra or {}))

    def enlarge(t):
        c, k, f = t
        if k == 17:
            c["ops"] = [f[0]] + c["ops"]
            c["n"] = f[1]
        return c
    small = st.tuples(base, st.lists(view, min_size=0, max_size=3)).map(lambda t: fix(dict(t[0], pre=t[1])))
    if not rare:
        return small
    return st.tuples(small, st.integers(0, rare - 1), far).map(enlarge)


TEMPLATES = ["dos2sd.atr", "dos2ed.atr", "dos2dd.atr", "dos33.dsk", "dos2sd+2.0s.atr"]


def p21_case():
    import os
    d = "/repo/atrcopy/templates"
    have = [t for t in TEMPLATES if os.path.exists(os.path.join(d, t))]
    tests = [t for t in ["dos_sd_test1.atr", "dos_dd_test2.atr", "dos_ed_test1.atr", "sd_sd_test1.atr", "sd_dd_test2.atr", "kboot_test1.atr", "dos33_master.dsk", "air_defense_v18.xex"] if os.path.exists("/repo/test_data/" + t)]
    img = [st.builds(lambda n, s: {"kind": "raw", "n": n, "s": s}, st.integers(1, 400), st.integers(0, 99)),
           st.builds(lambda b: {"kind": "xex", "blocks": b}, st.lists(st.tuples(st.integers(0x600, 0x9000), st.integers(1, 80)), min_size=1, max_size=5)),
           st.sampled_from([{"kind": "template", "name": t} for t in have])]
    if tests:
        img.append(st.sampled_from([{"kind": "test", "name": t} for t in tests]))
    name = st.text(alphabet="abcAB 01\u00e9\"\\", max_size=8)
    big = st.one_of(POS, st.integers(0, 100000))
    view = st.one_of(
        S(k=st.just("slice"), v=V, a=big, b=big, o=st.integers(0, 0xffff), name=name, vn=st.sampled_from([None, "verbose"]), err=st.sampled_from([None, "bad"]),
          mw=st.integers(1, 80), ps=st.sampled_from([-1, 128, 256]), mm=st.lists(st.tuples(st.integers(0, 65535), name), max_size=3), cr=st.booleans()),
        S(k=st.just("index"), v=V, order=st.lists(big, min_size=0, max_size=20), o=st.integers(0, 0xffff), name=name))
    return st.fixed_dictionaries(dict(
        image=st.one_of(*img), views=st.lists(view, max_size=5),
        styles=st.lists(st.tuples(big, big, st.integers(0, 15)), max_size=6),
        comments=st.lists(st.tuples(big, st.text(alphabet="abc \u00e9\n\"", min_size=1, max_size=6)), max_size=5),
        writes=st.lists(st.tuples(st.integers(0, 30), big, X), max_size=5)))


entry("P19", strategy=prefixed(p19_op()), quick=8000, thorough=200000,
      rule="at least three views on the data and at least one write through one of them",
      assumptions=["slices are contiguous (step 1), as everywhere in the package", "views are made by slicing or selecting, not by sharing one SegmentData object"],
      technique="stateful property-based testing of view and write histories against a model of index lists over one byte array")
entry("P20", strategy=prefixed(p20_op(), P20_QUERY, 0), quick=8000, thorough=300000,
      rule="at least two views and four operations",
      assumptions=["views used with comments show no byte twice", "ranges lie inside the view"],
      technique="stateful property-based testing of attribute histories against a per-byte model")
entry("P21", strategy=p21_case, quick=1200, thorough=60000,
      rule="more than two segments and at least one comment or style",
      technique="property-based testing: serialize, restore on a copy of the bytes, compare and write through")
