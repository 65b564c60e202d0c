"""Faults while images are saved (P30)."""
from hypothesis import strategies as st

from . import entry
from .g_fs import atari_disk, dos33_disk, ATARI_TEMPLATES
from .g_parse import pick, dat


def fault():
    f = st.one_of(st.integers(0, 1000), st.sampled_from([0, 1, 10, 500, 998, 999, 1000]))
    ev = st.builds(lambda m, e: {"m": m, "e": e}, st.sampled_from(["event", "event error"]), st.integers(0, 1000))
    return pick(st.builds(lambda m, f: {"m": m, "f": f}, st.sampled_from(["error", "kill"]), f), st.builds(lambda m, f: {"m": m, "f": f}, st.sampled_from(["error", "kill"]), f),
                ev, ev, st.just({"m": "none"}))


@st.composite
def p30_case(draw):
    disk = draw(pick(atari_disk(4), dos33_disk(4)))
    tm = ATARI_TEMPLATES if disk["fs"] == "atari" else ["dos33.dsk", "dos33autobrun.dsk"]
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        op = {"c": draw(st.sampled_from(["add", "add", "add", "delete", "delete", "vtoc", "assemble", "create", "boot"])), "fault": draw(fault())}
        if op["c"] in ("add", "delete"):
            op["files"] = draw(st.lists(st.integers(0, 8), min_size=1, max_size=3))
        if op["c"] == "create":
            op["template"] = draw(st.sampled_from(tm))
        if op["c"] in ("create", "boot"):
            op["new"] = draw(st.booleans())
        ops.append(op)
    return {"disk": disk, "ops": ops, "host": {"h1.bin": draw(dat(9000)), "h2.bin": draw(dat(600)), "prog.xex": {"n": 40, "k": "xex", "s": 3}},
            "link": draw(st.sampled_from([0, 0, 0, 1, 2])), "mode": draw(st.sampled_from([0o644, 0o600, 0o664, 0o640, 0o755, 0o644, 0o600, 0o444, 0o400]))}


entry("P30", strategy=p30_case(), quick=400, thorough=20000,
      rule="at least one command was really hit: it was killed, or failed although it succeeds without the fault",
      assumptions=["faults are of the process: a write that fails or ends part way (file size limit of the kernel), or a kill at any write or file operation; loss of power and of what the kernel has not yet written is not covered",
                   "a process that is killed may leave a temporary file beside the image"],
      technique="stateful property-based testing of command line histories with injected write errors and kills, compared with a fault-free twin run")
