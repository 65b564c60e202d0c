"""development aid: run N cases of a property, tabulate distinct failure messages

usage: python3-vt tools/collect.py PROP N [shards]
"""
import json
import multiprocessing
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
import gen
from wclient import Worker


def shard(args):
    prop, n, idx = args
    spec = gen.load(prop)
    strat = spec["strategy"]
    if callable(strat):
        strat = strat()
    w = Worker()
    found = {}

    @hypothesis.seed(int(os.environ.get("VERIF_SEED", "1")) * 1000 + idx)
    @settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate])
    @given(strat)
    def t(case):
        a = w.run(prop, case)
        m = None
        if "harness" in a:
            m = "HARNESS " + a["harness"][-300:]
        elif not a["ok"]:
            m = a["msg"]
            if a.get("trace"):
                m += " @ " + a["trace"].strip().splitlines()[-3].strip()
        if m:
            k = re.sub(r"\d+", "#", re.sub(r"^.*? raised", "raised", m))
            if "raised" in m and " at " in m:
                k = m[m.index("raised"):]
                k = re.sub(r"\(.*?\) at", "at", k)
            c = json.dumps(case)
            if k not in found or len(c) < len(found[k][1]):
                found[k] = (m, c)
    t()
    w.stop()
    return found


if __name__ == "__main__":
    prop, n = sys.argv[1], int(sys.argv[2])
    s = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    with multiprocessing.get_context("fork").Pool(s) as p:
        rs = p.map(shard, [(prop, n // s, i) for i in range(s)], 1)
    tot = {}
    for r in rs:
        for k, v in r.items():
            if k not in tot or len(v[1]) < len(tot[k][1]):
                tot[k] = v
    for k, (m, c) in sorted(tot.items()):
        print(m[:600])
        print("     ", c[:int(os.environ.get("CLEN","500"))])
