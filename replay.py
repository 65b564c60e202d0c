#!/usr/bin/env python3
"""Run one saved case against the tree, without Hypothesis.

usage: python3 replay.py FILE   (exit 0: the property holds, 1: it does not)
"""
import json
import sys

from wclient import Worker


def main():
    with open(sys.argv[1]) as fh:
        rep = json.load(fh)
    w = Worker()
    try:
        ans = w.run(rep["property"], rep["case"])
    finally:
        w.stop()
    print(json.dumps(ans, indent=1))
    if "harness" in ans:
        return 2
    if not ans["ok"]:
        print("VIOLATION property=%s replay=%s" % (rep["property"], sys.argv[1]))
        return 1
    return 0


sys.exit(main())
