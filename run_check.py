"""Driver: generate cases with Hypothesis, run them in PyPy workers, shrink.

usage: python3-vt run_check.py PROPERTY quick|thorough
"""
import collections
import hashlib
import json
import multiprocessing
import os
import queue
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

import gen
from wclient import Worker

EVID = os.environ.get("VERIF_EVID") or os.path.join(HERE, "evidence")
SHRINK_S = 60.0


class StopRun(BaseException):
    pass


class HarnessFault(BaseException):
    pass


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


class Shard:
    def __init__(self, prop, spec, tier, seed, idx, nshards, stop, budget_s):
        self.prop, self.spec, self.tier, self.seed, self.idx, self.n = prop, spec, tier, seed, idx, nshards
        self.stop = stop
        self.deadline = time.time() + budget_s
        self.evals = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.best = None
        self.fail_time = None
        self.timeout = False
        self.known = {}
        self.worker = Worker()

    def one(self, case):
        if self.best is None:
            if self.stop.is_set():
                raise StopRun()
            if time.time() > self.deadline:
                self.timeout = True
                raise StopRun()
        elif time.time() - self.fail_time > SHRINK_S:
            raise StopRun()
        ans = self.worker.run(self.prop, case)
        if "harness" in ans:
            raise HarnessFault(ans["harness"] + "\ncase: " + json.dumps(case)[:2000])
        self.evals += 1
        if not ans["ok"]:
            key = len(json.dumps(case))
            if self.best is None:
                self.fail_time = time.time()
            if self.best is None or key <= self.best[0]:
                self.best = (key, case, ans)
            if ans.get("hang"):
                raise StopRun()
            return ans
        for l in ans["labels"]:
            self.labels[l] += 1
        if ans["nontrivial"]:
            d = digest(case)
            if d not in self.nontrivial:
                self.nontrivial.add(d)
                if len(self.samples) < 2 and len(json.dumps(case)) < 3000:
                    self.samples.append(case)
        return None

    def go(self):
        try:
            self.corpus()
            if self.best is None:
                self.generate()
        except StopRun:
            pass
        finally:
            self.worker.stop()

    def corpus(self):
        d = os.path.join(HERE, "corpus", self.prop)
        if not os.path.isdir(d):
            return
        cases = []
        for name in sorted(os.listdir(d)):
            with open(os.path.join(d, name)) as fh:
                doc = json.load(fh)
            cases.extend(doc["cases"] if "cases" in doc else [doc["case"]])
        for case in cases[self.idx::self.n]:
            self.labels["corpus"] += 1
            if self.one(case) is not None:
                return

    def generate(self):
        sh = self
        strat = self.spec["strategy"]
        if callable(strat):
            strat = strat()
        count = self.spec[self.tier]
        count = int(count * float(os.environ.get("VERIF_SCALE", "1")))
        count = count // self.n + (1 if self.idx < count % self.n else 0)
        if count <= 0:
            return
        # 32-bit seed from (VERIF_SEED, property, shard)
        s = int(hashlib.sha1(("%d/%s/%d" % (self.seed, self.prop, self.idx)).encode()).hexdigest()[:8], 16)

        class Failed(Exception):
            pass

        @hypothesis.seed(s)
        @settings(max_examples=count, deadline=None, database=None, print_blob=False,
                  suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                  phases=[Phase.generate, Phase.shrink])
        @given(strat)
        def test(case):
            ans = sh.one(case)
            if ans is not None:
                raise Failed(ans["msg"])

        try:
            test()
        except Failed:
            pass
        except StopRun:
            pass


def shard_main(prop, tier, seed, idx, n, stop, budget, q):
    res = {"idx": idx}
    try:
        spec = gen.load(prop)
        sh = Shard(prop, spec, tier, seed, idx, n, stop, budget)
        sh.go()
        if sh.best is not None:
            stop.set()
            res["violation"] = {"case": sh.best[1], "answer": sh.best[2]}
        res.update(evals=sh.evals, nontrivial=list(sh.nontrivial), labels=dict(sh.labels),
                   samples=sh.samples, timeout=sh.timeout)
    except HarnessFault as e:
        res["harness"] = str(e)
        stop.set()
    except BaseException:
        res["harness"] = traceback.format_exc()
        stop.set()
    q.put(res)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = gen.load(prop)
    n = int(os.environ.get("VERIF_SHARDS") or "8")
    budget = float(os.environ.get("VERIF_BUDGET", spec.get("budget", {}).get(tier, 420 if tier == "quick" else 5400)))
    ctx = multiprocessing.get_context("fork")
    stop = ctx.Event()
    q = ctx.Queue()
    procs = [ctx.Process(target=shard_main, args=(prop, tier, seed, i, n, stop, budget, q)) for i in range(n)]
    for p in procs:
        p.start()
    results = []
    while len(results) < n:
        try:
            results.append(q.get(timeout=5))
        except queue.Empty:
            if all(not p.is_alive() for p in procs):
                while True:
                    try:
                        results.append(q.get(timeout=1))
                    except queue.Empty:
                        break
                break
    for p in procs:
        p.join()
    results.sort(key=lambda r: r["idx"])
    faults = [r["harness"] for r in results if "harness" in r]
    if len(results) < n:
        faults.append("a shard ended without a result")
    nontrivial = set()
    labels = collections.Counter()
    samples = []
    evals = 0
    for r in results:
        evals += r.get("evals", 0)
        nontrivial.update(r.get("nontrivial", []))
        labels.update(r.get("labels", {}))
        samples.extend(r.get("samples", []))
    violations = [r["violation"] for r in results if "violation" in r]
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(nontrivial),
            "rule": spec["rule"],
            "samples": samples[:4],
            "labels": dict(sorted(labels.items())),
            "budget_exhausted": any(r.get("timeout") for r in results),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    if violations:
        v = min(violations, key=lambda v: len(json.dumps(v["case"])))
        rdir = os.path.join(EVID, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, digest(v["case"])))
        with open(path, "w") as fh:
            json.dump({"property": prop, "case": v["case"], "answer": v["answer"]}, fh, indent=1)
            fh.write("\n")
        print(v["answer"]["msg"])
        if v["answer"].get("trace"):
            print(v["answer"]["trace"])
        print("case: %s" % json.dumps(v["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if faults:
        print("HARNESS FAULT\n" + faults[0])
        return 3
    print("%s %s seed=%d: held on %d cases (%d distinct non-trivial) in %.1f s" % (
        prop, tier, seed, evals, len(nontrivial), time.time() - t0))
    if os.environ.get("VERIF_LABELS"):
        print(json.dumps(ev["coverage"]["labels"], indent=1))
    return 0


if __name__ == "__main__":
    sys.exit(main())
