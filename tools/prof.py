"""time per case: python3-vt tools/prof.py PROP N  -> slowest cases and totals"""
import sys, time, json, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import gen
from wclient import Worker
from hypothesis import given, settings, seed, HealthCheck, Phase
prop, n = sys.argv[1], int(sys.argv[2])
spec = gen.load(prop)
st = spec["strategy"]
w = Worker(); w.call("P08", {"disk":{"fs":"dos33","src":"template","name":"dos33.dsk"},"ops":[]})
rows = []
t_all = time.time()
@seed(5)
@settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate])
@given(st)
def t(case):
    t0 = time.time(); w.run(prop, case); rows.append((time.time() - t0, case))
t()
tot = sum(r[0] for r in rows)
print("cases", len(rows), "worker time %.1f" % tot, "total %.1f" % (time.time() - t_all))
rows.sort(key=lambda r: -r[0])
for d, c in rows[:6]:
    print("%.2f %s" % (d, json.dumps(c)[:300]))
print("median %.3f" % rows[len(rows)//2][0])
w.stop()
