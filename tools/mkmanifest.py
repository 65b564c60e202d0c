"""Write MANIFEST.json: one check per property that has a generator."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import gen

TECH = {
    "P01": "stateful property-based testing of histories against a dictionary model and an independent image reader",
}
DEFAULT = "property-based testing (Hypothesis generators, shrinking) against an explicit oracle"

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    try:
        spec = gen.load(pid)
    except KeyError:
        na.append({"property": pid, "reason": "the check for this property is not built yet"})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": "python3-vt /verif/run_check.py %s quick" % pid,
        "thorough_cmd": "python3-vt /verif/run_check.py %s thorough" % pid,
        "technique": spec.get("technique", DEFAULT),
        "level": "exploration",
        "level_note": spec["rule"],
        "evidence_file": "evidence/%s.json" % pid,
    })
man = {
    "version": 1,
    "setup_cmd": "/opt/venv-pypy/bin/python -c 'import numpy' && python3-vt -c 'import hypothesis'",
    "hooks": {"guard": "none", "enable": "no hooks: the checks import the unmodified package from /repo", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(na), "without")
