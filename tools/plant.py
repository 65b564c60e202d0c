"""Make and confirm a planted bug, in a scratch copy of /repo.

usage: plant.py SPEC.py... [--nocheck]
SPEC.py defines: id, prop, edits=[(file, old, new)...], needs, breaks, demo (python source)
Writes seeded/<id>/ if the tests pass and the demonstration tells the trees apart.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec timeout 250 /opt/venv-pypy/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def tests(wt):
    """names of the tests that pass in the copy"""
    xml = os.path.join(os.path.dirname(wt), "j.xml")
    sh("cd %s/test && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s /opt/venv-pypy/bin/python -m pytest -q -p no:cacheprovider --timeout=300 "
       "--continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s" % (wt, wt, xml))
    out = os.path.join(os.path.dirname(wt), "o.json")
    sh("python3 /opt/vp/results.py %s junit:%s" % (out, xml))
    return set(json.load(open(out))["passed"])


def plant(spec, check):
    s = runpy.run_path(spec)
    tmp = tempfile.mkdtemp(prefix="plant-")
    os.chmod(tmp, 0o755)
    wt = tmp + "/r"
    try:
        sh("git clone -q /repo %s" % wt)
        d = os.path.join(tmp, s["id"])
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh(d + "/demo.sh", cwd=wt)
        ok = r.returncode == 0
        if not ok:
            print(s["id"], "demo on the unchanged tree: rc", r.returncode, r.stdout[-600:])
        for f, old, new in s["edits"]:
            p = os.path.join(wt, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", sh("git -C %s diff -U0 -- %s" % (wt, f)).stdout, re.M):
                n, c = int(m.group(1)), int(m.group(2) or 1)
                if c:
                    for line in sh("git -C %s blame -s -L%d,+%d HEAD -- %s" % (wt, n, c, f)).stdout.splitlines():
                        if not line.startswith("^02b9a9b"):
                            print(s["id"], "NOT ORIGINAL:", line)
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % wt).stdout)
        b = json.load(open("/opt/vp/BASELINE.json"))
        lost = set(b.get("passed") or b.get("stable") or b.get("tests")) - tests(wt)
        if lost:
            print(s["id"], "tests lost:", sorted(lost)[:3])
            ok = False
        r = sh(d + "/demo.sh", cwd=wt)
        print(s["id"], "demo with the bug: rc", r.returncode, r.stdout.strip().splitlines()[-1:])
        ok &= r.returncode != 0
        if ok:
            dst = os.path.join(HERE, "seeded", s["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            if check:
                for seed in (1, 2):
                    r = sh("VERIF_EVID=%s VERIF_REPO=%s VERIF_SEED=%d python3-vt %s/run_check.py %s quick" % (tmp, wt, seed, HERE, s["prop"]))
                    print(s["id"], "check", s["prop"], "seed", seed, "rc", r.returncode, "|", r.stdout[:260].replace("\n", " / "))
        print("CONFIRMED" if ok else "REJECTED", s["id"], flush=True)
    finally:
        shutil.rmtree(tmp)


for a in sys.argv[1:]:
    if not a.startswith("--"):
        plant(a, "--nocheck" not in sys.argv)
