"""PyPy side of the harness.

Reads one JSON request per line on stdin: {"prop": id, "case": {...}} and
answers one JSON line on the *original* stdout:

  {"ok": true,  "labels": [...], "nontrivial": bool}
  {"ok": false, "msg": "...", ...}          the property does not hold
  {"harness": "..."}                        the harness itself is at fault

Every case is a pure function of the case and of the code in the tree under
test.  The worker drops to an unprivileged user before running anything, and
refuses (audit hook) to open for writing any path outside its scratch folder.
"""
import gc
import importlib
import json
import os
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = os.environ["VERIF_SCRATCH"]

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, REPO)
sys.path.insert(0, here)
sys.dont_write_bytecode = True


def drop_privileges():
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)


def main():
    out = os.fdopen(os.dup(1), "w")
    inp = os.fdopen(os.dup(0), "r")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    os.chdir(SCRATCH)
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.basicConfig(level=logging.CRITICAL, stream=open(os.devnull, "w"))
    logging.disable(logging.CRITICAL)
    import numpy
    import atrcopy
    if not os.path.realpath(atrcopy.__file__).startswith(os.path.realpath(REPO) + "/"):
        raise SystemExit("atrcopy imported from %s, not from %s" % (atrcopy.__file__, REPO))
    import hutil
    import props
    props.load()
    cov = {}
    covout = os.environ.get("VERIF_COV")
    if covout:
        covout = open("%s.%d" % (covout, os.getpid()), "w")
    drop_privileges()
    hutil.install_guard(SCRATCH)
    if covout:
        pre = os.path.realpath(REPO) + "/atrcopy/"

        def local(frame, event, arg):
            if event == "line":
                s.add(frame.f_lineno) if (s := cov.get(frame.f_code.co_filename)) is not None else None
            return local

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            if f.startswith(pre):
                cov.setdefault(f, set())
                return local

        sys.settrace(tracer)
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    n = 0
    while True:
        line = inp.readline()
        if not line:
            break
        req = json.loads(line)
        try:
            ans = props.run(req["prop"], req["case"])
        except hutil.Violation as e:
            ans = {"ok": False, "msg": str(e)}
        except hutil.HarnessError as e:
            ans = {"harness": "%s\n%s" % (e, traceback.format_exc())}
        except MemoryError:
            ans = {"harness": "out of memory"}
        except BaseException as e:
            # anything the code under test throws that the oracle did not
            # expect, or hands back that the oracle cannot interpret
            ans = {"ok": False, "msg": "unexpected %s: %s" % (type(e).__name__, str(e)[:300]),
                   "trace": traceback.format_exc()[-3000:]}
        out.write(json.dumps(ans) + "\n")
        out.flush()
        n += 1
        if n % 50 == 0:
            gc.collect()
        if covout:
            covout.seek(0)
            covout.write(json.dumps({os.path.basename(f): sorted(v) for f, v in cov.items()}))
            covout.truncate()
            covout.flush()


main()
