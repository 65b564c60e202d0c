"""Client for the PyPy worker process (see worker/worker.py)."""
import json
import os
import select
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = os.environ.get("VERIF_PYPY", "/opt/venv-pypy/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")

# A case normally takes well under a second.  It counts as "does not
# terminate" only after this much CPU time of the worker itself (so a loaded
# machine does not matter), and only if it happens again in a fresh worker.
HANG_CPU = 40.0
HANG_WALL = 600.0
# memory one case may take; images are at most a few megabytes
HANG_MEM = 3 << 30


class WorkerDied(Exception):
    pass


class Hang(Exception):
    pass


class Worker:
    def __init__(self):
        self.proc = None
        self.scratch = None

    def start(self):
        self.scratch = tempfile.mkdtemp(prefix="atrverif-")
        os.chmod(self.scratch, 0o777)
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_SCRATCH=self.scratch,
                   VERIF_REPO=REPO, HOME=self.scratch, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        self.err = tempfile.TemporaryFile()
        self.proc = subprocess.Popen([PYPY, "-W", "ignore", os.path.join(HERE, "worker", "worker.py")],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.scratch)
        ans = self._read(boot=True)
        if not ans.get("ready"):
            raise WorkerDied("bad hello %r" % ans)

    def cpu(self):
        try:
            with open("/proc/%d/stat" % self.proc.pid) as fh:
                f = fh.read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return 0.0

    def memory(self):
        try:
            with open("/proc/%d/statm" % self.proc.pid) as fh:
                return int(fh.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")
        except (OSError, IndexError, ValueError):
            return 0

    def _read(self, boot=False):
        fd = self.proc.stdout.fileno()
        t0 = time.time()
        c0 = self.cpu()
        buf = b""
        while True:
            r, _, _ = select.select([fd], [], [], 0.5)
            if r:
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    self.err.seek(0)
                    msg = self.err.read().decode("utf-8", "replace")[-2000:]
                    rc = self.proc.wait()
                    raise WorkerDied("worker ended, rc=%s: %s" % (rc, msg))
                buf += chunk
                if buf.endswith(b"\n"):
                    return json.loads(buf)
            elif not boot and (self.cpu() - c0 > HANG_CPU or time.time() - t0 > HANG_WALL):
                raise Hang("no answer after %d s of CPU time" % HANG_CPU)
            elif not boot and self.memory() > HANG_MEM:
                raise Hang("no answer after using %d GB of memory" % (HANG_MEM >> 30))

    def call(self, prop, case):
        if self.proc is None:
            self.start()
        data = json.dumps({"prop": prop, "case": case}) + "\n"
        try:
            self.proc.stdin.write(data.encode())
            self.proc.stdin.flush()
        except BrokenPipeError:
            raise WorkerDied("broken pipe")
        return self._read()

    def run(self, prop, case):
        """run a case; a hang or a death must happen twice, in fresh workers"""
        for attempt in (0, 1):
            try:
                return self.call(prop, case)
            except Hang as e:
                self.stop()
                if attempt:
                    return {"ok": False, "hang": True, "msg": "does not terminate: %s, twice" % e}
            except WorkerDied as e:
                self.stop()
                if attempt:
                    return {"harness": str(e)}

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.kill()
            except OSError:
                pass
            self.proc.wait()
            for f in (self.proc.stdin, self.proc.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.err.close()
            self.proc = None
        if self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None
