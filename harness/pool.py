"""Runs jobs on a pool of workers; a worker that dies or hangs is reported for its job."""
import json
import os
import queue
import select
import subprocess
import threading
import time

PY = "/opt/coffe-venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


class Worker:
    def __init__(self, build, env=None, args=()):
        e = dict(os.environ)
        e.update({"OMP_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1",
                  # the code allocates large workspaces for every integral; keep them off mmap (speed only)
                  "MALLOC_MMAP_THRESHOLD_": "1073741824", "MALLOC_TRIM_THRESHOLD_": "2147483648"})
        e.update(env or {})
        self.p = subprocess.Popen([PY, HERE + "/worker.py", str(build), *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, env=e)
        self.err = b""
        self.t = threading.Thread(target=self._drain, daemon=True)
        self.t.start()
        self.buf = b""

    def _drain(self):
        for line in self.p.stderr:
            self.err = (self.err + line)[-3000:]

    def call(self, job, timeout):
        try:
            self.p.stdin.write((json.dumps(job) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.kill()
                return {"id": job["id"], "dead": "no answer within %g s" % timeout}
            if select.select([fd], [], [], min(left, 1.0))[0]:
                b = os.read(fd, 1 << 20)
                if not b:
                    rc = self.p.wait()
                    self.t.join(2)
                    return {"id": job["id"], "dead": "the process ended (status %d)" % rc, "stderr": self.err.decode(errors="replace")[-800:]}
                self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def kill(self):
        self.p.kill()
        self.p.wait()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.kill()


def run_jobs(build, jobs, nproc=8, timeout=120, env=None, args=()):
    """Returns {job id: reply}."""
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    out = {}

    def loop():
        w = None
        while True:
            try:
                j = q.get_nowait()
            except queue.Empty:
                break
            if w is None:
                w = Worker(build, env, args)
            r = w.call(j, timeout)
            out[j["id"]] = r
            if "dead" in r:
                w.kill()
                w = None
        if w is not None:
            w.close()

    ts = [threading.Thread(target=loop) for _ in range(max(1, min(nproc, len(jobs))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out
