"""Client for worker.py: runs the real code, in parallel processes."""
import json
import os
import queue
import subprocess
import threading

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LHV_REPO", "/repo")


def enc(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "iu":
            return {"a": [enc(v) for v in x.tolist()], "t": str(x.dtype)}
        return {"a": [enc(v) for v in x.tolist()]}
    if isinstance(x, bool) or x is None and False:
        return bool(x)
    if isinstance(x, (np.bool_,)):
        return {"np": "bool_", "v": bool(x)}
    if x is None:
        return {"none": 1}
    if isinstance(x, float):
        return {"f": float(x).hex()}
    if isinstance(x, (int, str)):
        return x
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, dict) and "np" in x:
        return {"np": x["np"], "v": enc(x["v"])}
    raise TypeError(type(x))


def dec(x):
    if isinstance(x, dict):
        if "f" in x:
            return float.fromhex(x["f"])
        if "a" in x:
            return [dec(v) for v in x["a"]]
        if "c" in x:
            return complex(*[float.fromhex(v) for v in x["c"]])
        if "l" in x:
            return tuple(dec(v) for v in x["l"])
        if "o" in x:
            return x["o"]
        if "r" in x:
            return x["r"]
    return x


class Worker:
    def __init__(self, jit=False, repo=None):
        env = {k: v for k, v in os.environ.items() if not k.startswith("NUMBA")}
        env["LHV_REPO"] = repo or REPO
        env["OMP_NUM_THREADS"] = "1"
        env["OPENBLAS_NUM_THREADS"] = "1"
        env["PYTHONHASHSEED"] = "0"
        if jit:
            env["NUMBA_CACHE_DIR"] = os.environ.get("LHV_NBCACHE", "/tmp/lhv-nbcache-%d" % os.getpid())
        else:
            env["NUMBA_DISABLE_JIT"] = "1"
        self.env = env
        self.p = None

    def start(self):
        self.p = subprocess.Popen([PY, "-B", os.path.join(HERE, "worker.py")], env=self.env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, bufsize=1)

    def call(self, req, timeout=30.0):
        if self.p is None:
            self.start()
        res = [None]

        def rd():
            try:
                res[0] = self.p.stdout.readline()
            except Exception:  # noqa: BLE001
                res[0] = ""
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.close()
            return {"exc": "WorkerDied", "msg": ""}
        t = threading.Thread(target=rd, daemon=True)
        t.start()
        t.join(timeout)
        if t.is_alive():
            self.close()
            return {"exc": "Timeout", "msg": "no answer in %gs" % timeout}
        if not res[0]:
            self.close()
            return {"exc": "WorkerDied", "msg": ""}
        return json.loads(res[0])

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:  # noqa: BLE001
                pass
            self.p = None


def run_calls(reqs, jit=False, procs=8, timeout=30.0, repo=None, first_timeout=120.0):
    """reqs: list of request dicts -> list of replies (same order)."""
    n = len(reqs)
    out = [None] * n
    if n == 0:
        return out
    procs = max(1, min(procs, n))
    q = queue.Queue()
    chunk = max(1, min(64, n // (procs * 4) or 1))
    for i in range(0, n, chunk):
        q.put(range(i, min(n, i + chunk)))

    def loop():
        w = Worker(jit=jit, repo=repo)
        first = True
        try:
            while True:
                try:
                    rng = q.get_nowait()
                except queue.Empty:
                    return
                for i in rng:
                    out[i] = w.call(reqs[i], timeout=first_timeout if first else timeout)
                    first = w.p is None
        finally:
            w.close()
    ths = [threading.Thread(target=loop, daemon=True) for _ in range(procs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return out


def req(fn, *args, ro=False, **kwargs):
    r = {"fn": fn, "args": [enc(a) for a in args], "kwargs": {k: enc(v) for k, v in kwargs.items()}}
    if ro:
        r["ro"] = True
    return r
