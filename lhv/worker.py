"""Runs calls against the real code in /repo (under /opt/venv/bin/python).

stdin: one JSON request per line; stdout: one JSON reply per line.  Floats
travel as float.hex() strings inside {"f": ...} so that nothing is rounded.
Request: {"fn": "lamberthub.izzo2015", "args": [...], "kwargs": {...}}
Reply:   {"ok": value} or {"exc": class name, "msg": text}, plus "mut": true
when an array argument was modified by the call.
"""
import importlib
import io
import json
import os
import sys
import warnings

REPO = os.environ.get("LHV_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")


def main():
    import numpy as np

    np.seterr(all="ignore")

    def dec(x):
        if isinstance(x, dict):
            if "f" in x:
                return float.fromhex(x["f"])
            if "a" in x:
                return np.array([dec(v) for v in x["a"]], dtype=x.get("t"))
            if "none" in x:
                return None
            if "np" in x:
                return getattr(np, x["np"])(dec(x["v"]))
            raise ValueError(x)
        if isinstance(x, list):
            return [dec(v) for v in x]
        return x

    def enc(x):
        if isinstance(x, np.ndarray):
            return {"a": [enc(v) for v in x.tolist()], "s": list(x.shape), "t": str(x.dtype)}
        if isinstance(x, (bool, np.bool_)):
            return bool(x)
        if isinstance(x, (int, np.integer)):
            return int(x)
        if isinstance(x, (float, np.floating)):
            return {"f": float(x).hex()}
        if isinstance(x, (complex, np.complexfloating)):
            return {"c": [float(x.real).hex(), float(x.imag).hex()]}
        if isinstance(x, (tuple, list)):
            return {"l": [enc(v) for v in x]}
        if x is None or isinstance(x, str):
            return {"o": x}
        return {"r": repr(x)}

    cache = {}

    def resolve(name):
        if name not in cache:
            mod, attr = name.rsplit(".", 1)
            cache[name] = getattr(importlib.import_module(mod), attr)
        return cache[name]

    def one(req):
        try:
            fn = resolve(req["fn"])
        except BaseException as e:  # noqa: BLE001
            return {"exc": type(e).__name__, "msg": str(e)[:300], "load": True}
        args = [dec(a) for a in req.get("args", [])]
        kwargs = {k: dec(v) for k, v in req.get("kwargs", {}).items()}
        arrs = [a for a in list(args) + list(kwargs.values()) if isinstance(a, np.ndarray)]
        before = [a.tobytes() for a in arrs]
        if req.get("ro"):
            for a in arrs:
                a.flags.writeable = False
        try:
            rep = {"ok": enc(fn(*args, **kwargs))}
        except Exception as e:  # noqa: BLE001
            rep = {"exc": type(e).__name__, "msg": str(e)[:300],
                   "mro": [c.__name__ for c in type(e).__mro__]}
        if any(a.tobytes() != b for a, b in zip(arrs, before)):
            rep["mut"] = True
        return rep

    out = os.fdopen(os.dup(1), "w")
    sys.stdout = io.StringIO()
    for line in sys.stdin:
        req = json.loads(line)
        if "group" in req:
            rep = {"group": [one(r) for r in req["group"]]}
        else:
            rep = one(req)
        out.write(json.dumps(rep) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
