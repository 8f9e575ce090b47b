"""Run-time contracts on the real code (the bounded part of every check).

Each function builds calls to the real solvers from seeded problems and
evaluates the property's postcondition on the replies with the oracle of
oracle.py.  It is labelled bounded in the evidence and never counted as
proved; its other job is to replay counterexamples."""
import math
import random

import numpy as np

from . import cases, oracle, real
from .solvers import ALL, MULTI, SINGLE

TIGHT = dict(maxiter=500, atol=1e-10, rtol=1e-12)
MOD = "lamberthub."


class Run:
    def __init__(self, prop, tier="quick", seed=1, jit=False, procs=8, shard=0, share=1.0):
        self.prop, self.tier, self.seed, self.jit, self.procs = prop, tier, seed, jit, procs
        self.share = share
        self.rng = random.Random("%s/%d%s" % (prop, seed, "/%d" % shard if shard else ""))
        self.reqs, self.checks = [], []
        self.viol, self.evals, self.kinds = [], 0, {}
        self.samples = []

    def n(self, quick, thorough=None):
        return max(1, round(quick * self.share * (1 if self.tier == "quick" else 8)))

    def add(self, fn, args, kw, check, info=None, ro=False):
        self.reqs.append(real.req(MOD + fn, *args, ro=ro, **kw))
        self.checks.append((check, info))

    def group(self, reqs, check, info=None):
        """several calls judged together; they run in order in one worker"""
        self.reqs.append({"group": [real.req(MOD + fn, *a, ro=ro, **kw) for fn, a, kw, ro in reqs]})
        self.checks.append((check, info))

    def flush(self):
        rep = real.run_calls(self.reqs, jit=self.jit, procs=self.procs)
        for q, r, (ck, info) in zip(self.reqs, rep, self.checks):
            self.evals += len(q.get("group", [q]))
            self.judge(q, r, ck, info)
        self.reqs, self.checks = [], []

    def judge(self, q, r, ck, info):
        if r.get("exc") == "WorkerDied":
            return
        try:
            msg = ck(r, info)
        except Exception as e:  # noqa: BLE001
            msg = "the reply %s has not the promised form (%s: %s)" % (str(r)[:200], type(e).__name__, e)
        key = "ok" if "ok" in r else r.get("exc", "group")
        self.kinds[key] = self.kinds.get(key, 0) + 1
        if len(self.samples) < 3:
            self.samples.append({"call": q, "reply": r})
        if msg:
            self.viol.append({"what": msg, "request": q, "reply": r})


def vec(x):
    return np.array(x, dtype=float)


def largs(c):
    return (c["mu"], vec(c["r1"]), vec(c["r2"]), c["tof"], c["M"])


def sols(c):
    return MULTI if c["M"] else ALL


def good_geometry(c):
    R = min(abs(c["dth"]), 2 * math.pi - abs(c["dth"]))
    return R > 0.12 and abs(c["dth"] - math.pi) > 0.05


def well_posed(c, pro):
    """the request in direction pro is not extremely hyperbolic"""
    if pro == c["pro"]:
        return True
    mu, r1, r2 = c["mu"], c["r1"], c["r2"]
    R1, R2 = float(oracle.norm(oracle.V(r1))), float(oracle.norm(oracle.V(r2)))
    C = math.dist(r1, r2)
    s = (R1 + R2 + C) / 2
    T = math.sqrt(2 * mu / s ** 3) * c["tof"]
    lam = math.sqrt(max(0.0, 1 - C / s)) * (1 if 2 * math.pi - c["dth"] < math.pi else -1)
    return T > 0.25 * (2 / 3) * (1 - lam ** 3)


def velocities(r):
    v = real.dec(r["ok"])
    return v[0], v[1]


def directions(c):
    return (c["pro"],) if c["M"] else (c["pro"], not c["pro"])


def each_lambert(run, n, cb, tight=True, both_paths=True, M=None, flt=good_geometry, solvers=None):
    for c in [c for c in cases.pool(run.rng, n, **({} if M is None else {"M": M})) if flt(c)]:
        for pro in directions(c):
            if not well_posed(c, pro):
                continue
            for low in ((True, False) if (c["M"] and both_paths) else (True,)):
                for s in (solvers or ALL):
                    if s in sols(c):
                        cb(c, s, pro, low, TIGHT if tight else {})


# ---------------------------------------------------------------- C01-C03
def ck_conic(r, info):
    c, pro, tol = info
    if "ok" not in r:
        return None
    v1, v2 = velocities(r)
    if not oracle.finite((v1, v2)):
        return "velocities %r %r are not finite" % (v1, v2)
    res = oracle.conic(c["mu"], c["r1"], c["r2"], v1, v2)
    k = max(res, key=res.get)
    if not res[k] <= tol:
        return "the two states are not on one orbit: residual %s = %.3e (all: %s)" % (k, res[k], res)
    return None


def C01(run):
    def cb(c, s, pro, low, kw):
        run.add(s, largs(c) + (pro, low), kw, ck_conic, (c, pro, 1e-6))
    each_lambert(run, run.n(170), cb)
    each_lambert(run, run.n(40), lambda c, s, pro, low, kw: run.add(s, largs(c) + (pro, low), kw, ck_conic, (c, pro, 1e-5)), tight=False)


def ck_tof(r, info):
    c, pro, tol = info
    if "ok" not in r:
        return None
    v1, v2 = velocities(r)
    if not oracle.finite((v1, v2)):
        return "velocities %r %r are not finite" % (v1, v2)
    T = oracle.flight_time(c["mu"], c["r1"], c["r2"], v1, c["M"])
    if T is None:
        return "the returned orbit never reaches r2 after %d revolutions" % c["M"]
    e = float(abs(T / c["tof"] - 1))
    if not e <= tol:
        return "the returned orbit takes %.12g, not %.12g (relative error %.3e, M=%d)" % (T, c["tof"], e, c["M"])
    return None


def C02(run):
    def cb(c, s, pro, low, kw):
        run.add(s, largs(c) + (pro, low), kw, ck_tof, (c, pro, 1e-6))
    each_lambert(run, run.n(170), cb)


def ck_dir(r, info):
    c, pro, _ = info
    if "ok" not in r:
        return None
    v1, _v2 = velocities(r)
    if not oracle.direction_ok(c["r1"], v1, pro):
        return "is_prograde=%s but the angular momentum has Z component of the other sign" % pro
    return None


def C03(run):
    def flt(c):
        return good_geometry(c)

    def cb(c, s, pro, low, kw):
        run.add(s, largs(c) + (pro, low), kw, ck_dir, (c, pro, 0))
    each_lambert(run, run.n(170), cb, flt=flt)
    each_lambert(run, run.n(40), cb, tight=False, flt=flt)


# ---------------------------------------------------------------- C04
def bad_inputs(rng):
    g = lambda: [rng.uniform(-2, 2) or 0.5 for _ in range(3)]
    base = dict(mu=rng.uniform(0.5, 3), r1=g(), r2=g(), tof=rng.uniform(0.5, 9), M=0)
    out = []

    def v(**kw):
        d = dict(base)
        d.update(kw)
        out.append(d)
    for x in (0.0, -1e-300, -rng.uniform(1e-9, 1e6), float("-inf"), 0, -3):
        v(mu=x)
        v(tof=x)
    for x in (-1, -rng.randint(2, 9), -0.5):
        v(M=x)
    for w in ("r1", "r2"):
        for x in ([0.0, 0.0, 0.0], [0.0, -0.0, 0.0], [0, 0, 0], [1.0, 2.0], [1.0, 2.0, 3.0, 4.0], [], [[1.0, 2.0, 3.0]], [[1.0], [2.0], [3.0]], [0.0, 0.0]):
            v(**{w: x})
    v(r2=list(base["r1"]))
    v(r1=[1, 0, 0], r2=[1, 0, 0])
    x = [rng.uniform(-1e9, 1e9), 0.0, 0.0]
    v(r1=x, r2=list(x))
    x = [0.0, 1e-9, rng.uniform(-1e-9, 1e-9)]
    v(r1=x, r2=list(x))
    v(mu=-1.0, tof=-2.0)
    v(mu=0.0, M=-1, r2=[1.0, 2.0])
    return out


def ck_valueerror(r, info):
    if r.get("exc") == "ValueError" or "ValueError" in r.get("mro", []):
        return None
    return "invalid input %s was answered with %s instead of ValueError" % (info, str(r)[:160])


def ck_not_validation(r, info):
    if "ok" in r or r.get("exc") in ("ValueError", "RuntimeError"):
        if any(w in r.get("msg", "") for w in ("must be positive", "three-dimensional", "null vector", "cannot be equal", "equal or greater than zero")):
            return "valid input was refused: %s" % r["msg"]
        return None
    return "valid input raised %s: %s" % (r.get("exc"), r.get("msg"))


def C04(run):
    for k in range(run.n(2)):
        for d in bad_inputs(run.rng):
            for s in ALL:
                for pro in (True, False):
                    run.add(s, (d["mu"], np.array(d["r1"]), np.array(d["r2"]), d["tof"], d["M"], pro), {}, ck_valueerror, d)
    for c in cases.pool(run.rng, run.n(12)):
        for s in sols(c):
            run.add(s, largs(c) + (c["pro"],), {}, ck_not_validation, None)
    for r1, r2 in (([1.0, 0.0, 0.0], [0.0, 1.0, 0.0]), ([0.0, 0.0, 2.0], [1.0, 1.0, 0.0]), ([1.0, 0.0, 0.0], [1.0, 1e-3, 1e-3]), ([1e-6, 0, 0], [0, 1e-6, 1e-7])):
        for s in ALL:
            run.add(s, (1.0, np.array(r1), np.array(r2), 1e-3, 0), {}, ck_not_validation, None)


# ---------------------------------------------------------------- C05
def t_min(c, pro, M):
    """minimum flight time of an M-revolution transfer (oracle, golden section)"""
    import mpmath as mp
    with mp.workdps(20):
        R1, R2 = oracle.norm(oracle.V(c["r1"])), oracle.norm(oracle.V(c["r2"]))
        C = oracle.norm(oracle.sub(oracle.V(c["r1"]), oracle.V(c["r2"])))
        s = (R1 + R2 + C) / 2
        th = c["dth"] if pro == c["pro"] else 2 * math.pi - c["dth"]
        lam = mp.sqrt(1 - C / s) * (1 if th < math.pi else -1)

        def T(x):
            y = mp.sqrt(1 - lam ** 2 * (1 - x * x))
            psi = mp.acos(x * y + lam * (1 - x * x))
            return ((psi + M * mp.pi) / mp.sqrt(1 - x * x) - x + lam * y) / (1 - x * x)
        a, b = mp.mpf(-0.9), mp.mpf("0.999")
        g = (mp.sqrt(5) - 1) / 2
        for _ in range(60):
            x1, x2 = b - g * (b - a), a + g * (b - a)
            if T(x1) < T(x2):
                b = x2
            else:
                a = x1
        return float(T((a + b) / 2) / mp.sqrt(2 * mp.mpf(c["mu"]) / s ** 3))


def ck_infeasible_claim(r, info):
    if "exc" in r and ("easible" in r["msg"] or "lower M" in r["msg"]):
        return "a feasible request (tof = %.3f times the minimum for M=%d) was reported infeasible: %s" % (info + (r["msg"],))
    if "exc" in r and r["exc"] not in ("ValueError", "RuntimeError"):
        return "a feasible request raised %s: %s" % (r["exc"], r["msg"])
    return None


def C05(run):
    for c in cases.pool(run.rng, run.n(40), M=0):
        M = run.rng.choice([1, 1, 2, 3, 7, 30])
        for s in SINGLE:
            for low in (True, False):
                run.add(s, (c["mu"], vec(c["r1"]), vec(c["r2"]), c["tof"], M, c["pro"], low), {}, ck_valueerror, "M=%d" % M)
    n = 0
    while n < run.n(45):
        c = cases.lambert_case(run.rng, M=0, plane=run.rng.choice(cases.PLANES), angle=run.rng.choice(cases.ANGLES))
        if not good_geometry(c):
            continue
        n += 1
        M = run.rng.choice([1, 1, 2, 3, 5])
        pro = run.rng.random() < 0.5
        tm = t_min(c, pro, M)
        for low in (True, False):
            for f in (run.rng.uniform(0.05, 0.97), 0.99):
                for s in MULTI:
                    run.add(s, (c["mu"], vec(c["r1"]), vec(c["r2"]), f * tm, M, pro, low), dict(maxiter=200, atol=1e-9, rtol=1e-10), ck_valueerror,
                            "M=%d with tof %.3f times the minimum" % (M, f))
            for f in (1.02, run.rng.uniform(1.05, 3.0)):
                for s in MULTI:
                    if s == "negrete2024" and f < 1.1:
                        continue
                    run.add(s, (c["mu"], vec(c["r1"]), vec(c["r2"]), f * tm, M, pro, low), dict(maxiter=200, atol=1e-9, rtol=1e-10), ck_infeasible_claim, (f, M))


# ---------------------------------------------------------------- C06
def ck_collinear(r, info):
    if r.get("exc") == "RuntimeError" or "ValueError" in r.get("mro", []):
        return None
    return "collinear vectors (r2 = %g r1) were answered with %s" % (info, str(r)[:160])


def ck_finite(r, info):
    if "ok" not in r:
        return None
    v1, v2 = velocities(r)
    if not oracle.finite((v1, v2)):
        return "velocities %r %r are not finite" % (v1, v2)
    return None


def C06(run):
    for k in range(run.n(30)):
        L = run.rng.choice([1.0, 8000.0, 1.5e8, 1e-6])
        kind = k % 3
        # components with few bits, so that multiples are exactly parallel
        g = [float(run.rng.randint(-60, 60)) * 2.0 ** run.rng.randint(-3, 3) * L for _ in range(3)]
        if kind == 1:
            g[run.rng.randrange(3)] = 0.0
        if kind == 2:
            i = run.rng.randrange(3)
            g = [x if j == i else 0.0 for j, x in enumerate(g)]
        if not any(g):
            g[0] = L
        for f in (2.0, 0.5, -1.0, -2.0, -0.25, 4.0):
            for s in ALL:
                for pro in (True, False):
                    r1, r2 = vec(g), vec(g) * f
                    run.add(s, (1.0, r1, r2, run.rng.uniform(0.1, 20), run.rng.choice([0, 0, 1]), pro), {}, ck_collinear, f)
    for c in cases.pool(run.rng, run.n(60)):
        for pro in directions(c):
            for low in ((True, False) if c["M"] else (True,)):
                for s in sols(c):
                    run.add(s, largs(c) + (pro, low), {}, ck_finite, None)
                    # extreme times of flight
    for c in cases.pool(run.rng, run.n(25), M=0):
        for f in (1e-3, 1e3):
            for s in ALL:
                a = largs(c)
                run.add(s, a[:3] + (a[3] * f, 0, c["pro"]), {}, ck_finite, None)
        # nearly collinear by rounding
        z = run.rng.uniform(-3, 3)
        r2 = vec(c["r1"]) * z
        for s in ALL:
            run.add(s, (c["mu"], vec(c["r1"]), r2, c["tof"], 0, c["pro"]), {}, ck_finite, None)


# ---------------------------------------------------------------- C07
def ck_conv(r, info):
    c, pro, ref, loose = info
    if r.get("exc") == "Timeout":
        return "no answer within the time limit: the iteration does not stop"
    if "ok" not in r:
        return None
    v1, v2 = velocities(r)
    if not oracle.finite((v1, v2)):
        return "velocities %r %r are not finite" % (v1, v2)
    T = oracle.flight_time(c["mu"], c["r1"], c["r2"], v1, c["M"])
    e = 9.0 if T is None else float(abs(T / c["tof"] - 1))
    if not e <= loose:
        return "an unconverged iterate was returned: flight time off by %.3e (relative)" % e
    return None


def C07(run):
    def cb(c, s, pro, low, kw):
        for mi in (1, 2, 3, run.rng.choice([4, 5, 6, 8, 12])):
            run.add(s, largs(c) + (pro, low), dict(maxiter=mi, atol=1e-10, rtol=1e-12), ck_conv, (c, pro, None, 1e-6))
    each_lambert(run, run.n(55), cb)

    def cb2(c, s, pro, low, kw):
        run.add(s, largs(c) + (pro, low), dict(maxiter=1000, atol=1e-10, rtol=1e-12), ck_conv, (c, pro, None, 1e-6))
    each_lambert(run, run.n(25), cb2, flt=lambda c: good_geometry(c))


# ---------------------------------------------------------------- C08
UTIL = [("utils.angles.get_transfer_angle", 2, True), ("utils.angles.get_orbit_normal_vector", 2, True),
        ("utils.angles.get_orbit_inc_and_raan_from_position_vectors", 2, True)]


def ck_pure(r, info):
    g = r["group"]
    for x in g:
        if x.get("mut"):
            return "an argument array was modified by the call"
        if "read-only" in x.get("msg", ""):
            return "read-only input refused: %s" % x["msg"]
        if x.get("exc") in ("TypeError", "NameError", "UnboundLocalError", "AttributeError"):
            return "%s: %s" % (x["exc"], x["msg"])
    a, b = g[0], g[-1]
    if ("ok" in a) != ("ok" in b) or a.get("exc") != b.get("exc") or ("ok" in a and a["ok"] != b["ok"]):
        return "the same call gave %s first and %s after other calls" % (str(a)[:150], str(b)[:150])
    return None


def C08(run):
    pool = cases.pool(run.rng, run.n(30))
    for i, c in enumerate(pool):
        d = pool[(i * 7 + 3) % len(pool)]
        for s in sols(c):
            for low in (True, False) if c["M"] else (True,):
                a = (s, largs(c) + (c["pro"], low), {}, False)
                mid = [(s, largs(d) + (d["pro"],), {}, False), (s, (c["mu"], vec(c["r2"]), vec(c["r1"]), c["tof"] * 1.1, 0, not c["pro"]), {}, True),
                       (s, (c["mu"], vec(c["r1"]), vec(c["r2"]), c["tof"], 0, True), dict(maxiter=2, atol=1e-13, rtol=1e-13), True)]
                run.group([a] + mid + [a[:3] + (True,)], ck_pure)
        for u, _, _ in UTIL:
            a = (u, (vec(c["r1"]), vec(c["r2"]), c["pro"]), {}, True)
            run.group([a, (u, (vec(d["r1"]), vec(d["r2"]), not d["pro"]), {}, True), a], ck_pure)
        v, w = ([x * math.sqrt(p["mu"] / math.hypot(*p["r1"])) / math.hypot(*p["r2"]) for x in p["r2"]] for p in (c, d))
        a = ("utils.elements.rv2coe", (c["mu"], vec(c["r1"]), vec(v)), {}, True)
        run.group([a, ("utils.elements.rv2coe", (c["mu"], vec(d["r1"]), vec(w)), {}, True), a], ck_pure)
        for u in ("dot", "cross"):
            run.group([("linalg." + u, (vec(c["r1"]), vec(c["r2"])), {}, True)] * 2, ck_pure)
        run.group([("linalg.norm", (vec(c["r1"]),), {}, True)] * 2, ck_pure)
        for u in ("c2", "c3"):
            x = run.rng.uniform(-30, 60) * 10 ** run.rng.uniform(-3, 0)
            run.group([("utils.stumpff." + u, (x,), {}, False), ("utils.stumpff." + u, (-x,), {}, False), ("utils.stumpff." + u, (x,), {}, False)], ck_pure)


# ---------------------------------------------------------------- C09
def ck_api(r, info):
    off, on = r["group"]
    for x in (off, on):
        if x.get("exc") in ("TypeError", "NameError", "UnboundLocalError", "AttributeError", "ZeroDivisionError", "IndexError", "KeyError", "AssertionError"):
            return "%s: %s" % (x["exc"], x["msg"])
    if ("ok" in off) != ("ok" in on) or off.get("exc") != on.get("exc") or off.get("msg") != on.get("msg"):
        return "full_output changes the outcome: %s / %s" % (str(off)[:150], str(on)[:150])
    if "ok" not in off:
        return None
    a, b = off["ok"]["l"], on["ok"]["l"]
    if len(a) != 2 or len(b) != 4:
        return "returned %d values without and %d with full_output" % (len(a), len(b))
    for v in a + b[:2]:
        if "a" not in v or v.get("s") != [3]:
            return "a velocity is not a three-component array: %s" % str(v)[:100]
    if a[0]["a"] != b[0]["a"] or a[1]["a"] != b[1]["a"]:
        return "full_output changes the velocities"
    n, t = b[2], b[3]
    if isinstance(n, bool) or not isinstance(n, int) or n < 0:
        return "numiter is %s, not a non-negative integer" % n
    t = real.dec(t)
    if not isinstance(t, (int, float)) or isinstance(t, bool) or not (0 <= t < float("inf")):
        return "tpi is %s, not a non-negative finite time" % t
    return None


def C09(run):
    def cb(c, s, pro, low, kw):
        k = dict(kw)
        a = (c["mu"], vec(c["r1"]), vec(c["r2"]), c["tof"])
        rest = dict(M=c["M"], is_prograde=pro, is_low_path=low, **k)
        run.group([(s, a, dict(rest, full_output=False), False), (s, a, dict(rest, full_output=True), False)], ck_api)
        if run.rng.random() < 0.25:
            a2 = a + (c["M"], pro, low, 200, 1e-7, 1e-7)
            run.group([(s, a2 + (False,), {}, False), (s, a2 + (True,), {}, False)], ck_api)
        if run.rng.random() < 0.1 and c["M"] == 0:
            run.group([(s, a, dict(is_prograde=pro), False), (s, a, dict(is_prograde=pro, full_output=True), False)], ck_api)
        if run.rng.random() < 0.15:
            rest["maxiter"] = run.rng.choice([1, 2, 4])
            run.group([(s, a, dict(rest, full_output=False), False), (s, a, dict(rest, full_output=True), False)], ck_api)
    each_lambert(run, run.n(45), cb, tight=False, flt=lambda c: True)
    each_lambert(run, run.n(25), cb, tight=True, flt=lambda c: True)
    # parabolic transfers exercise the shortcuts for the limiting case
    for k in range(run.n(6)):
        c = cases.lambert_case(run.rng, M=0, kind="npar")
        R1, R2, C = (float(oracle.norm(oracle.V(x))) for x in (c["r1"], c["r2"], oracle.sub(oracle.V(c["r1"]), oracle.V(c["r2"]))))
        m, n = R1 + R2 + C, R1 + R2 - C
        c["tof"] = (m ** 1.5 - (1 if c["dth"] < math.pi else -1) * n ** 1.5) / 6 / math.sqrt(c["mu"])
        for s in ALL:
            cb(c, s, c["pro"], True, {})


# ---------------------------------------------------------------- C10
def unit_normal(r1, r2, pro):
    n = oracle.cross(oracle.V(r1), oracle.V(r2))
    h = oracle.norm(n)
    n = oracle.scal(1 / h, n)
    if (n[2] > 0) != bool(pro):
        n = oracle.scal(-1, n)
        return n, -1
    return n, 1


def ck_angle(r, info):
    import mpmath as mp
    r1, r2, pro = info
    if "ok" not in r:
        return "get_transfer_angle raised %s: %s" % (r.get("exc"), r.get("msg"))
    a = real.dec(r["ok"])
    R1, R2 = oracle.V(r1), oracle.V(r2)
    cr = oracle.cross(R1, R2)
    ct = oracle.dot(R1, R2) / (oracle.norm(R1) * oracle.norm(R2))
    ang = mp.atan2(oracle.norm(cr), oracle.dot(R1, R2))
    if a != a:
        return "the transfer angle is NaN"
    if all(x == 0 for x in map(float, cr)):
        want = 0.0 if oracle.dot(R1, R2) > 0 else math.pi
        if a != want:
            return "transfer angle of collinear vectors is %r, not %r" % (a, want)
        return None
    if abs(cr[2]) > 0:
        _, sg = unit_normal(r1, r2, pro)
        want = ang if sg > 0 else 2 * mp.pi - ang
        if abs(a - want) > 2e-7 and not (ang < 1e-7 and min(abs(a), abs(a - 2 * mp.pi)) < 2e-7):
            return "transfer angle %r, expected %r" % (a, float(want))
        return None
    if min(abs(a - ang), abs(a - (2 * mp.pi - ang))) > 2e-7:
        return "transfer angle %r has cosine %r, expected %r" % (a, math.cos(a), float(ct))
    return None


def ck_normal(r, info):
    r1, r2, pro = info
    if "ok" not in r:
        return "raised %s: %s" % (r.get("exc"), r.get("msg"))
    v = real.dec(r["ok"])
    n, _ = unit_normal(r1, r2, pro)
    if max(abs(a - b) for a, b in zip(v, n)) > 1e-9:
        return "orbit normal %r, expected %r" % (v, [float(x) for x in n])
    return None


def ck_incraan(r, info):
    r1, r2, pro = info
    if "ok" not in r:
        return "raised %s: %s" % (r.get("exc"), r.get("msg"))
    i, O = real.dec(r["ok"])
    n, _ = unit_normal(r1, r2, pro)
    w = [math.sin(O) * math.sin(i), -math.cos(O) * math.sin(i), math.cos(i)]
    if not (0 <= i <= math.pi and 0 <= O <= 2 * math.pi) or max(abs(a - b) for a, b in zip(w, n)) > 1e-7:
        return "inclination %r and node %r describe the normal %r, not %r" % (i, O, w, [float(x) for x in n])
    return None


def C10(run):
    R = run.rng
    for k in range(run.n(400)):
        L = 10 ** R.uniform(-3, 8)
        r1 = [R.gauss(0, L) for _ in range(3)]
        r2 = [R.gauss(0, L) for _ in range(3)]
        m = k % 8
        if m == 1:
            r1[2] = r2[2] = 0.0
        if m == 2:
            r1 = [float(R.randint(-3, 3)) for _ in range(3)]
            r2 = [float(R.randint(-3, 3)) for _ in range(3)]
        if m == 3:
            f = R.choice([-3, -1, 2, 0.3, -0.1])
            r2 = [f * x for x in r1]
        if m == 4:
            r1 = [float(R.randint(-9, 9)) for _ in range(3)]
            r2 = [R.choice([-4.0, 2.0]) * x for x in r1]
        if m == 5:
            r1[0] = r2[0] = 0.0
        if m == 6:
            r2 = [-x + R.gauss(0, 1e-5 * L) for x in r1]
        if m == 7:
            # planes ever closer to polar; the normal's tilt is far above its rounding error
            a, b, f = R.uniform(0.3, 1.3), R.uniform(1.5, 2.8), R.choice([-1, 1])
            t = f * 10 ** R.uniform(-11, -3)
            r1 = [L * math.cos(a), 0.0, L * math.sin(a)]
            r2 = [2 * L * math.cos(b), -t * L, 2 * L * math.sin(b)]
        if not any(r1) or not any(r2):
            continue
        for pro in (True, False):
            run.add("utils.angles.get_transfer_angle", (vec(r1), vec(r2), pro), {}, ck_angle, (r1, r2, pro))
            n = oracle.cross(oracle.V(r1), oracle.V(r2))
            big = oracle.norm(oracle.V(r1)) * oracle.norm(oracle.V(r2))
            if abs(n[2]) > (1e-12 if m == 7 else 1e-6) * big:
                run.add("utils.angles.get_orbit_normal_vector", (vec(r1), vec(r2), pro), {}, ck_normal, (r1, r2, pro))
                run.add("utils.angles.get_orbit_inc_and_raan_from_position_vectors", (vec(r1), vec(r2), pro), {}, ck_incraan, (r1, r2, pro))


# ---------------------------------------------------------------- C11
def ck_coe2rv(r, info):
    if "ok" not in r:
        return "coe2rv raised %s: %s" % (r.get("exc"), r.get("msg"))
    pos, vel = oracle.state_from_elements(*info)
    got = real.dec(r["ok"])
    e = max(float(oracle.norm(oracle.sub(oracle.V(got[0]), pos)) / oracle.norm(pos)), float(oracle.norm(oracle.sub(oracle.V(got[1]), vel)) / oracle.norm(vel)))
    if not e < 1e-9:
        return "coe2rv(%s) gives %s, off by %.2e" % ([float(x) for x in info], got, e)
    return None


def ck_rv2coe(r, info):
    mu, pos, vel = info
    if "ok" not in r:
        return "rv2coe raised %s: %s" % (r.get("exc"), r.get("msg"))
    el = real.dec(r["ok"])
    if len(el) != 6 or any(x != x for x in el):
        return "rv2coe gives %r" % (el,)
    import mpmath as mp
    p2, v2 = oracle.state_from_elements(mu, *[mp.mpf(x) for x in el])
    R, V = oracle.V(pos), oracle.V(vel)
    e = max(float(oracle.norm(oracle.sub(R, p2)) / oracle.norm(R)), float(oracle.norm(oracle.sub(V, v2)) / oracle.norm(V)))
    if not e < 2e-6:
        return "elements %r of the state %r %r describe another state (off by %.2e)" % (el, pos, vel, e)
    if el[1] < 0 or not (0 <= el[2] <= math.pi) or not (0 <= el[3] <= 2 * math.pi) or not (0 <= el[4] <= 2 * math.pi) or not (-math.pi <= el[5] <= math.pi):
        return "an element is out of its range: %r" % (el,)
    return None


def ck_rot(r, info):
    import mpmath as mp
    angle, axis = info
    m = real.dec(r["ok"])
    c, s = mp.cos(angle), mp.sin(angle)
    want = {0: [[1, 0, 0], [0, c, -s], [0, s, c]], 1: [[c, 0, s], [0, 1, 0], [-s, 0, c]], 2: [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[axis]
    if axis == 1 and abs(s) > 1e-9 and abs(m[2][0] - s) < 1e-12:
        want[2][0] = s          # the recorded finding: accepted in exactly this form
    if max(abs(m[i][j] - want[i][j]) for i in range(3) for j in range(3)) > 1e-12:
        return "rotation_matrix(%r, %d) = %r" % (angle, axis, m)
    return None


def C11(run):
    import mpmath as mp
    R = run.rng
    P2 = 2 * math.pi
    for k in range(run.n(700)):
        mu, L = R.choice(cases.SCALES)
        ecc = R.choice([0.0, 10 ** R.uniform(-6, -1), R.uniform(0.01, 0.97), R.uniform(1.02, 4.0)])
        inc = R.choice([0.0, math.pi, math.acos(R.uniform(-0.99, 0.99)), math.acos(R.uniform(-0.99, 0.99)), math.pi / 2])
        raan, argp = R.uniform(0, P2), R.uniform(0, P2)
        if R.random() < 0.15:
            raan = R.choice([0, math.pi / 2, math.pi, 3 * math.pi / 2])
        if R.random() < 0.15:
            argp = R.choice([0, math.pi / 2, math.pi, 3 * math.pi / 2])
        lim = math.pi if ecc < 1 else math.acos(-1 / ecc) * 0.95
        nu = R.uniform(-lim, lim)
        p = L * math.exp(R.uniform(-1, 1))
        el = (mu, p, ecc, inc, raan, argp, nu)
        run.add("utils.elements.coe2rv", el, {}, ck_coe2rv, tuple(mp.mpf(x) for x in el))
        pos, vel = oracle.state_from_elements(*[mp.mpf(x) for x in el])
        pos, vel = [float(x) for x in pos], [float(x) for x in vel]
        if inc in (0.0, math.pi):
            pos[2] = vel[2] = 0.0
        run.add("utils.elements.rv2coe", (mu, vec(pos), vec(vel)), {}, ck_rv2coe, (mu, pos, vel))
    for k in range(run.n(60)):
        a = R.uniform(-10, 10)
        for ax in (0, 1, 2):
            run.add("utils.elements.rotation_matrix", (a, ax), {}, ck_rot, (a, ax))


# ---------------------------------------------------------------- C12
def ck_num(r, info):
    want, what, tol = info
    if "ok" not in r:
        return "%s raised %s: %s" % (what, r.get("exc"), r.get("msg"))
    x = real.dec(r["ok"])
    if not abs(x - want) <= tol * (1 + abs(want)):
        return "%s = %r, expected %r" % (what, x, float(want))
    return None


def anomalies(nu, ecc):
    import mpmath as mp
    nu, ecc = mp.mpf(nu), mp.mpf(ecc)
    if ecc < 1:
        E = mp.atan2(mp.sqrt(1 - ecc ** 2) * mp.sin(nu), ecc + mp.cos(nu))
        return E, E - ecc * mp.sin(E)
    if ecc == 1:
        B = mp.tan(nu / 2)
        return B, B + B ** 3 / 3
    H = mp.asinh(mp.sqrt(ecc ** 2 - 1) * mp.sin(nu) / (1 + ecc * mp.cos(nu)))
    return H, ecc * mp.sinh(H) - H


def C12(run):
    R = run.rng
    A = "utils.angles."
    K = "utils.kepler."
    for k in range(run.n(500)):
        ecc = R.choice([0.0, R.uniform(0, 0.98), R.uniform(0, 0.98), 1.0, R.uniform(1.01, 5), 10 ** R.uniform(-9, -1), 1 - 10 ** R.uniform(-6, -2), 1 + 10 ** R.uniform(-6, -2)])
        lim = math.pi * 0.97 if ecc <= 1 else math.acos(-1 / ecc) * 0.97
        nu = R.choice([R.uniform(-lim, lim), R.uniform(-lim, lim), 0.0, R.uniform(-1e-3, 1e-3)])
        a, M = anomalies(nu, ecc)
        w = "(nu=%r, ecc=%r)" % (nu, ecc)
        tol = 1e-9 if abs(ecc - 1) > 1e-3 or ecc == 1 else 1e-5
        run.add(K + "kepler_from_nu", (nu, ecc), {}, ck_num, (M, "kepler_from_nu" + w, tol))
        if ecc < 1:
            run.add(A + "nu_to_E", (nu, ecc), {}, ck_num, (a, "nu_to_E" + w, tol))
            run.add(A + "E_to_nu", (float(a), ecc), {}, ck_num, (nu, "E_to_nu(E of %s)" % w, tol))
            run.add(K + "kepler_elliptic", (float(a), ecc), {}, ck_num, (M, "kepler_elliptic" + w, tol))
        elif ecc == 1:
            run.add(A + "nu_to_B", (nu,), {}, ck_num, (a, "nu_to_B" + w, tol))
            run.add(A + "B_to_nu", (float(a),), {}, ck_num, (nu, "B_to_nu" + w, tol))
            run.add(K + "kepler_parabolic", (float(a),), {}, ck_num, (M, "kepler_parabolic" + w, tol))
        else:
            run.add(A + "nu_to_H", (nu, ecc), {}, ck_num, (a, "nu_to_H" + w, tol))
            run.add(A + "H_to_nu", (float(a), ecc), {}, ck_num, (nu, "H_to_nu" + w, tol))
            run.add(K + "kepler_hyperbolic", (float(a), ecc), {}, ck_num, (M, "kepler_hyperbolic" + w, tol))
    for ecc in (-1e-12, -0.5, -1.0, -3.0, float("-inf")):
        run.add(K + "kepler_from_nu", (R.uniform(-2, 2), ecc), {}, ck_valueerror, "ecc=%r" % ecc)


# ---------------------------------------------------------------- C13
def ck_stumpff(r, info):
    import mpmath as mp
    k, psi = info
    if "ok" not in r:
        return "c%d(%r) raised %s: %s" % (k, psi, r.get("exc"), r.get("msg"))
    x = real.dec(r["ok"])
    with mp.workdps(60):
        P = mp.mpf(psi)
        if abs(P) < mp.mpf(10) ** -40:
            want = mp.mpf(1) / (2 if k == 2 else 6)
        else:
            q = mp.sqrt(abs(P))
            if k == 2:
                want = (1 - mp.cos(q)) / P if P > 0 else (mp.cosh(q) - 1) / -P
            else:
                want = (q - mp.sin(q)) / q ** 3 if P > 0 else (mp.sinh(q) - q) / q ** 3
        # 1 - cos(q) has relative conditioning |q sin q/(1-cos q)| near its zeros
        err = abs(x - want)
        tol = mp.mpf("4e-15") * (abs(want) * (1 + mp.sqrt(abs(P))) + (1 / abs(P) if abs(P) > 1 else 0))
        if not err <= tol:
            return "c%d(%r) = %r, expected %r" % (k, psi, x, float(want))
    return None


def C13(run):
    R = run.rng
    xs = [0.0, 1.0, -1.0, 1e-300, -1e-300, 4.0, 39.47841760435743, -39.0, 157.91367041742973]
    for k in range(run.n(1500)):
        xs.append(R.choice([-1, 1]) * 10 ** R.uniform(-12, 3.2))
        xs.append(R.uniform(-1.5, 1.5))
        xs.append(R.choice([-1, 1]) * (1 + R.uniform(-1e-6, 1e-6)))
        xs.append(R.uniform(-200, 300))
    for x in xs:
        for k in (2, 3):
            run.add("utils.stumpff.c%d" % k, (x,), {}, ck_stumpff, (k, x))


# ---------------------------------------------------------------- C14
def path_of(c, v1):
    """sign of x - x_min of a multi-revolution answer, from dT/da on the family
    of transfers: True for the low path (large x)."""
    import mpmath as mp
    with mp.workdps(25):
        mu = mp.mpf(c["mu"])
        r1, r2 = oracle.V(c["r1"]), oracle.V(c["r2"])
        v = oracle.V(v1)
        R1, R2 = oracle.norm(r1), oracle.norm(r2)
        C = oracle.norm(oracle.sub(r1, r2))
        s = (R1 + R2 + C) / 2
        alpha = 2 / R1 - oracle.dot(v, v) / mu
        x2 = 1 - s * alpha / 2
        h = oracle.cross(r1, v)
        n = oracle.cross(r1, r2)
        lam = mp.sqrt(1 - C / s) * (1 if oracle.dot(h, n) > 0 else -1)
        x = mp.sqrt(max(mp.mpf(0), x2))
        # the sign of x: radial velocity combination gamma (lam y - x ...)
        y = mp.sqrt(1 - lam ** 2 * (1 - x2))
        i1, i2 = oracle.scal(1 / R1, r1), oracle.scal(1 / R2, r2)
        gam = mp.sqrt(mu * s / 2)
        rho = (R1 - R2) / C
        vr = oracle.dot(v, i1) * R1 / gam
        pos = lam * y - x - rho * (lam * y + x)
        neg = lam * y + x - rho * (lam * y - x)
        xs = x if abs(vr - pos) <= abs(vr - neg) else -x

        def T(z):
            w = mp.sqrt(1 - lam ** 2 * (1 - z * z))
            psi = mp.acos(z * w + lam * (1 - z * z))
            return ((psi + c["M"] * mp.pi) / mp.sqrt(1 - z * z) - z + lam * w) / (1 - z * z)
        t0 = T(xs)
        dT = (3 * t0 * xs - 2 + 2 * lam ** 3 * xs / mp.sqrt(1 - lam ** 2 * (1 - xs * xs)))
        return dT > 0, float(abs(dT))


def ck_path(r, info):
    c, low = info
    if "ok" not in r:
        return None
    v1, _ = velocities(r)
    if not oracle.finite((v1,)):
        return None
    up, gap = path_of(c, v1)
    if gap > 1e-2 and up != low:
        return "is_low_path=%s returned the other path" % low
    return None


def ck_same(r, info):
    a, b = r["group"]
    if ("ok" in a) != ("ok" in b) or a.get("exc") != b.get("exc") or ("ok" in a and a["ok"] != b["ok"]):
        return "is_low_path changes a direct transfer: %s / %s" % (str(a)[:120], str(b)[:120])
    return None


def C14(run):
    n = 0
    while n < run.n(80):
        M = run.rng.choice([1, 1, 2, 3, 6, 9])
        if run.rng.random() < 0.5:
            c = cases.special_case(run.rng, M=M)
        else:
            c = cases.lambert_case(run.rng, M=M, plane=run.rng.choice(cases.PLANES), angle=run.rng.choice(cases.ANGLES))
        if not good_geometry(c):
            continue
        n += 1
        for low in (True, False):
            for s in MULTI:
                run.add(s, largs(c) + (c["pro"], low), TIGHT, ck_path, (c, low))
                if n % 3 == 0:
                    run.add(s, largs(c) + (c["pro"], low), {}, ck_path, (c, low))
    for c in cases.pool(run.rng, run.n(25), M=0):
        for s in MULTI:
            run.group([(s, largs(c) + (c["pro"], True), {}, False), (s, largs(c) + (c["pro"], False), {}, False)], ck_same)


# the share of the calls of the contract that each of the 8 shards makes
SHARE = 1.0


def shard(prop, tier, seed, k, jit):
    r = Run(prop, tier, seed, jit, 1, k, SHARE)
    PROPS[prop](r)
    r.flush()
    return r.viol, r.evals, r.kinds, r.samples


def sharded(prop, tier, seed, jit=False, procs=8):
    """the run-time contracts of a property, in processes with their own seeds"""
    import multiprocessing as mp
    out = Run(prop, tier, seed, jit)
    with mp.get_context("fork").Pool(procs) as pool:
        for viol, evals, kinds, samples in pool.starmap(shard, [(prop, tier, seed, k, jit) for k in range(procs)], 1):
            out.viol += viol
            out.evals += evals
            for k, n in kinds.items():
                out.kinds[k] = out.kinds.get(k, 0) + n
            out.samples = (out.samples + samples)[:3]
    return out


PROPS = {k: v for k, v in list(globals().items()) if k[0] == "C" and k[1:].isdigit()}


def ck_linalg(r, info):
    fn, p = info
    a, b = np.array(p[:3]), np.array(p[3:])
    want = {"dot": lambda: a @ b, "norm": lambda: math.sqrt(a @ a), "cross": lambda: np.cross(a, b)}[fn]()
    got = np.array(real.dec(r["ok"]), float)
    if not np.all(np.abs(got - want) <= 1e-9 * (1 + np.abs(want))):
        return "linalg.%s(%r) = %r, expected %r" % (fn, p, got, want)
    return None
