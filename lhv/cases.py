"""Deterministic problem generator for the run-time contracts and the
counterexample search.  Every random choice comes from the seed given."""
import math
import random

import mpmath as mp

from . import oracle

SCALES = [(1.0, 1.0), (398600.4418, 8000.0), (39.47692641, 1.0), (1.32712440018e11, 1.5e8)]


PLANES = ["gen"] * 5 + ["eq", "reteq", "polarish"]
ANGLES = ["any"] * 6 + ["small", "large", "nearpi", "right", "sym"]


def lambert_case(rng, M=None, scale=None, kind=None, plane="gen", angle="any"):
    """One well-posed Lambert problem built from a known orbit: (mu, r1, r2,
    tof, M, is_prograde) with floats; the true orbit is returned as well."""
    while True:
        mu, L = scale or (SCALES[0] if rng.random() < 0.6 else rng.choice(SCALES))
        k = kind or rng.choice(["ell", "ell", "ell", "hyp", "hyp", "npar", "circ"])
        m = M if M is not None else (rng.choice([1, 1, 2, 3]) if rng.random() < 0.4 else 0)
        if m > 0 and k in ("hyp", "npar"):
            k = "ell"
        e = {"ell": rng.uniform(0.02, 0.92), "hyp": rng.uniform(1.05, 3.5), "npar": 1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-4, -1.5),
             "circ": 10 ** rng.uniform(-6, -2)}[k]
        p = L * math.exp(rng.uniform(-0.8, 0.8))
        inc = math.acos(rng.uniform(-0.98, 0.98))
        if plane == "eq":
            inc = 0.0
        elif plane == "reteq":
            inc = math.pi
        elif plane == "polarish":
            inc = math.pi / 2 + rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -2)
        raan, argp = rng.uniform(0, 2 * math.pi), rng.uniform(0, 2 * math.pi)
        if e >= 1:
            lim = math.acos(-1 / e) * 0.93
        elif e > 0.9:
            lim = min(math.pi, math.acos(-1 / e if e > 1 else -0.97))
        else:
            lim = None
        dth = rng.uniform(0.08, 2 * math.pi - 0.08)
        if angle == "small":
            dth = 10 ** rng.uniform(-2, -1)
        elif angle == "large":
            dth = 2 * math.pi - 10 ** rng.uniform(-2, -1)
        elif angle == "nearpi":
            dth = math.pi + rng.choice([-1, 1]) * rng.uniform(0.03, 0.1)
        elif angle == "right":
            dth = math.pi / 2 * rng.choice([1, 3])
        if abs(dth - math.pi) < 0.03:
            continue
        if lim is None:
            nu1 = rng.uniform(-math.pi, math.pi)
            if angle == "sym":
                nu1 = -dth / 2 + rng.choice([0, math.pi])
        else:
            nu1 = rng.uniform(-lim, lim)
            if angle == "sym":
                dth = rng.uniform(0.08, 2 * lim)
                nu1 = -dth / 2
            if nu1 + dth > lim:
                dth = rng.uniform(0, 1) * (lim - nu1)
                if dth < 0.008 or abs(dth - math.pi) < 0.03:
                    continue
        a = oracle.state_from_elements(mu, mp.mpf(p), mp.mpf(e), mp.mpf(inc), mp.mpf(raan), mp.mpf(argp), mp.mpf(nu1))
        b = oracle.state_from_elements(mu, mp.mpf(p), mp.mpf(e), mp.mpf(inc), mp.mpf(raan), mp.mpf(argp), mp.mpf(nu1) + mp.mpf(dth))
        tof = oracle.flight_time(mu, a[0], b[0], a[1], m)
        if tof is None or tof <= 0:
            continue
        r1, r2 = [float(x) for x in a[0]], [float(x) for x in b[0]]
        return {"mu": mu, "r1": r1, "r2": r2, "tof": float(tof), "M": m, "pro": math.cos(inc) > 0,
                "kind": k, "e": e, "dth": dth, "v1": [float(x) for x in a[1]], "v2": [float(x) for x in b[1]], "L": L}


def lancaster(lam, M, x):
    """non-dimensional flight time T(x) of an elliptic transfer"""
    y = math.sqrt(1 - lam * lam * (1 - x * x))
    psi = math.acos(max(-1.0, min(1.0, x * y + lam * (1 - x * x))))
    return ((psi + M * math.pi) / math.sqrt(1 - x * x) - x + lam * y) / (1 - x * x)


def shortest(lam, M):
    """the minimum of the flight time over the elliptic transfers with M revolutions"""
    g = 0.6180339887498949
    a, b = -0.999, 0.999
    for _ in range(60):
        c, d = b - g * (b - a), a + g * (b - a)
        if lancaster(lam, M, c) < lancaster(lam, M, d):
            b = d
        else:
            a = c
    return lancaster(lam, M, (a + b) / 2)


def special_case(rng, M=None, **_):
    """A Lambert problem given by its positions: integer components, equal radii, right angles,
    vectors along the axes, large radius ratios; any flight time, exactly parabolic and
    minimum-energy ones included."""
    while True:
        m = M if M is not None else (rng.choice([1, 1, 2, 3, 4, 6, 11]) if rng.random() < 0.35 else 0)
        k = rng.choice(["int", "perm", "axis", "ratio", "flat", "right"])
        v = [float(rng.randint(-4, 4)) for _ in range(3)]
        if k == "perm":
            w = list(v)
            rng.shuffle(w)
            w = [x * rng.choice([-1, 1]) for x in w]
        elif k == "axis":
            v, w = ([rng.choice([-1.0, 1.0, 2.0, -0.5]) if j == i else 0.0 for j in range(3)] for i in rng.choice([(0, 1), (1, 0), (0, 1), (1, 2), (0, 2)]))
        elif k == "ratio":
            v = [rng.gauss(0, 1) for _ in range(3)]
            f = 10 ** rng.uniform(-1.3, 1.3)
            w = [f * rng.gauss(0, 1) for _ in range(3)]
        elif k == "flat":
            v = [rng.uniform(-3, 3), rng.uniform(-3, 3), 0.0]
            w = [rng.uniform(-3, 3), rng.uniform(-3, 3), 0.0]
        elif k == "right":
            v = [float(rng.randint(-3, 3)), float(rng.randint(-3, 3)), 0.0]
            w = [-v[1] * 1.5, v[0] * 1.5, 0.0]
        else:
            w = [float(rng.randint(-4, 4)) for _ in range(3)]
        n = [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]]
        nn = math.hypot(*n)
        R1, R2 = math.hypot(*v), math.hypot(*w)
        if nn < 0.02 * R1 * R2 or R1 * R2 == 0:
            continue
        if abs(n[2]) < 0.02 * nn:
            continue
        mu, L = SCALES[0] if rng.random() < 0.5 else rng.choice(SCALES + [(0.01, 0.1), (2.0, 3.0)])
        v, w = [x * L for x in v], [x * L for x in w]
        R1, R2, C = R1 * L, R2 * L, math.dist(v, w)
        pro = rng.random() < 0.5
        dth = math.acos(max(-1.0, min(1.0, sum(a * b for a, b in zip(v, w)) / (R1 * R2))))
        if (n[2] > 0) != pro:
            dth = 2 * math.pi - dth
        sp = (R1 + R2 + C) / 2
        lam = math.sqrt(max(0.0, 1 - C / sp)) * (1 if dth < math.pi else -1)
        unit = math.sqrt(sp ** 3 / (2 * mu))
        if m:
            tm = shortest(lam, m)
            T = tm * rng.choice([1.06, 1.2, rng.uniform(1.05, 2), rng.uniform(1.05, 6), 1 + 10 ** rng.uniform(-3.5, -1)])
        else:
            tp = 2 / 3 * (1 - lam ** 3)
            T = rng.choice([tp * rng.uniform(0.3, 0.95), tp, tp * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -2)), lancaster(lam, 0, 0.0),
                            tp * rng.uniform(1.05, 4), tp * rng.uniform(1.05, 20)])
        return {"mu": mu, "r1": v, "r2": w, "tof": T * unit, "M": m, "pro": pro, "kind": "special " + k, "dth": dth, "L": L,
                "plane": "special", "angle": k}


def pool(rng, n, **kw):
    """n problems over all kinds, planes and angle classes."""
    out = []
    for i in range(n):
        if not kw.get("kind") and rng.random() < 0.35:
            out.append(special_case(rng, **kw))
            continue
        k = dict(kw)
        k.setdefault("plane", rng.choice(PLANES))
        k.setdefault("angle", rng.choice(ANGLES))
        c = lambert_case(rng, **k)
        c["plane"], c["angle"] = k["plane"], k["angle"]
        if c["plane"] == "eq":
            c["r1"][2] = c["r2"][2] = 0.0
        elif c["plane"] == "reteq":
            c["r1"][2] = c["r2"][2] = 0.0
        out.append(c)
    return out
