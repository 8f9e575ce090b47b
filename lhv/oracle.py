"""Run-time form of the contracts: two-body facts evaluated with mpmath.

Everything here is a specification written from first principles (Kepler's
problem), not from lamberthub's code."""
import mpmath as mp

mp.mp.dps = 40


def V(a):
    return [mp.mpf(float(x)) for x in a]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(a):
    return mp.sqrt(dot(a, a))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def scal(s, a):
    return [s * x for x in a]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def finite(vs):
    return all(x == x and abs(x) != float("inf") for v in vs for x in v)


def conic(mu, r1, r2, v1, v2):
    """Residuals of "v1 at r1 and v2 at r2 are on one Kepler orbit" (relative)."""
    mu = mp.mpf(mu)
    r1, r2, v1, v2 = map(V, (r1, r2, v1, v2))
    h1, h2 = cross(r1, v1), cross(r2, v2)
    R1, R2 = norm(r1), norm(r2)
    hs = norm(r1) * norm(v1) + norm(r2) * norm(v2)
    eh = norm(sub(h1, h2)) / hs
    E1 = dot(v1, v1) / 2 - mu / R1
    E2 = dot(v2, v2) / 2 - mu / R2
    es = dot(v1, v1) / 2 + mu / R1 + dot(v2, v2) / 2 + mu / R2
    ee = abs(E1 - E2) / es
    e1 = sub(scal(1 / mu, cross(v1, h1)), scal(1 / R1, r1))
    e2 = sub(scal(1 / mu, cross(v2, h2)), scal(1 / R2, r2))
    ev = norm(sub(e1, e2)) / (1 + norm(e1) + norm(e2))
    # r2 must satisfy the orbit equation defined by (r1, v1)
    p = dot(h1, h1) / mu
    orb = abs(R2 + dot(e1, r2) - p) / (R2 + norm(e1) * R2 + p)
    plane = abs(dot(r2, h1)) / (R2 * (norm(h1) + mp.mpf(10) ** -30))
    return {"h": float(eh), "energy": float(ee), "evec": float(ev), "orbit": float(orb), "plane": float(plane)}


def direction_ok(r1, v1, is_prograde):
    h = cross(V(r1), V(v1))
    return (h[2] > 0) if is_prograde else (h[2] < 0)


def flight_time(mu, r1, r2, v1, M=0):
    """Time the orbit (r1, v1) needs to reach the direction of r2 after M full
    revolutions; None if it is never reached (hyperbola past its asymptote,
    or M > 0 on an open orbit)."""
    mu = mp.mpf(mu)
    r1, r2, v1 = map(V, (r1, r2, v1))
    R1, R2 = norm(r1), norm(r2)
    h = cross(r1, v1)
    H = norm(h)
    if H == 0:
        return None
    i1 = scal(1 / R1, r1)
    it = cross(scal(1 / H, h), i1)
    i2 = scal(1 / R2, r2)
    c, s = dot(i1, i2), dot(it, i2)
    th = mp.atan2(s, c)
    if th < 0:
        th += 2 * mp.pi
    p = H * H / mu
    alpha = 2 / R1 - dot(v1, v1) / mu
    sig1 = dot(r1, v1) / mp.sqrt(mu)
    # radius reached in the direction th on the orbit
    ecs, esn = p / R1 - 1, sig1 * mp.sqrt(p) / R1
    den = 1 + ecs * mp.cos(th) - esn * mp.sin(th)
    if den <= 0:
        return None
    R = p / den
    g = R * R1 * mp.sin(th) / mp.sqrt(mu * p)
    f = 1 - R * (1 - mp.cos(th)) / p
    s2, c2 = mp.sin(th / 2), mp.cos(th / 2)
    # fdot = sqrt(mu/p) tan(th/2) ((1-cos th)/p - 1/R - 1/R1)
    if abs(alpha) * R1 < mp.mpf(10) ** -25:
        if M > 0:
            return None
        t1 = esn
        D = lambda e: e
        # parabola: use Barker through true anomalies
        nu1 = mp.atan2(esn, ecs)
        nu2 = nu1 + th
        B1, B2 = mp.tan(nu1 / 2), mp.tan(nu2 / 2)
        return mp.sqrt(p ** 3 / mu) / 2 * (B2 + B2 ** 3 / 3 - B1 - B1 ** 3 / 3)
    # sin(th)/(1+cos th) form keeps th = pi finite: multiply through by R R1
    X = (1 - mp.cos(th)) / p - 1 / R - 1 / R1
    if abs(c2) < mp.mpf(10) ** -30:
        # limit: fdot from energy; fall back on the anomalies
        pass
    a = 1 / alpha
    if a > 0:
        sq = mp.sqrt(mu * a)
        eE1c, eE1s = 1 - R1 / a, sig1 / mp.sqrt(a)
        # position 2 in the perifocal frame via anomalies
        E1 = mp.atan2(eE1s, eE1c) if (eE1c != 0 or eE1s != 0) else mp.mpf(0)
        e = mp.sqrt(eE1c ** 2 + eE1s ** 2)
        nu1 = mp.atan2(esn, ecs) if (ecs != 0 or esn != 0) else mp.mpf(0)
        nu2 = nu1 + th
        k = mp.sqrt((1 - e) / (1 + e))

        def EA(nu):
            n = mp.floor((nu + mp.pi) / (2 * mp.pi))
            x = nu - 2 * mp.pi * n
            return 2 * mp.atan2(k * mp.sin(x / 2), mp.cos(x / 2)) + 2 * mp.pi * n
        A1, A2 = EA(nu1), EA(nu2)
        return mp.sqrt(a ** 3 / mu) * (A2 - e * mp.sin(A2) - A1 + e * mp.sin(A1) + 2 * mp.pi * M)
    if M > 0:
        return None
    e = mp.sqrt(ecs ** 2 + esn ** 2)
    nu1 = mp.atan2(esn, ecs)
    nu2 = nu1 + th
    k = mp.sqrt((e - 1) / (e + 1))
    x1, x2 = k * mp.tan(nu1 / 2), k * mp.tan(nu2 / 2)
    if abs(x1) >= 1 or abs(x2) >= 1 or nu2 >= mp.pi:
        return None
    H1, H2 = 2 * mp.atanh(x1), 2 * mp.atanh(x2)
    return mp.sqrt(-a ** 3 / mu) * (e * mp.sinh(H2) - H2 - e * mp.sinh(H1) + H1)


def state_from_elements(mu, p, e, inc, raan, argp, nu):
    c, s = mp.cos, mp.sin
    P = [c(raan) * c(argp) - s(raan) * s(argp) * c(inc), s(raan) * c(argp) + c(raan) * s(argp) * c(inc), s(argp) * s(inc)]
    Q = [-c(raan) * s(argp) - s(raan) * c(argp) * c(inc), -s(raan) * s(argp) + c(raan) * c(argp) * c(inc), c(argp) * s(inc)]
    r = p / (1 + e * c(nu))
    pos = add(scal(r * c(nu), P), scal(r * s(nu), Q))
    k = mp.sqrt(mp.mpf(mu) / p)
    vel = add(scal(-k * s(nu), P), scal(k * (e + c(nu)), Q))
    return pos, vel
