"""Contracts of the utility functions (C10-C13), discharged from their source."""
import math
from fractions import Fraction as Fr

import numpy as np

from . import bounded, proof
from .proof import FAILED, PROVED, REFUTED, UNDECIDED, Ob, find_points, prove_sign, prove_zero
from .sym import contracts, drive, ops
from .sym import expr as X
from .sym.ctx import Ctx
from .sym.expr import ANY, NEG, POS, ZERO, add, div, is_num, mul, neg, powi, scale, sub
from .sym.symex import Arr, Unsupported, Vec, explore

LINALG = {k: v for k, v in contracts.SOLVER.items() if "linalg" in k[0]}
ANG = "lamberthub.utils.angles"
KEP = "lamberthub.utils.kepler"
ELE = "lamberthub.utils.elements"
STU = "lamberthub.utils.stumpff"


def paths(world, ctx, mod, name, args, cts, kwargs=None, max_paths=400, **kw):
    f = world.func(mod, name)
    return explore(world, ctx, lambda it: it.call_closure(f, list(args), dict(kwargs or {}), contract=False), cts, max_paths=max_paths, **kw)


def judge(name, ctx, outs, truncated, goals, calls_at, want_return=True, allow_raise=None):
    """goals(outcome) -> list of (label, kind, term[, mask]) that must hold on the outcome.
    calls_at(env) -> the concrete calls to replay."""
    obs = []
    if truncated:
        return [Ob(name, UNDECIDED, detail="path limit")]
    if not any(o.kind == ("return" if want_return else "raise") for o in outs):
        obs.append(Ob(name, UNDECIDED, detail="no path of the expected kind (vacuous)"))
    by = set()
    bad = None
    for o in outs:
        if o.kind == "merged":
            continue
        if proof.infeasible(ctx, o):
            by.add("z3")
            continue
        if o.kind == "unsupported":
            return [Ob(name, UNDECIDED, detail=str(o.value))]
        if o.kind == "raise" and not want_return and (allow_raise is None or o.value in allow_raise):
            by.add("raises " + o.value)
            continue
        if o.kind == "raise":
            bad = (o, "raises %s" % o.value, None)
        elif not want_return:
            bad = (o, "returns", None)
        else:
            try:
                proof.enter(ctx, o)
                gs = goals(o)
            except Shape as e:
                bad = (o, str(e), None)
                gs = []
            for g in gs:
                if g[1] == "zero":
                    b = prove_zero(ctx, o, g[2])
                else:
                    b = prove_sign(ctx, o, g[2], g[3])
                if not b:
                    bad = (o, g[0], g)
                    break
                by.add(b)
        if bad:
            break
    if bad is None:
        return obs or [Ob(name, PROVED, by=", ".join(sorted(by)))]
    o, what, g = bad
    lits = [(e, m) for e, m, _ in o.lits]
    detail = "%s is not established on the path %s" % (what, path_text(o))
    calls = []
    status = FAILED
    try:
        pts = find_points(ctx, lits)
    except (KeyError, TypeError, AttributeError) as e:
        pts = []
        detail += " (no search: %s)" % e
    for u in pts:
        env = ctx.space_env(u[None, :])
        if g is not None and g[1] == "zero":
            v = proof.evaluate([g[2]], env)[0][0]
            if abs(v) < 1e-12:
                continue
        elif g is not None:
            v = proof.evaluate([g[2]], env)[0][0]
            if proof.hinge(v, g[3]) < 1e-12:
                continue
        status = REFUTED
        calls += calls_at(env)
    if not pts and not lits:
        status = FAILED
    return [Ob(name, status, detail=detail, calls=calls)]


class Shape(Exception):
    pass


def path_text(o):
    return "; ".join("%s %s" % (X.show(e, 120), {POS: "> 0", NEG: "< 0", ZERO: "== 0", POS | ZERO: ">= 0", NEG | ZERO: "<= 0", NEG | POS: "!= 0"}.get(m, m))
                     + " [%s:%s]" % tuple((w or ("", ""))[-2:]) for e, m, w in o.lits) or "(unconditional)"


def number(o, v):
    if not (is_num(v) or isinstance(v, X.E)):
        raise Shape("the value is a %s, not a number" % type(v).__name__)
    return v


# ------------------------------------------------------------------ C10
def c10_calls(prop_fn, check, ctx):
    def at(env):
        c = ctx.concrete(env)
        r1, r2 = c["r1"], c["r2"]
        return [("utils.angles." + prop_fn, (bounded.vec(r1), bounded.vec(r2), ctx.prograde), {}, check, (r1, r2, ctx.prograde))]
    return at


def c10(world, short, pro):
    out = []
    cfg = drive.Cfg(short, pro)
    tag = "C10/%s/" + "%s %s" % ("short" if short else "long", "prograde" if pro else "retrograde")
    ctx = drive.make_ctx(cfg)
    a = drive.args_of(ctx, cfg)
    args = [a["r1"], a["r2"], pro]

    def g_angle(o):
        v = number(o, o.value)
        return [("cos(value) = r1.r2/(|r1||r2|)", "zero", sub(ops.cos(v), ctx.cth)),
                ("sin(value) has the sense of the motion", "zero", sub(ops.sin(v), ctx.sth)),
                ("value >= 0", "sign", v, POS | ZERO),
                ("value <= 2 pi", "sign", sub(scale(X.PI, 2), v), POS | ZERO)]
    fn = "get_transfer_angle"
    outs, tr = paths(world, ctx, ANG, fn, args, LINALG)
    out += judge(tag % fn, ctx, outs, tr, g_angle, c10_calls(fn, bounded.ck_angle, ctx))

    def g_normal(o):
        v = o.value
        if isinstance(v, Arr) and v.shape == (3,):
            t = v.data
        elif isinstance(v, Vec):
            t = None
        else:
            raise Shape("the value is not a vector")
        if t is None:
            return [("component %d along the normal's frame" % i, "zero", sub(v.c[i], int(i == 2))) for i in range(3)]
        return [("component %d" % i, "zero", sub(t[i], ctx.Q[2][i])) for i in range(3)]
    fn = "get_orbit_normal_vector"
    outs, tr = paths(world, ctx, ANG, fn, args, LINALG)
    out += judge(tag % fn, ctx, outs, tr, g_normal, c10_calls(fn, bounded.ck_normal, ctx))

    def g_inc(o):
        v = o.value
        if not (isinstance(v, tuple) and len(v) == 2):
            raise Shape("the value is not a pair")
        i, O = number(o, v[0]), number(o, v[1])
        Q = ctx.Q
        return [("cos(inc) = n_z", "zero", sub(ops.cos(i), Q[2][2])),
                ("sin(inc) sin(raan) = n_x", "zero", sub(mul(ops.sin(i), ops.sin(O)), Q[2][0])),
                ("sin(inc) cos(raan) = -n_y", "zero", add(mul(ops.sin(i), ops.cos(O)), Q[2][1])),
                ("inc >= 0", "sign", i, POS | ZERO), ("inc <= pi", "sign", sub(X.PI, i), POS | ZERO),
                ("raan >= 0", "sign", O, POS | ZERO), ("raan <= 2 pi", "sign", sub(scale(X.PI, 2), O), POS | ZERO)]
    fn = "get_orbit_inc_and_raan_from_position_vectors"
    outs, tr = paths(world, ctx, ANG, fn, args, LINALG)
    out += judge(tag % fn, ctx, outs, tr, g_inc, c10_calls(fn, bounded.ck_incraan, ctx))
    return out


def c10_collinear(world, sense, bigger, pro):
    ctx = drive.make_ctx(drive.Cfg(True, pro), (sense, bigger))
    a = drive.args_of(ctx, drive.Cfg(True, pro))
    fn = "get_transfer_angle"
    outs, tr = paths(world, ctx, ANG, fn, [a["r1"], a["r2"], pro], LINALG)
    return judge("C10/%s/%s, |r1| %s |r2|, %s" % (fn, "parallel" if sense > 0 else "opposite", ">" if bigger else "<", "prograde" if pro else "retrograde"),
                 ctx, outs, tr, lambda o: [("value", "zero", sub(number(o, o.value), 0 if sense > 0 else X.PI))],
                 c10_calls(fn, bounded.ck_angle, ctx))


# ------------------------------------------------------------------ C12
class Conic(Ctx):
    """a true anomaly nu with half-angle cosine ch > 0 and sine sh, and an eccentricity"""

    def __init__(self, kind, side=None):
        super().__init__("conic")
        self.kind, self.side = kind, side
        self.ch = self.real("ch", POS, gen=True)
        m = POS if side == 1 else NEG if side == -1 else ANY
        self.sh = self.real("sh", m, gen=bool(side))
        self.nu = self.real("nu", m)
        self.angles["nu"] = (self.ch, self.sh)
        one = Fr(1)
        if kind == "parabolic":
            self.e = one
        else:
            self.e = self.real("e", ANY if kind == "negative" else POS if kind != "elliptic" else POS | ZERO)
        self.cnu = sub(scale(powi(self.ch, 2), 2), 1)
        self.snu = scale(mul(self.ch, self.sh), 2)
        e = self.e
        self.q = add(1, mul(e, self.cnu))           # 1 + e cos nu
        if kind == "elliptic":
            self.base_fact(sub(1, e), POS)
        elif kind == "hyperbolic":
            self.base_fact(sub(e, 1), POS)
            self.base_fact(add(e, 1), POS)
        elif kind == "negative":
            self.base_fact(e, NEG)
        if kind in ("elliptic", "hyperbolic"):
            self.base_fact(self.q, POS)
            self.base_fact(add(1, e), POS)
        self.base_fact(sub(X.PI, self.nu), POS)
        self.base_fact(add(X.PI, self.nu), POS)
        self.base_fact(sub(add(mul(self.ch, self.ch), mul(self.sh, self.sh)), 1), ZERO)
        self.base_fact(sub(1, self.ch), POS | ZERO)

    def axioms(self):
        if self.kind == "hyperbolic":
            # (e+1) ch^2 - (e-1) sh^2 = 1 + e cos nu > 0
            return [(sub(mul(add(self.e, 1), powi(self.ch, 2)), mul(sub(self.e, 1), powi(self.sh, 2))), POS)]
        return []

    def space_dim(self):
        return 2

    def space_vars(self):
        return ["ch", "sh", "nu"] + (["e"] if not is_num(self.e) else [])

    def space_sample(self, rng, n):
        U = rng.normal(size=(n, 2)) * 2
        U[:, 1] = np.where(rng.random(n) < 0.5, U[:, 1], rng.normal(size=n) * 10)
        return U

    def space_env(self, U):
        n = len(U)
        a = U[:, 1]
        sg = 1 / (1 + np.exp(-np.clip(a, -700, 700)))
        if self.kind == "elliptic":
            e = np.where(a < 0, sg, 1 - np.exp(-np.clip(a, 0, 36) - np.log(2)))
            e = np.clip(np.where(a < -36, 0.0, e), 0, 1 - 2e-16)
        elif self.kind == "hyperbolic":
            e = 1 + np.exp(np.clip(a, -34, 8))
        elif self.kind == "negative":
            e = -np.exp(np.clip(a, -600, 300))
        else:
            e = np.ones(n)
        lim = np.full(n, np.pi * 0.999)
        if self.kind == "hyperbolic":
            lim = np.arccos(-1 / e) * 0.999
        t = np.tanh(U[:, 0])
        if self.side:
            t = np.abs(t) * self.side
        nu = t * lim
        env = {"nu": nu, "ch": np.cos(nu / 2), "sh": np.sin(nu / 2)}
        if not is_num(self.e):
            env["e"] = e
        return env

    def sample_base(self, rng, n, env):
        env.update(self.space_env(self.space_sample(rng, n)))

    def fp_base(self, p):
        t, dth = p.rnd(), p.rnd()
        i = X.inv(1 + t * t)
        c, s = (1 - t * t) * i % X.P, 2 * t * i % X.P
        h = X.inv(2)
        only = getattr(self, "only_nu", False)
        p.env["nu"] = (p.rnd(), dth)
        p.env["ch"] = (c, (X.P - s) * dth % X.P * h % X.P)
        p.env["sh"] = (s, c * dth % X.P * h % X.P)
        p.known_angles[self.nu.id] = (c, s)
        if not is_num(self.e):
            p.env["e"] = (p.rnd(), 0 if only else p.rnd())


def conic(kind, side=None):
    X.reset()
    c = Conic(kind, side)
    ops.set_ctx(c)
    c.start_path()
    return c


def spec_anomaly(c):
    """eccentric / parabolic / hyperbolic anomaly of nu"""
    t = div(c.sh, c.ch)
    e = c.e
    if c.kind == "elliptic":
        return scale(ops.atan(mul(ops.sqrt(div(sub(1, e), add(1, e))), t)), 2)
    if c.kind == "parabolic":
        return t
    return scale(ops.apply_fn("atanh", [mul(ops.sqrt(div(sub(e, 1), add(e, 1))), t)]), 2)


def pair(c, v):
    """(cos, sin) or (cosh, sinh) of an anomaly against the geometry of the conic"""
    e, q = c.e, c.q
    if c.kind == "elliptic":
        return [("cos E = (e + cos nu)/(1 + e cos nu)", "zero", sub(mul(ops.cos(v), q), add(e, c.cnu))),
                ("sin E = sqrt(1-e^2) sin nu/(1 + e cos nu)", "zero", sub(mul(ops.sin(v), q), mul(ops.sqrt(mul(sub(1, e), add(1, e))), c.snu))),
                ("E < pi", "sign", sub(X.PI, v), POS | ZERO), ("E > -pi", "sign", add(X.PI, v), POS | ZERO)]
    return [("cosh H = (e + cos nu)/(1 + e cos nu)", "zero", sub(mul(ops.cosh(v), q), add(e, c.cnu))),
            ("sinh H = sqrt(e^2-1) sin nu/(1 + e cos nu)", "zero", sub(mul(ops.sinh(v), q), mul(ops.sqrt(mul(sub(e, 1), add(1, e))), c.snu)))]


def c12_point(ctx, env):
    nu = float(env["nu"][0])
    ecc = float(env["e"][0]) if "e" in env else 1.0
    return nu, ecc


def c12_at(ctx, fn):
    def at(env):
        nu, ecc = c12_point(ctx, env)
        if ctx.kind == "negative":
            return [("utils.kepler." + fn, (nu, ecc), {}, bounded.ck_valueerror, "ecc=%r" % ecc)]
        a, M = bounded.anomalies(nu, ecc)
        # conditioning of the conversions near the parabola and the asymptote
        tol = max(1e-9, min(1e-2, 1e-14 / max(abs(ecc - 1), 1e-16))) if ecc != 1 else 1e-9
        if ecc > 1:
            tol = max(tol, 1e-14 / (1 + ecc * math.cos(nu)) ** 2)
        w = "(nu=%r, ecc=%r)" % (nu, ecc)
        m = ("utils.angles." if fn[1:4] == "_to" or fn[2:5] == "to_" else "utils.kepler.") + fn
        args, want = {"nu_to_E": ((nu, ecc), a), "nu_to_H": ((nu, ecc), a), "nu_to_B": ((nu,), a),
                      "E_to_nu": ((float(a), ecc), nu), "H_to_nu": ((float(a), ecc), nu), "B_to_nu": ((float(a),), nu),
                      "kepler_elliptic": ((float(a), ecc), M), "kepler_hyperbolic": ((float(a), ecc), M), "kepler_parabolic": ((float(a),), M),
                      "kepler_from_nu": ((nu, ecc), M)}[fn]
        m = ("utils.angles." if "_to_" in fn else "utils.kepler.") + fn
        return [(m, args, {}, bounded.ck_num, (want, fn + w, tol))]
    return at


def c12(world, kind, side):
    out = []
    tag = "C12/%%s/%s" % (kind + ("" if side is None else ", nu %s 0" % ("> " if side > 0 else "<")))
    c = conic(kind, side)
    go = lambda fn, mod, args, goals, **k: out.extend(judge(tag % fn, c, *paths(world, c, mod, fn, args, {}), goals, c12_at(c, fn), **k))
    if kind == "negative":
        go("kepler_from_nu", KEP, [c.nu, c.e], None, want_return=False, allow_raise=("ValueError",))
        return out
    to, back, kep = {"elliptic": ("nu_to_E", "E_to_nu", "kepler_elliptic"), "parabolic": ("nu_to_B", "B_to_nu", "kepler_parabolic"),
                     "hyperbolic": ("nu_to_H", "H_to_nu", "kepler_hyperbolic")}[kind]
    A0 = spec_anomaly(c)
    ecc = [] if kind == "parabolic" else [c.e]
    if kind == "parabolic":
        go(to, ANG, [c.nu], lambda o: [("B = tan(nu/2)", "zero", sub(mul(number(o, o.value), c.ch), c.sh))])
    else:
        go(to, ANG, [c.nu] + ecc, lambda o: pair(c, number(o, o.value)))

    def g_back(o):
        v = number(o, o.value)
        return [("cos(value) = cos(nu)", "zero", sub(ops.cos(v), c.cnu)), ("sin(value) = sin(nu)", "zero", sub(ops.sin(v), c.snu)),
                ("value <= pi", "sign", sub(X.PI, v), POS | ZERO), ("value >= -pi", "sign", add(X.PI, v), POS | ZERO)]
    go(back, ANG, [A0] + ecc, g_back)
    a = c.real("anomaly", ANY) if kind == "parabolic" else A0

    def kepler(v):
        if kind == "elliptic":
            return sub(v, mul(c.e, ops.sin(v)))
        if kind == "parabolic":
            return add(v, scale(powi(v, 3), Fr(1, 3)))
        return sub(mul(c.e, ops.sinh(v)), v)
    go(kep, KEP, [A0] + ecc, lambda o: [("Kepler's equation", "zero", approx(sub(number(o, o.value), kepler(A0))))])

    def g_from(o):
        M = number(o, o.value)
        return [("value = Kepler's equation of the anomaly of nu", "zero", approx(sub(M, kepler(A0))))]
    go("kepler_from_nu", KEP, [c.nu, c.e], g_from)
    # the specification itself increases with nu
    c.only_nu = True
    M = kepler(A0)
    e = c.e
    one = sub(1, mul(e, e)) if kind == "elliptic" else sub(mul(e, e), 1)
    rt = ops.sqrt(div(sub(1, e), add(1, e)) if kind == "elliptic" else div(sub(e, 1), add(e, 1))) if kind != "parabolic" else 1
    want = div(mul(mul(one, add(1, e)), rt), powi(c.q, 2)) if kind != "parabolic" else scale(powi(c.ch, -4), Fr(1, 2))
    ok = fp_derivative(c, M, want)
    out.append(Ob(tag % "mean anomaly increases with nu", PROVED if ok else FAILED, by="derivative identity over GF(2^61-1)",
                  detail="dM/dnu = |1-e^2|^(3/2)/(1+e cos nu)^2 > 0"))
    return out


def fp_derivative(c, M, want):
    """dM along nu equals want * dnu, at random points over GF(p)"""
    import random
    rng = random.Random(3)
    n = 0
    for _ in range(300):
        try:
            p = c.fp_point(rng)
            _, d = p.ev(M)
            v, _ = p.ev(want)
            if (d - v * p.env["nu"][1]) % X.P:
                return False
            n += 1
        except (X.NoRoot, X.Singular):
            continue
        if n >= 4:
            return True
    return False


def approx(t):
    """decimal constants that stand for small fractions (0.333..) count as them when
    within rounding: the term with its coefficients rounded"""
    if is_num(t):
        return Fr(t) if abs(t) > 1e-15 else Fr(0)
    if t.k == "lin":
        c0, d = t.a[0], t.a[1]
        r = Fr(c0) if abs(c0) > 1e-15 else Fr(0)
        for n, q in d:
            if abs(q) > 1e-15:
                r = add(r, scale(n, q))
        return r
    if t.k == "mul":
        c, d = X.mul_parts(t)
        if abs(c) < 1e-15:
            return Fr(0)
    return t


# ------------------------------------------------------------------ C13
class OneReal(Ctx):
    """one real variable of a given sign"""

    def __init__(self, name, mask):
        super().__init__(name)
        self.vname, self.vmask = name, mask
        self.z = self.real(name, mask) if mask != ZERO else Fr(0)

    def space_dim(self):
        return 1

    def space_vars(self):
        return [self.vname]

    def space_sample(self, rng, n):
        return rng.normal(size=(n, 1)) * 3

    def space_env(self, U):
        x = np.exp(np.clip(U[:, 0], -40, 40))
        return {self.vname: x if self.vmask == POS else -x}

    def sample_base(self, rng, n, env):
        env.update(self.space_env(self.space_sample(rng, n)))


def fact_int(n):
    return Fr(math.factorial(n))


def series_terms(z, k, n):
    """terms (-z)^j / (2j+k)!"""
    return [div(powi(neg(z), j), fact_int(2 * j + k)) if j else Fr(1) / fact_int(k) for j in range(n)]


def closed_form(z, k, mask):
    if mask == ZERO:
        return Fr(1) / fact_int(k)
    if mask == POS:
        s = ops.sqrt(z)
        c, q = ops.cos(s), ops.sin(s)
        return {0: c, 1: div(q, s), 2: div(sub(1, c), z), 3: div(sub(s, q), mul(z, s))}[k]
    m = neg(z)
    s = ops.sqrt(m)
    c, q = ops.cosh(s), ops.sinh(s)
    return {0: c, 1: div(q, s), 2: div(sub(c, 1), m), 3: div(sub(q, s), mul(m, s))}[k]


def bound_of(ctx, o, z):
    if is_num(z):
        return Fr(0)
    ops.set_ctx(ctx)
    ctx.start_path()
    for n, m in o.fact_list:
        ctx.assume(n, m)
    for b in (Fr(1, 100), Fr(1, 10), Fr(1, 4), Fr(1, 2), Fr(1), Fr(2), Fr(4), Fr(10)):
        if ctx.sign(sub(b, z), 2) & NEG or ctx.sign(add(b, z), 2) & NEG:
            continue
        return b
    return None


NT = 24


def series_goal(ctx, o, z, k, mask, value):
    """'' when the value of the path is not shown to be c_k(z)"""
    if prove_zero(ctx, o, sub(value, closed_form(z, k, mask))):
        return "closed form, identity over GF(2^61-1)"
    T = series_terms(z, k, NT)
    b = bound_of(ctx, o, z)
    if b is None:
        return ""
    S = Fr(0)
    last = [e for e, m, w in o.lits if w and w[0] == "absorb" and m == ZERO]
    for m in range(NT):
        if small(S, value):
            # remainder from T[m] on, relative to c_k >= 1/k! (1 - b/((k+1)(k+2)))
            rel = tail(b, k, m)
            if rel < 2.3e-16:
                return "truncated series with remainder %.1e" % rel
            if last and (small(last[-1], T[m]) or small(last[-1], neg(T[m]))):
                return "partial sum up to the first term absorbed in floating point"
            return ""
        S = add(S, T[m])
    return ""


def small(a, b):
    d = approx(sub(a, b))
    return is_num(d) and d == 0


def tail(b, k, m):
    t = float(b) ** m * math.factorial(k) / math.factorial(2 * m + k)
    low = 1 - float(b) / ((k + 1) * (k + 2))
    return t * 1.2 / max(low, 1e-3)


def c13(world, k, mask):
    X.reset()
    ctx = OneReal("psi", mask)
    ops.set_ctx(ctx)
    ctx.start_path()
    fn = "c%d" % k
    sg = {POS: "psi > 0", NEG: "psi < 0", ZERO: "psi = 0"}[mask]
    return series_function(world, ctx, STU, fn, [ctx.z], k, mask, "C13/%s/%s" % (fn, sg),
                           lambda env: [("utils.stumpff." + fn, (float(env["psi"][0]) if env else 0.0,), {}, bounded.ck_stumpff, (k, float(env["psi"][0]) if env else 0.0))])


def series_function(world, ctx, mod, fn, args, k, mask, name, at):
    outs, tr = paths(world, ctx, mod, fn, args, {}, unroll=16)
    if tr:
        return [Ob(name, UNDECIDED, detail="path limit")]
    z = ctx.z
    by = set()
    n = 0
    for o in outs:
        if o.kind == "unsupported":
            return [Ob(name, UNDECIDED, detail=str(o.value))]
        why = ""
        if o.kind == "raise" and o.value == "__cut__":
            b = bound_of(ctx, o, z)
            es = [e for e, m, w in o.lits if w and w[0] == "absorb"]
            T = series_terms(z, k, NT)
            if b is not None and es:
                for m in range(NT):
                    if (small(es[-1], T[m]) or small(es[-1], neg(T[m]))) and tail(b, k, m) < 5e-17:
                        why = "the loop has ended before: the term is absorbed"
            if is_num(z) and z == 0 and not es:
                why = ""
        elif o.kind == "return":
            if is_num(o.value) or isinstance(o.value, X.E):
                why = series_goal(ctx, o, z, k, mask, o.value)
            n += 1
        if not why:
            lits = [(e, m) for e, m, w in o.lits if not (w and w[0] == "absorb")]
            calls = []
            if not is_num(z):
                for u in find_points(ctx, lits):
                    calls += at(ctx.space_env(u[None, :]))
            else:
                calls = at(None)
            return [Ob(name, FAILED, detail="the value %s is not shown to be the series on the path %s" % (X.show(o.value, 200) if isinstance(o.value, X.E) else o.value, path_text(o)), calls=calls)]
        by.add(why)
    if not n:
        return [Ob(name, UNDECIDED, detail="no returning path (vacuous)")]
    return [Ob(name, PROVED, by="; ".join(sorted(by)))]


# ------------------------------------------------------------------ C11
class Elements(Ctx):
    """classical elements: p > 0, the conic's eccentricity and its angles, each with
    the cosine and the sine of its half"""
    ANG = ("inc", "raan", "argp", "nu")

    def __init__(self, shape="elliptic", plane="inclined"):
        super().__init__("elements")
        self.shape, self.plane = shape, plane
        g = lambda n: self.real(n, POS, gen=True)
        self.kk, self.pp = g("sqrt_k"), g("sqrt_p")
        self.k, self.p = self.kk ** 2, self.pp ** 2
        self.e = Fr(0) if shape == "circular" else self.real("e", POS, gen=True)
        self.more_cands = 20
        self.half = {}
        self.val = {}
        for a in self.ANG:
            if a == "inc" and plane != "inclined":
                self.half[a] = (Fr(1), Fr(0)) if plane == "equatorial" else (Fr(0), Fr(1))
                self.val[a] = Fr(0) if plane == "equatorial" else X.PI
                continue
            v = self.real(a, POS if a != "nu" else ANY)
            c, s = self.real("c_" + a, POS if a in ("inc", "nu") else ANY, gen=a == "inc"), self.real("s_" + a, POS if a != "nu" else ANY, gen=a == "inc")
            self.angles[a] = (c, s)
            self.half[a], self.val[a] = (c, s), v
            self.base_fact(sub(add(mul(c, c), mul(s, s)), 1), ZERO)
            self.base_fact(sub(1, s), POS | ZERO)
            if a == "inc":
                self.base_fact(sub(X.PI, v), POS)
        if shape == "hyperbolic":
            # a = sqrt(e+1), b = sqrt(e-1), f, g = a cos(nu/2) +- b sin(nu/2): positive on the branch
            for n in ("a", "b", "f", "g"):
                g(n)
        self.acos_known = {}
        if plane == "inclined":
            # planes closer to the equator than 1e-6 count as equatorial
            inc = self.val["inc"]
            self.acos_known[self.cs("inc")[0].id] = inc
            self.base_fact(sub(inc, Fr(1, 10 ** 6)), POS)
            self.base_fact(sub(sub(X.PI, inc), Fr(1, 10 ** 6)), POS)
        self.cnu, self.snu = self.cs("nu")
        self.q = add(1, mul(self.e, self.cnu))
        if shape == "elliptic":
            self.base_fact(sub(1, self.e), POS)
            self.base_fact(add(1, self.e), POS)
        if shape == "hyperbolic":
            self.base_fact(sub(self.e, 1), POS)
            self.base_fact(add(self.e, 1), POS)
        if shape != "circular":
            self.base_fact(self.q, POS)
            # the thresholds that tell circular and equatorial orbits apart
            self.base_fact(sub(self.e, Fr(1, 10 ** 6)), POS)

    def cs(self, a):
        c, s = self.half[a]
        return sub(scale(mul(c, c), 2), 1), scale(mul(c, s), 2)

    def state(self):
        """position and velocity of the elements, written out"""
        (cO, sO), (ci, si), (cw, sw) = self.cs("raan"), self.cs("inc"), self.cs("argp")
        P = [sub(mul(cO, cw), mul(mul(sO, sw), ci)), add(mul(sO, cw), mul(mul(cO, sw), ci)), mul(sw, si)]
        W = [neg(add(mul(cO, sw), mul(mul(sO, cw), ci))), sub(mul(mul(cO, cw), ci), mul(sO, sw)), mul(cw, si)]
        R = div(self.p, self.q)
        V = div(self.kk, self.pp)
        r = [mul(R, add(mul(self.cnu, a), mul(self.snu, b))) for a, b in zip(P, W)]
        v = [mul(V, sub(mul(add(self.e, self.cnu), b), mul(self.snu, a))) for a, b in zip(P, W)]
        return r, v

    def frame(self):
        """Q: e1 radial, e2 transverse, e3 normal, for the argument of latitude argp + nu;
        returns the state on it"""
        (cO, sO), (ci, si), (cw, sw) = self.cs("raan"), self.cs("inc"), self.cs("argp")
        cu, su = sub(mul(cw, self.cnu), mul(sw, self.snu)), add(mul(sw, self.cnu), mul(cw, self.snu))
        self.Q = [[sub(mul(cO, cu), mul(mul(sO, su), ci)), add(mul(sO, cu), mul(mul(cO, su), ci)), mul(su, si)],
                  [neg(add(mul(cO, su), mul(mul(sO, cu), ci))), sub(mul(mul(cO, cu), ci), mul(sO, su)), mul(cu, si)],
                  [mul(sO, si), neg(mul(cO, si)), ci]]
        V = div(self.kk, self.pp)
        return Vec([div(self.p, self.q), Fr(0), Fr(0)]), Vec([mul(V, mul(self.e, self.snu)), mul(V, self.q), Fr(0)])

    def axioms(self):
        out = []
        if self.shape == "hyperbolic":
            c, s = self.half["nu"]
            out.append((sub(mul(add(self.e, 1), powi(c, 2)), mul(sub(self.e, 1), powi(s, 2))), POS))
        return out

    def space_vars(self):
        return list(self.space_env(np.zeros((1, 7))))

    def space_dim(self):
        return 7

    def space_sample(self, rng, n):
        U = rng.normal(size=(n, 7)) * 1.5
        z = rng.random((n, 7)) < 0.1
        U[z] = 0.0
        return U

    def space_env(self, U):
        n = len(U)
        ex = np.exp(np.clip(U[:, 6], -12, 3))
        env = {"sqrt_k": np.exp(U[:, 0]), "sqrt_p": np.exp(U[:, 1])}
        e = np.zeros(n)
        if self.shape == "elliptic":
            e = np.clip(ex / (1 + ex), 1e-5, 0.999)
            env["e"] = e
        elif self.shape == "hyperbolic":
            e = 1 + ex
            env["e"] = e
        sg = lambda x: 1 / (1 + np.exp(-np.clip(x, -30, 30)))
        lim = np.arccos(-1 / e) * 0.98 if self.shape == "hyperbolic" else np.pi * 0.999
        vals = {"inc": np.pi * sg(U[:, 2] * 4), "raan": 2 * np.pi * sg(U[:, 3] * 2), "argp": 2 * np.pi * sg(U[:, 4] * 2), "nu": np.tanh(U[:, 5]) * lim}
        for a, v in vals.items():
            if a in self.angles:
                env[a] = v * np.ones(n)
                env["c_" + a], env["s_" + a] = np.cos(env[a] / 2), np.sin(env[a] / 2)
        if self.shape == "hyperbolic":
            a, b = np.sqrt(e + 1), np.sqrt(e - 1)
            env["a"], env["b"] = a, b
            env["f"], env["g"] = a * env["c_nu"] + b * env["s_nu"], a * env["c_nu"] - b * env["s_nu"]
        return env

    def sample_base(self, rng, n, env):
        env.update(self.space_env(self.space_sample(rng, n)))

    def fp_base(self, p):
        h = X.inv(2)
        for n in ("sqrt_k", "sqrt_p"):
            p.env[n] = (p.rnd(), p.rnd())
        if not is_num(self.e):
            p.env["e"] = (p.rnd(), p.rnd())
        for a in self.angles:
            t, d = p.rnd(), p.rnd()
            i = X.inv(1 + t * t)
            c, s = (1 - t * t) * i % X.P, 2 * t * i % X.P
            p.env[a] = (p.rnd(), d)
            p.env["c_" + a] = (c, (X.P - s) * d % X.P * h % X.P)
            p.env["s_" + a] = (s, c * d % X.P * h % X.P)
            p.known_angles[X.var(a).id] = (c, s)
        if self.shape == "hyperbolic":
            e, c, s = p.env["e"], p.env["c_nu"], p.env["s_nu"]
            a, b = p.root((e[0] + 1) % X.P), p.root((e[0] - 1) % X.P)
            da, db = e[1] * X.inv(2 * a) % X.P, e[1] * X.inv(2 * b) % X.P
            p.env["a"], p.env["b"] = (a, da), (b, db)
            for n, sg in (("f", 1), ("g", -1)):
                p.env[n] = ((a * c[0] + sg * b * s[0]) % X.P, (da * c[0] + a * c[1] + sg * (db * s[0] + b * s[1])) % X.P)

    def elements_at(self, env):
        g = lambda n: float(env[n][0])
        el = [g("sqrt_k") ** 2, g("sqrt_p") ** 2, 0.0 if is_num(self.e) else g("e")]
        for a in self.ANG:
            el.append(g(a) if a in self.angles else (0.0 if is_num(self.val[a]) else math.pi))
        return el


def elements(shape, plane):
    X.reset()
    c = Elements(shape, plane)
    ops.set_ctx(c)
    c.start_path()
    return c


def c11_coe2rv(world, shape, plane):
    c = elements(shape, plane)
    r, v = c.state()
    args = [c.k, c.p, c.e] + [c.val[a] for a in c.ANG]

    def goals(o):
        x = o.value
        if not (isinstance(x, Arr) and x.shape == (2, 3)):
            raise Shape("the value is not a 2x3 array")
        return [("%s[%d]" % ("position" if i < 3 else "velocity", i % 3), "zero", sub(number(o, t), w)) for i, (t, w) in enumerate(zip(x.data, r + v))]

    def at(env):
        import mpmath as mp
        el = tuple(c.elements_at(env))
        return [("utils.elements.coe2rv", el, {}, bounded.ck_coe2rv, tuple(mp.mpf(x) for x in el))]
    return judge("C11/coe2rv/%s, %s" % (shape, plane), c, *paths(world, c, ELE, "coe2rv", args, {}), goals, at)


def c11_rot(world, axis):
    c = elements("elliptic", "inclined")
    a, (co, si) = c.val["argp"], c.cs("argp")
    ms = {0: [1, 0, 0, 0, co, neg(si), 0, si, co], 1: [co, 0, si, 0, 1, 0, neg(si), 0, co], 2: [co, neg(si), 0, si, co, 0, 0, 0, 1],
          "known": [co, 0, si, 0, 1, 0, si, 0, co]}
    name = "C11/rotation_matrix/axis %d" % axis
    outs, tr = paths(world, c, ELE, "rotation_matrix", [a, Fr(axis)], {})

    def against(m):
        def goals(o):
            x = o.value
            if not (isinstance(x, Arr) and x.shape == (3, 3)):
                raise Shape("the value is not a 3x3 array")
            return [("entry %d" % i, "zero", sub(number(o, t), Fr(w) if isinstance(w, int) else w)) for i, (t, w) in enumerate(zip(x.data, m))]
        return judge(name, c, outs, tr, goals,
                     lambda env: [("utils.elements.rotation_matrix", (float(env["argp"][0]), axis), {}, bounded.ck_rot, (float(env["argp"][0]), axis))])
    obs = against(ms[axis])
    if axis == 1 and proof.worst(obs) != PROVED and proof.worst(against(ms["known"])) == PROVED:
        # the recorded finding (known_findings.txt), and nothing else
        return [Ob(name, proof.KNOWN, detail="entry [2][0] is +sin(angle)")]
    return obs


def c11_rv2coe(world, shape, plane):
    c = elements(shape, plane)

    def goals(o):
        x = o.value
        if not (isinstance(x, tuple) and len(x) == 6):
            raise Shape("the value is not six elements")
        p, e, i, O, w, nu = [number(o, t) for t in x]
        out = [("p", "zero", sub(p, c.p)), ("ecc", "zero", sub(e, c.e))]
        ci, si = c.cs("inc")
        out += [("cos(inc)", "zero", sub(ops.cos(i), ci)), ("inc >= 0", "sign", i, POS | ZERO), ("inc <= pi", "sign", sub(X.PI, i), POS | ZERO)]
        (cO, sO), (cw, sw), (cn, sn) = c.cs("raan"), c.cs("argp"), c.cs("nu")

        def angle(name, val, co, si):
            return [("cos(%s)" % name, "zero", sub(ops.cos(val), co)), ("sin(%s)" % name, "zero", sub(ops.sin(val), si))]

        def sums(*ts):
            co, si = Fr(1), Fr(0)
            for a, b in ts:
                co, si = sub(mul(co, a), mul(si, b)), add(mul(si, a), mul(co, b))
            return co, si
        if plane == "inclined" and shape != "circular":
            out += angle("raan", O, cO, sO) + angle("argp", w, cw, sw) + angle("nu", nu, cn, sn)
        elif plane == "inclined":
            out += angle("raan", O, cO, sO) + angle("argp + nu", add(w, nu), *sums((cw, sw), (cn, sn)))
        else:
            # in the equatorial plane only raan +- argp is defined
            sg = 1 if plane == "equatorial" else -1
            node = (cO, neg(sO)) if sg < 0 else (cO, sO)
            want = sums(node, (cw, sw))
            if shape != "circular":
                out += angle("argp +- raan", add(w, scale(O, sg)), *want) + angle("nu", nu, cn, sn)
            else:
                out += angle("argp + nu +- raan", add(add(w, nu), scale(O, sg)), *sums(want, (cn, sn)))
        for nm, t, lo, hi in (("raan", O, 0, 2), ("argp", w, 0, 2), ("nu", nu, -1, 1)):
            out += [("%s >= %d pi" % (nm, lo), "sign", sub(t, scale(X.PI, lo)), POS | ZERO), ("%s <= %d pi" % (nm, hi), "sign", sub(scale(X.PI, hi), t), POS | ZERO)]
        return out

    def at(env):
        import mpmath as mp
        from . import oracle
        el = c.elements_at(env)
        pos, vel = oracle.state_from_elements(*[mp.mpf(x) for x in el])
        pos, vel = [float(x) for x in pos], [float(x) for x in vel]
        if plane != "inclined":
            pos[2] = vel[2] = 0.0
        return [("utils.elements.rv2coe", (el[0], bounded.vec(pos), bounded.vec(vel)), {}, bounded.ck_rv2coe, (el[0], pos, vel))]
    r, v = c.frame()
    args = [c.k, r, v]
    return judge("C11/rv2coe/%s, %s" % (shape, plane), c, *paths(world, c, ELE, "rv2coe", args, LINALG, max_paths=200), goals, at)


# ------------------------------------------------------------------ linear algebra
class Six(Ctx):
    def __init__(self):
        super().__init__("six")
        self.v = [self.real("x%d" % i, ANY) for i in range(6)]

    def space_dim(self):
        return 6

    def space_vars(self):
        return ["x%d" % i for i in range(6)]

    def space_sample(self, rng, n):
        return rng.normal(size=(n, 6)) * 3

    def space_env(self, U):
        return {"x%d" % i: U[:, i] for i in range(6)}

    def sample_base(self, rng, n, env):
        env.update(self.space_env(self.space_sample(rng, n)))

    def fp_base(self, p):
        for i in range(6):
            p.env["x%d" % i] = (p.rnd(), p.rnd())


def linalg(world, prop):
    """the contracts of lamberthub.linalg that the other obligations use at its call sites"""
    out = []
    for fn in ("dot", "norm", "cross"):
        X.reset()
        c = Six()
        ops.set_ctx(c)
        c.start_path()
        a, b = c.v[:3], c.v[3:]
        args = [Arr((3,), list(a))] + ([] if fn == "norm" else [Arr((3,), list(b))])

        def goals(o):
            v = o.value
            if fn == "cross":
                if not (isinstance(v, Arr) and v.shape == (3,)):
                    raise Shape("the value is not a vector")
                w = [sub(mul(a[(i + 1) % 3], b[(i + 2) % 3]), mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]
                return [("component %d" % i, "zero", sub(t, u)) for i, (t, u) in enumerate(zip(v.data, w))]
            v = number(o, v)
            w = Fr(0)
            for x, y in zip(a, b if fn == "dot" else a):
                w = add(w, mul(x, y))
            return [("value", "zero", sub(v, w if fn == "dot" else ops.sqrt(w)))]

        def at(env):
            p = [float(env["x%d" % i][0]) for i in range(6)]
            A, Bv = bounded.vec(p[:3]), bounded.vec(p[3:])
            return [("linalg." + fn, (A,) if fn == "norm" else (A, Bv), {}, bounded.ck_linalg, (fn, p))]
        out += judge("%s/linalg.%s" % (prop, fn), c, *paths(world, c, "lamberthub.linalg", fn, args, {}), goals, at)
    return out
