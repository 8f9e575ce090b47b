"""Terms over the real numbers, hash-consed, with three evaluators:
vectorised floats, mpmath, and dual numbers over the prime field GF(2^61-1).

A number is a Python int or Fraction.  Any other term is an `E`:
  var  (name,)
  lin  (constant, ((node, coefficient), ...))     a sum
  mul  ((base, exponent), ...)                    a product of integer powers
  fn   (name, args)                               sqrt, cos, atan, ...
"""
from fractions import Fraction as Fr
import math
import sys

sys.setrecursionlimit(200000)

NEG, ZERO, POS = 1, 2, 4
ANY = 7

_tab = {}


class E:
    __slots__ = ("k", "a", "id", "vs", "sz")

    def __repr__(self):
        return show(self)

    # arithmetic sugar for the specifications
    def __add__(self, o):
        return add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __neg__(self):
        return scale(self, -1)

    def __pow__(self, n):
        return powi(self, n)


def reset():
    _tab.clear()
    for k in ("PI",):
        globals()[k] = fn("pi")


def mk(k, a):
    key = (k, a)
    n = _tab.get(key)
    if n is None:
        n = E()
        n.k, n.a, n.id = k, a, len(_tab)
        n.sz = 0
        if k == "var":
            n.vs = frozenset(a)
        else:
            cs = children(n)
            n.vs = cs[0].vs if len(cs) == 1 else frozenset().union(*[c.vs for c in cs])
        _tab[key] = n
    return n


def is_num(x):
    c = x.__class__
    return c is Fr or c is int


def var(name):
    return mk("var", (name,))


def fn(name, *args):
    return mk("fn", (name, tuple(_n(a) for a in args)))


def _n(x):
    if isinstance(x, E):
        return x
    return Fr(x)


def lin_parts(x):
    if is_num(x):
        return Fr(x), {}
    if x.k == "lin":
        return x.a[0], dict(x.a[1])
    return Fr(0), {x: Fr(1)}


def mk_lin(c, d):
    items = tuple(sorted(((n, q) for n, q in d.items() if q != 0), key=lambda t: t[0].id))
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", (c, items))


def add(x, y):
    c1, d1 = lin_parts(x)
    c2, d2 = lin_parts(y)
    d = dict(d1)
    for n, q in d2.items():
        d[n] = d.get(n, 0) + q
    return mk_lin(c1 + c2, d)


def scale(x, c):
    c = Fr(c)
    if is_num(x):
        return Fr(x) * c
    if c == 0:
        return Fr(0)
    c1, d1 = lin_parts(x)
    return mk_lin(c1 * c, {n: q * c for n, q in d1.items()})


def sub(x, y):
    return add(x, scale(y, -1))


def neg(x):
    return scale(x, -1)


def mul_parts(x):
    """x == coef * prod(base ** exp)"""
    if is_num(x):
        return Fr(x), {}
    if x.k == "mul":
        return Fr(1), dict(x.a)
    if x.k == "lin":
        c, items = x.a
        if c == 0 and len(items) == 1:
            n, q = items[0]
            q2, d = mul_parts(n)
            return q * q2, d
        lead = items[0][1]
        if lead != 1:
            return lead, {scale(x, 1 / lead): 1}
        return Fr(1), {x: 1}
    return Fr(1), {x: 1}


def mk_mul(c, d):
    out = {}
    extra = []
    for b, e in d.items():
        if e == 0:
            continue
        if b.k == "fn" and b.a[0] == "sqrt" and (e >= 2 or e <= -2):
            h, r = (e // 2, e % 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
            extra.append((b.a[1][0], h))
            if r:
                out[b] = out.get(b, 0) + r
        else:
            out[b] = out.get(b, 0) + e
    out = {b: e for b, e in out.items() if e}
    if not out:
        r = Fr(c)
    else:
        items = tuple(sorted(out.items(), key=lambda t: t[0].id))
        n = items[0][0] if len(items) == 1 and items[0][1] == 1 else mk("mul", items)
        r = scale(n, c)
    for b, h in extra:
        r = mul(r, powi(b, h))
    return r


def mul(x, y):
    if is_num(x):
        return scale(y, x)
    if is_num(y):
        return scale(x, y)
    c1, d1 = mul_parts(x)
    c2, d2 = mul_parts(y)
    d = dict(d1)
    for b, e in d2.items():
        d[b] = d.get(b, 0) + e
    return mk_mul(c1 * c2, d)


class DivByZero(Exception):
    pass


def powi(x, n):
    n = int(n)
    if n == 0:
        return Fr(1)
    if is_num(x):
        if x == 0 and n < 0:
            raise DivByZero()
        return Fr(x) ** n
    c, d = mul_parts(x)
    return mk_mul(c ** n, {b: e * n for b, e in d.items()})


def div(x, y):
    if is_num(y):
        if y == 0:
            raise DivByZero()
        return scale(x, Fr(1) / Fr(y))
    return mul(x, powi(y, -1))


def children(n):
    if not isinstance(n, E):
        return ()
    if n.k == "lin":
        return [t[0] for t in n.a[1]]
    if n.k == "mul":
        return [t[0] for t in n.a]
    if n.k == "fn":
        return [t for t in n.a[1] if isinstance(t, E)]
    return ()


def topo(roots):
    """all nodes below roots, children first"""
    seen, out = set(), []
    st = [(r, False) for r in roots if isinstance(r, E)]
    while st:
        n, done = st.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, True))
        for c in children(n):
            if c.id not in seen:
                st.append((c, False))
    return out


def size(x):
    if x.__class__ is not E:
        return 0
    if not x.sz:
        x.sz = len(topo([x]))
    return x.sz


def variables(x):
    return x.vs if x.__class__ is E else frozenset()


def depends(x, names):
    return bool(variables(x) & set(names))


def show(x, lim=400, depth=12):
    def go(x, d):
        if is_num(x):
            return str(x)
        if d <= 0:
            return "..."
        if x.k == "var":
            return x.a[0]
        if x.k == "lin":
            s = [] if x.a[0] == 0 else [str(x.a[0])]
            for n, q in x.a[1]:
                t = go(n, d - 1)
                s.append(t if q == 1 else "-" + t if q == -1 else "%s*%s" % (q, t))
            return "(" + " + ".join(s).replace("+ -", "- ") + ")"
        if x.k == "mul":
            return "*".join(go(b, d - 1) + ("" if e == 1 else "^%d" % e) for b, e in x.a)
        return x.a[0] + ("(" + ", ".join(go(c, d - 1) for c in x.a[1]) + ")" if x.a[1] else "")
    s = go(x, depth) if isinstance(x, (E, int, Fr)) else repr(x)
    return s if len(s) <= lim else s[:lim] + "…"


def subst(x, m):
    """replace nodes (by identity) bottom-up; m: {E: term}; rebuilds with simplification"""
    if is_num(x):
        return x
    memo = {}
    from . import ops
    for n in topo([x]):
        if n in m:
            memo[n] = m[n]
            continue
        if n.k == "var" or (n.k == "fn" and not n.a[1]):
            memo[n] = n
        elif n.k == "lin":
            if all(memo[t] is t for t, _ in n.a[1]):
                memo[n] = n
                continue
            r = n.a[0]
            for t, q in n.a[1]:
                r = add(r, scale(memo[t], q))
            memo[n] = r
        elif n.k == "mul":
            if all(memo[t] is t for t, _ in n.a):
                memo[n] = n
                continue
            r = Fr(1)
            for t, e in n.a:
                r = mul(r, powi(memo[t], e))
            memo[n] = r
        else:
            args = [memo[t] if isinstance(t, E) else t for t in n.a[1]]
            if all(p is q for p, q in zip(args, n.a[1])):
                memo[n] = n
            else:
                memo[n] = ops.apply_fn(n.a[0], args)
    return memo[x]


# --------------------------------------------------------------------------
# floats (vectorised) and mpmath

def feval(roots, env, lib, memo=None):
    memo = {} if memo is None else memo
    for n in topo(roots):
        if n.id in memo:
            continue
        if n.k == "var":
            memo[n.id] = env[n.a[0]]
        elif n.k == "lin":
            r = lib.const(n.a[0])
            for t, q in n.a[1]:
                r = r + lib.const(q) * memo[t.id]
            memo[n.id] = r
        elif n.k == "mul":
            r = lib.const(1)
            for t, e in n.a:
                r = r * lib.ipow(memo[t.id], e)
            memo[n.id] = r
        else:
            memo[n.id] = lib.fn(n.a[0], [memo[t.id] if isinstance(t, E) else lib.const(t) for t in n.a[1]])
    return [memo[r.id] if isinstance(r, E) else lib.const(r) for r in roots]


class NpLib:
    def __init__(self):
        import numpy as np
        self.np = np
        self.cache = {}

    def const(self, q):
        v = self.cache.get(q)
        if v is None:
            v = self.cache[q] = float(q)
        return v

    def ipow(self, x, e):
        if e == 1:
            return x
        if e == 2:
            return x * x
        if e == -1:
            return 1.0 / x
        return self.np.power(x, float(e)) if e > 0 else 1.0 / self.np.power(x, float(-e))

    def fn(self, name, a):
        np = self.np
        if name == "pi":
            return np.pi
        if name in ("sqrt", "sin", "cos", "exp", "log", "sinh", "cosh", "floor", "sign"):
            return getattr(np, name)(a[0])
        if name == "abs":
            return np.abs(a[0])
        if name in ("atan", "asin", "acos", "asinh", "acosh", "atanh"):
            return getattr(np, "arc" + name[1:])(a[0])
        if name == "atan2":
            return np.arctan2(a[0], a[1])
        if name == "min":
            return np.minimum(a[0], a[1])
        if name == "max":
            return np.maximum(a[0], a[1])
        if name == "pow":
            return np.power(np.asarray(a[0], float), a[1])
        if name == "hyp2f1b":
            from scipy.special import hyp2f1
            return hyp2f1(3.0, 1.0, 2.5, a[0])
        if name.startswith("u:"):
            return a[0] * np.nan if a else np.nan
        raise KeyError(name)


class MpLib:
    def __init__(self, dps=50):
        import mpmath
        self.mp = mpmath
        mpmath.mp.dps = dps
        self.nan = mpmath.mpf("nan")

    def const(self, q):
        q = Fr(q)
        return self.mp.mpf(q.numerator) / q.denominator

    def ipow(self, x, e):
        try:
            return x ** e
        except ZeroDivisionError:
            return self.nan

    def fn(self, name, a):
        mp = self.mp
        try:
            if name == "pi":
                return +mp.pi
            if any(mp.isnan(v) for v in a):
                return self.nan
            if name == "sqrt":
                return mp.sqrt(a[0]) if a[0] >= 0 else self.nan
            if name in ("sin", "cos", "exp", "sinh", "cosh", "floor", "sign", "atan", "asinh"):
                return getattr(mp, name)(a[0])
            if name == "log":
                return mp.log(a[0]) if a[0] > 0 else self.nan
            if name == "abs":
                return abs(a[0])
            if name in ("asin", "acos"):
                return getattr(mp, name)(a[0]) if abs(a[0]) <= 1 else self.nan
            if name == "acosh":
                return mp.acosh(a[0]) if a[0] >= 1 else self.nan
            if name == "atanh":
                return mp.atanh(a[0]) if abs(a[0]) < 1 else self.nan
            if name == "atan2":
                return mp.atan2(a[0], a[1])
            if name == "min":
                return min(a)
            if name == "max":
                return max(a)
            if name == "pow":
                return mp.power(a[0], a[1]) if a[0] >= 0 else self.nan
            if name == "hyp2f1b":
                return mp.hyp2f1(3, 1, mp.mpf(5) / 2, a[0]) if a[0] < 1 else self.nan
            return self.nan
        except (ZeroDivisionError, ValueError):
            return self.nan


# --------------------------------------------------------------------------
# dual numbers over GF(p)

P = (1 << 61) - 1


class NoRoot(Exception):
    """a radicand is not a square at this point: take another point"""


class Singular(Exception):
    pass


class FpUnsupported(Exception):
    pass


def inv(x):
    if x % P == 0:
        raise Singular()
    return pow(x, -1, P)


def fsqrt(x):
    x %= P
    if x == 0:
        raise Singular()
    r = pow(x, (P + 1) // 4, P)
    if r * r % P != x:
        raise NoRoot()
    return r


def fconst(q):
    if q.__class__ is int or q.denominator == 1:
        return int(q) % P
    q = Fr(q)
    return q.numerator * inv(q.denominator) % P


ANGD = 8


class FpPoint:
    """One random point: values (v, dv) of every variable, and consistent
    values for square roots and transcendental atoms."""

    def __init__(self, env, rng):
        self.env = env          # name -> (v, dv)
        self.rng = rng
        self.roots = {}         # radicand value -> root
        self.atoms = {}         # (fn, arg values) -> value
        self.circ = {}          # angle atom id -> (c, s) of atom / ANGD
        self.expo = {}
        self.memo = {}
        self.bad = set()        # nodes without a value at this point
        self.known_angles = {}  # node id -> (cos, sin) of node / 2, from the sampler

    def rnd(self):
        return self.rng.randrange(1, P)

    def root(self, v):
        r = self.roots.get(v)
        if r is None:
            r = fsqrt(v)
            if self.rng.random() < 0.5:
                r = P - r
            self.roots[v] = r
        return r

    def ev_nodes(self, nodes):
        """the value of the last node, all of its descendants coming before it"""
        memo, bad = self.memo, self.bad
        if len(memo) > 60000:
            memo.clear()
        for n in nodes:
            if n.id not in memo:
                if n.id in bad:
                    raise NoRoot()
                try:
                    memo[n.id] = self.node(n)
                except (NoRoot, Singular):
                    bad.add(n.id)
                    raise
        return memo[nodes[-1].id]

    def ev(self, x):
        if is_num(x):
            return fconst(x), 0
        memo = self.memo
        for n in topo([x]):
            if n.id not in memo:
                memo[n.id] = self.node(n)
        return memo[x.id]

    def node(self, n):
        m = self.memo
        if n.k == "var":
            if n.a[0] not in self.env:
                self.env[n.a[0]] = (self.rnd(), self.rnd())
            return self.env[n.a[0]]
        if n.k == "lin":
            v, d = fconst(n.a[0]), 0
            for t, q in n.a[1]:
                tv, td = m[t.id]
                q = fconst(q)
                v += q * tv
                d += q * td
            return v % P, d % P
        if n.k == "mul":
            v, d = 1, 0
            for t, e in n.a:
                tv, td = m[t.id]
                if e < 0:
                    iv = inv(tv)
                    tv, td = iv, -td * iv % P * iv % P
                    e = -e
                pv = pow(tv, e - 1, P)
                wv, wd = pv * tv % P, e * pv % P * td % P
                v, d = v * wv % P, (d * wv + v * wd) % P
            return v, d
        name = n.a[0]
        args = [m[t.id] if isinstance(t, E) else (fconst(t), 0) for t in n.a[1]]
        return self.func(name, n, args)

    def atom(self, name, args):
        key = (name,) + tuple(a[0] for a in args)
        v = self.atoms.get(key)
        if v is None:
            v = self.atoms[key] = self.rnd()
        return v

    def func(self, name, n, args):
        from . import ops
        if name == "pi":
            return self.atom("pi", []), 0
        x, dx = args[0]
        if name == "sqrt":
            r = self.root(x)
            return r, dx * inv(2 * r % P) % P
        if name == "abs":
            key = ("absS", x)
            s = self.atoms.get(key)
            if s is None:
                s = self.atoms[key] = self.atoms.get(("absS", (P - x) % P))
                s = (1 if s is None and self.rng.random() < 0.5 else -1) if s is None else -s
                self.atoms[key] = s
            return s * x % P, s * dx % P
        if name in ("min", "max"):
            y, dy = args[1]
            key = ("mm", min(x, y), max(x, y))
            pick = self.atoms.get(key)
            if pick is None:
                pick = self.atoms[key] = self.rng.random() < 0.5
            lo, hi = ((x, dx), (y, dy)) if (x < y) == pick else ((y, dy), (x, dx))
            return lo if name == "min" else hi
        if name in ("floor", "sign"):
            return self.atom(name, args), 0
        if name in ("cos", "sin"):
            c, s, da = self.angle(n.a[1][0])
            return (c, (P - s) * da % P) if name == "cos" else (s, c * da % P)
        if name in ("cosh", "sinh", "exp"):
            e, da = self.expon(n.a[1][0])
            if name == "exp":
                return e, e * da % P
            ie = inv(e)
            h = inv(2)
            ch, sh = (e + ie) * h % P, (e - ie) * h % P
            return (ch, sh * da % P) if name == "cosh" else (sh, ch * da % P)
        v = self.atom(name, args)
        if name == "log":
            return v, dx * inv(x) % P
        if name == "atan":
            return v, dx * inv(1 + x * x) % P
        if name == "atanh":
            return v, dx * inv(1 - x * x) % P
        if name == "atan2":
            y, dy = args[0]
            x, dx = args[1]
            return v, (x * dy - y * dx) % P * inv(x * x + y * y) % P
        if name in ("asin", "acos", "asinh", "acosh"):
            t = n.a[1][0]
            if name in ("asin", "acos"):
                rad = sub(1, mul(t, t))
            elif name == "asinh":
                rad = add(1, mul(t, t))
            else:
                rad = sub(mul(t, t), 1)
            r = ops.sqrt(rad)
            rv = self.ev(r)[0]
            d = dx * inv(rv) % P
            return v, (P - d if name == "acos" else d) % P
        if name == "pow":
            y, dy = args[1]
            if dy == 0 and dx == 0:
                return v, 0
            if dy == 0:
                return v, y * v % P * inv(x) % P * dx % P
            raise FpUnsupported("pow")
        if all(a[1] == 0 for a in args):
            return v, 0
        if name == "hyp2f1b":
            # dF/dx of F = 2F1(3,1;5/2;x) from its differential equation
            # x(1-x)F' = 3/2 (1 - F) + 3x F   [checked numerically in lemmas]
            f = v
            num = (fconst(Fr(3, 2)) * (1 - f) + 3 * x * f) % P
            return v, num * inv(x * (1 - x) % P) % P * dx % P
        if name.startswith("u:"):
            # any function: its partial derivatives are free values too
            return v, sum(self.atom("%s d%d" % (name, i), args) * a[1] for i, a in enumerate(args)) % P
        raise FpUnsupported(name)

    def angle(self, x):
        """(cos x, sin x, dx)"""
        c, d = lin_parts(x)
        dx = self.ev(x)[1]
        ca, sa = 1, 0
        if c != 0:
            d = dict(d)
            d[fn("one")] = c
        for n, q in d.items():
            q8 = q * ANGD
            from . import ops
            if n is PI:
                h = q * 2
                if h.denominator != 1:
                    h8 = q8
                    if h8.denominator != 1:
                        raise FpUnsupported("angle pi*%s" % q)
                    # cos(pi/8) etc: an atom with the right order is overkill; unsupported
                    raise FpUnsupported("angle pi*%s" % q)
                cc, ss = [(1, 0), (0, 1), (P - 1, 0), (0, P - 1)][int(h) % 4]
            elif ops.is_pi_int(n):
                h = q
                if h.denominator != 1:
                    raise FpUnsupported("angle pi*int*%s" % q)
                if int(h) % 2 == 0:
                    cc, ss = 1, 0
                else:
                    s = self.atoms.setdefault(("par", n.id), 1 if self.rng.random() < 0.5 else P - 1)
                    cc, ss = s, 0
            else:
                if n.id in self.known_angles:
                    b = self.known_angles[n.id]
                    k = q * 2
                else:
                    k = q8
                    b = self.circ.get(n.id)
                    if b is None:
                        t = self.rnd()
                        i = inv(1 + t * t)
                        b = self.circ[n.id] = ((1 - t * t) * i % P, 2 * t * i % P)
                if k.denominator != 1:
                    raise FpUnsupported("angle fraction")
                cc, ss = _cpow(b, int(k))
            ca, sa = (ca * cc - sa * ss) % P, (sa * cc + ca * ss) % P
        return ca, sa, dx

    def expon(self, x):
        c, d = lin_parts(x)
        dx = self.ev(x)[1]
        e = 1
        d = dict(d)
        if c != 0:
            d[fn("one")] = c
        for n, q in d.items():
            k = q * ANGD
            if k.denominator != 1:
                raise FpUnsupported("exp fraction")
            b = self.expo.get(n.id)
            if b is None:
                b = self.expo[n.id] = self.rnd()
            e = e * pow(b if k > 0 else inv(b), abs(int(k)), P) % P
        return e, dx


def _cpow(b, k):
    if k < 0:
        b = (b[0], (P - b[1]) % P)
        k = -k
    r = (1, 0)
    while k:
        if k & 1:
            r = ((r[0] * b[0] - r[1] * b[1]) % P, (r[0] * b[1] + r[1] * b[0]) % P)
        b = ((b[0] * b[0] - b[1] * b[1]) % P, 2 * b[0] * b[1] % P)
        k >>= 1
    return r


PI = None
reset()
