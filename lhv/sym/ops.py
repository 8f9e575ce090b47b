"""Functions over terms, with the rewriting rules of real analysis that the
obligations need.  Every rule is an identity on the domain on which the left
side is defined (a radicand is non-negative, an arc cosine has an argument in
[-1, 1]); that domain is the precondition "the computation produced a number"."""
from fractions import Fraction as Fr
import math

from . import expr as X
from .expr import (E, NEG, POS, ZERO, ANY, add, div, fn, is_num, lin_parts, mul,
                   mul_parts, mk_mul, powi, scale, sub)

CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def half(x):
    return scale(x, Fr(1, 2))


def is_pi_int(n):
    """PI times an integer-valued term"""
    if n.k != "mul":
        return False
    d = dict(n.a)
    if d.get(X.PI) != 1:
        return False
    return all(e > 0 and is_int(b) for b, e in d.items() if b is not X.PI)


def is_int(x):
    if is_num(x):
        return Fr(x).denominator == 1
    if x.k == "var":
        return CTX is not None and x.a[0] in CTX.integers
    if x.k == "fn":
        return x.a[0] in ("floor", "sign")
    if x.k == "lin":
        return x.a[0].denominator == 1 and all(q.denominator == 1 and is_int(t) for t, q in x.a[1])
    return all(e > 0 and is_int(b) for b, e in x.a)


def sign(x):
    if is_num(x):
        return POS if x > 0 else NEG if x < 0 else ZERO
    return CTX.sign(x)


def _isq(q):
    """sqrt of a positive rational as (rational, squarefree int)"""
    n = q.numerator * q.denominator
    out, rest = 1, 1
    m = n
    p = 2
    while p * p <= m and p < 2000:
        e = 0
        while m % p == 0:
            m //= p
            e += 1
        out *= p ** (e // 2)
        if e % 2:
            rest *= p
        p += 1
    r = math.isqrt(m)
    if r * r == m:
        out *= r
    else:
        rest *= m
    return Fr(out, q.denominator), rest


def sqrt_num(q):
    q = Fr(q)
    if q == 0:
        return Fr(0)
    r, s = _isq(q)
    return r if s == 1 else scale(fn("sqrt", Fr(s)), r)


def sqrt(x):
    if is_num(x):
        if x < 0:
            return fn("u:nan")
        return sqrt_num(x)
    c, d = mul_parts(x)
    pos = Fr(1)
    odd = {}
    for b, e in d.items():
        if e % 2 == 0:
            t = powi(b, e // 2)
            pos = mul(pos, abs_(t))
        else:
            h = (e - 1) // 2
            if h:
                # b**e with e odd under the root: b >= 0 when it stands alone
                odd[b] = 1
                alone = len([1 for v in d.values() if v % 2]) == 1
                pos = mul(pos, abs_(powi(b, h)) if not alone else powi(b if c > 0 else X.neg(b), h))
            else:
                odd[b] = 1
    if not odd:
        if c < 0:
            return fn("u:nan")
        return mul(sqrt_num(c), pos)
    if len(odd) == 1 and c > 0:
        b = next(iter(odd))
        return mul(mul(sqrt_num(c), pos), sqrt_atom(b))
    known = {b: sign(b) for b in odd}
    split = Fr(1)
    rest = {}
    for b in odd:
        if known[b] & NEG == 0:
            split = mul(split, sqrt_atom(b))
        elif known[b] & POS == 0:
            split = mul(split, sqrt_atom(X.neg(b)))
            c = -c
        else:
            rest[b] = 1
    if not rest:
        if c < 0:
            return fn("u:nan")
        return mul(mul(sqrt_num(c), pos), split)
    r = mk_mul(Fr(1 if c > 0 else -1), rest)
    return mul(mul(sqrt_num(abs(c)), pos), mul(split, sqrt_atom(r)))


def squares(b):
    """(f, g) with b = f g = q1^2 - (q2 x)^2, when neither factor is negative"""
    if is_num(b) or b.k != "lin" or len(b.a[1]) != 1 or b.a[0] == 0:
        return None
    n, q = b.a[1][0]
    if n.k != "mul" or any(e % 2 for _, e in n.a):
        return None
    c0 = b.a[0]
    if (c0 > 0) == (q > 0):
        return None
    (r1, s1), (r2, s2) = _isq(abs(c0)), _isq(abs(q))
    if s1 != 1 or s2 != 1:
        return None
    x = Fr(1)
    for t, e in n.a:
        x = mul(x, powi(t, e // 2))
    f, g = (sub(r1, scale(x, r2)), add(r1, scale(x, r2))) if c0 > 0 else (sub(scale(x, r2), r1), add(scale(x, r2), r1))
    if sign(f) & NEG or sign(g) & NEG:
        return None
    return f, g


def sqrt_atom(b):
    if is_num(b):
        return sqrt_num(b)
    r = same_root(b)
    if r is not None:
        return r
    sq = squares(b)
    if sq is not None:
        return keep_root(b, mul(sqrt_atom(sq[0]), sqrt_atom(sq[1])))
    c, d = mul_parts(b)
    if c != 1 and c > 0:
        return mul(sqrt_num(c), sqrt_atom(scale(b, 1 / c)))
    if b.k == "fn" and b.a[0] == "sqrt":
        return fn("sqrt", b)
    r = CTX.root_of(b) if CTX is not None else None
    if r is not None:
        return r
    return keep_root(b, fn("sqrt", b))


def small_sum(b):
    return CTX is not None and b.k == "lin" and X.size(b) < 14


def same_root(b):
    """a root taken earlier on this path of the same value written differently"""
    if small_sum(b):
        vs = X.variables(b)
        for b0, r in CTX.path_roots:
            if b0 is b:
                return r
            if CTX.related(vs, X.variables(b0)) and CTX.is_zero(sub(b, b0), trials=2):
                return r
    return None


def keep_root(b, r):
    if small_sum(b):
        CTX.path_roots.append((b, r))
    return r


def abs_(x):
    if is_num(x):
        return abs(Fr(x))
    c, d = mul_parts(x)
    out = Fr(abs(c))
    unk = {}
    for b, e in d.items():
        if e % 2 == 0:
            out = mul(out, powi(b, e))
            continue
        s = sign(b)
        if s & NEG == 0:
            out = mul(out, powi(b, e))
        elif s & POS == 0:
            out = mul(out, powi(X.neg(b), e))
        else:
            unk[b] = e
    if unk:
        out = mul(out, fn("abs", mk_mul(Fr(1), unk)))
    return out


def min_(a, b):
    return _mm("min", a, b)


def max_(a, b):
    return _mm("max", a, b)


def _mm(name, a, b):
    d = sub(a, b)
    s = sign(d)
    if s & POS == 0:
        return a if name == "min" else b
    if s & NEG == 0:
        return b if name == "min" else a
    return fn(name, a, b)


def floor_(x):
    if is_num(x):
        return Fr(math.floor(x))
    if is_int(x):
        return x
    return fn("floor", x)


def sign_(x):
    if is_num(x):
        return Fr((x > 0) - (x < 0))
    s = sign(x)
    if s in (POS, NEG, ZERO):
        return Fr({POS: 1, NEG: -1, ZERO: 0}[s])
    return fn("sign", x)


# ---------------------------------------------------------------- angles

def _cheb(c, s, n):
    """cos, sin of n * a from cos a, sin a (n >= 0)"""
    C, S = Fr(1), Fr(0)
    for _ in range(n):
        C, S = sub(mul(C, c), mul(S, s)), add(mul(S, c), mul(C, s))
    return C, S


def _known_pair(n, q):
    """(cos, sin) of q*n for an angle atom with known trigonometry, or None"""
    if CTX is not None and n.k == "var" and n.a[0] in CTX.angles:
        k = q * 2
        if k.denominator != 1 or abs(k) > 8:
            return None
        c, s = CTX.angles[n.a[0]]
    elif n.k == "fn" and n.a[0] in ("acos", "asin", "atan", "atan2"):
        x = n.a[1][0]
        k2 = q * 2
        if k2.denominator != 1 or abs(k2) > 8:
            return None
        full = q.denominator == 1
        if n.a[0] == "acos":
            c, s = (x, sqrt(sub(1, mul(x, x)))) if full else (sqrt(half(add(1, x))), sqrt(half(sub(1, x))))
        elif n.a[0] == "asin":
            c = sqrt(sub(1, mul(x, x)))
            s = x
            if not full:
                h = sqrt(half(add(1, c)))
                c, s = h, div(s, scale(h, 2))
        elif n.a[0] == "atan":
            if full and q % 2 == 0:
                i = powi(add(1, mul(x, x)), -1)
                c, s = mul(sub(1, mul(x, x)), i), mul(scale(x, 2), i)
                q = q / 2
            else:
                r = sqrt(add(1, mul(x, x)))
                c, s = powi(r, -1), div(x, r)
                if not full:
                    h = sqrt(half(add(1, c)))
                    c, s = h, div(s, scale(h, 2))
        else:
            y, xx = n.a[1]
            r = sqrt(add(mul(xx, xx), mul(y, y)))
            c, s = div(xx, r), div(y, r)
            if not full:
                h = sqrt(half(add(1, c)))
                c, s = h, div(s, scale(h, 2))
        k = q if full else k2
    else:
        return None
    k = int(k)
    C, S = _cheb(c, s, abs(k))
    return (C, S) if k >= 0 else (C, X.neg(S))


def cos_sin(x):
    if is_num(x) and x == 0:
        return Fr(1), Fr(0)
    c0, d = lin_parts(x)
    C, S = Fr(1), Fr(0)
    rest = mk = None
    rest_d = {}
    for n, q in d.items():
        p = None
        if n is X.PI and (q * 2).denominator == 1:
            p = [(Fr(1), Fr(0)), (Fr(0), Fr(1)), (Fr(-1), Fr(0)), (Fr(0), Fr(-1))][int(q * 2) % 4]
        elif n.k == "mul" and is_pi_int(n) and q.denominator == 1 and q % 2 == 0:
            p = (Fr(1), Fr(0))
        else:
            p = _known_pair(n, q)
        if p is None:
            rest_d[n] = q
            continue
        c, s = p
        C, S = sub(mul(C, c), mul(S, s)), add(mul(S, c), mul(C, s))
    rest = X.mk_lin(c0, rest_d)
    if not (is_num(rest) and rest == 0):
        c, s = _trig_atom(rest)
        C, S = sub(mul(C, c), mul(S, s)), add(mul(S, c), mul(C, s))
    return C, S


def _trig_atom(x):
    c, d = lin_parts(x)
    lead = c if not d else d[min(d, key=lambda n: n.id)]
    if lead < 0:
        y = X.neg(x)
        return fn("cos", y), X.neg(fn("sin", y))
    return fn("cos", x), fn("sin", x)


def cos(x):
    return cos_sin(x)[0]


def sin(x):
    return cos_sin(x)[1]


def _tan_pair(n, q):
    """(C, S) proportional to (cos, sin) of q*n, free of nested roots"""
    if n.k == "fn" and n.a[0] == "atan2" and abs(q) == Fr(1, 2):
        y, xx = n.a[1]
        r = sqrt(add(mul(xx, xx), mul(y, y)))
        return add(xx, r), (y if q > 0 else X.neg(y))
    if n.k == "fn" and n.a[0] == "atan" and q.denominator == 1 and 0 < abs(q) <= 4:
        x = n.a[1][0]
        C, S = _cheb(Fr(1), x, int(abs(q)))
        return C, (S if q > 0 else X.neg(S))
    return None


def tan(x):
    if is_num(x) and x == 0:
        return Fr(0)
    c0, d = lin_parts(x)
    C, S = Fr(1), Fr(0)
    rest = {}
    for n, q in d.items():
        p = _tan_pair(n, q)
        if p is None:
            rest[n] = q
            continue
        c, s = p
        C, S = sub(mul(C, c), mul(S, s)), add(mul(S, c), mul(C, s))
    r = X.mk_lin(c0, rest)
    if not (is_num(r) and r == 0):
        c, s = cos_sin(r)
        C, S = sub(mul(C, c), mul(S, s)), add(mul(S, c), mul(C, s))
    return div(S, C)


def acos(x):
    known = getattr(CTX, "acos_known", None)
    if known and not is_num(x) and x.id in known:
        return known[x.id]
    if is_num(x):
        t = {1: Fr(0), -1: X.PI, 0: half(X.PI), Fr(1, 2): scale(X.PI, Fr(1, 3)), Fr(-1, 2): scale(X.PI, Fr(2, 3))}.get(Fr(x))
        if t is not None:
            return t
    return fn("acos", x)


def asin(x):
    if is_num(x):
        t = {1: half(X.PI), -1: scale(X.PI, Fr(-1, 2)), 0: Fr(0)}.get(Fr(x))
        if t is not None:
            return t
    elif _lead_neg(x):
        return X.neg(fn("asin", X.neg(x)))
    return fn("asin", x)


def _lead_neg(x):
    c, d = mul_parts(x)
    return c < 0


def atan(x):
    if is_num(x):
        if x == 0:
            return Fr(0)
        if x in (1, -1):
            return scale(X.PI, Fr(int(x), 4))
    elif _lead_neg(x):
        return X.neg(fn("atan", X.neg(x)))
    return fn("atan", x)


def atan2(y, x):
    sy, sx = sign(y), sign(x)
    if sy == ZERO:
        if sx == POS:
            return Fr(0)
        if sx == NEG:
            return X.PI
    if sx == ZERO:
        if sy == POS:
            return half(X.PI)
        if sy == NEG:
            return scale(X.PI, Fr(-1, 2))
    # atan2 of a unit pair (sin a, cos a) with 0 < a < pi or so is left alone
    return fn("atan2", y, x)


def _hyp_pair(n, q):
    if n.k != "fn" or q.denominator != 1 or abs(q) > 8:
        return None
    x = n.a[1][0] if n.a[1] else None
    if n.a[0] == "asinh":
        c, s = sqrt(add(1, mul(x, x))), x
    elif n.a[0] == "acosh":
        c, s = x, sqrt(sub(mul(x, x), 1))
    elif n.a[0] == "atanh":
        if q % 2 == 0:
            i = powi(sub(1, mul(x, x)), -1)
            c, s = mul(add(1, mul(x, x)), i), mul(scale(x, 2), i)
            q = q / 2
        else:
            r = sqrt(sub(1, mul(x, x)))
            c, s = powi(r, -1), div(x, r)
    elif n.a[0] == "log":
        c, s = half(add(x, powi(x, -1))), half(sub(x, powi(x, -1)))
    else:
        return None
    C, S = Fr(1), Fr(0)
    for _ in range(abs(int(q))):
        C, S = add(mul(C, c), mul(S, s)), add(mul(S, c), mul(C, s))
    return (C, S) if q > 0 else (C, X.neg(S))


def cosh_sinh(x):
    if is_num(x) and x == 0:
        return Fr(1), Fr(0)
    c0, d = lin_parts(x)
    C, S = Fr(1), Fr(0)
    rest = {}
    for n, q in d.items():
        p = _hyp_pair(n, q)
        if p is None:
            rest[n] = q
            continue
        c, s = p
        C, S = add(mul(C, c), mul(S, s)), add(mul(S, c), mul(C, s))
    r = X.mk_lin(c0, rest)
    if not (is_num(r) and r == 0):
        c, d = lin_parts(r)
        lead = c if not d else d[min(d, key=lambda n: n.id)]
        if lead < 0:
            y = X.neg(r)
            c, s = fn("cosh", y), X.neg(fn("sinh", y))
        else:
            c, s = fn("cosh", r), fn("sinh", r)
        C, S = add(mul(C, c), mul(S, s)), add(mul(S, c), mul(C, s))
    return C, S


def cosh(x):
    return cosh_sinh(x)[0]


def sinh(x):
    return cosh_sinh(x)[1]


def tanh(x):
    c0, d = lin_parts(x)
    if c0 == 0 and len(d) == 1:
        n, q = next(iter(d.items()))
        if n.k == "fn" and n.a[0] == "atanh" and abs(q) == 1:
            return scale(n.a[1][0], q)
        if n.k == "fn" and n.a[0] == "log" and abs(q) == Fr(1, 2):
            t = n.a[1][0]
            return scale(div(sub(t, 1), add(t, 1)), 1 if q > 0 else -1)
        if n.k == "fn" and n.a[0] == "log" and abs(q) == Fr(1, 4):
            t = sqrt(monomial(n.a[1][0]))
            return scale(div(sub(t, 1), add(t, 1)), 1 if q > 0 else -1)
    C, S = cosh_sinh(x)
    return div(S, C)


def monomial(x):
    """the factors of a product replaced by the monomials they are recognised as"""
    c, d = mul_parts(x)
    r = c
    for b, e in d.items():
        q = CTX.recog(b) if CTX is not None else None
        if q is not None:
            m = q[0]
            for bb, ee in q[1].items():
                m = mul(m, powi(bb, ee))
            b = m
        r = mul(r, powi(b, e))
    return r


def exp(x):
    if is_num(x):
        return Fr(1) if x == 0 else fn("exp", x)
    c0, d = lin_parts(x)
    if c0 == 0 and len(d) == 1:
        n, q = next(iter(d.items()))
        if n.k == "fn" and n.a[0] == "log":
            return power(n.a[1][0], q)
    return fn("exp", x)


def log(x):
    if is_num(x):
        return Fr(0) if x == 1 else fn("log", x)
    if x.k == "fn" and x.a[0] == "exp":
        return x.a[1][0]
    return fn("log", x)


def odd_fn(name):
    def f(x):
        if is_num(x):
            if x == 0:
                return Fr(0)
        elif _lead_neg(x):
            return X.neg(fn(name, X.neg(x)))
        return fn(name, x)
    return f


asinh = odd_fn("asinh")
atanh = odd_fn("atanh")


def acosh(x):
    if is_num(x) and x == 1:
        return Fr(0)
    return fn("acosh", x)


def power(x, q):
    """x ** q"""
    if is_num(q):
        q = Fr(q)
        if q.denominator == 1:
            return powi(x, q)
        if q.denominator == 2:
            return powi(sqrt(x), q.numerator)
        if q.denominator == 4:
            return powi(sqrt(sqrt(x)), q.numerator)
        if is_num(x) and x == 0:
            return Fr(0)
        return fn("pow", x, q)
    if is_num(x) and x == -1 and is_int(q):
        c, d = lin_parts(q)
        s = Fr(-1) if c % 2 else Fr(1)
        r = X.mk_lin(0, {n: w for n, w in d.items() if w % 2})
        return scale(cos(mul(X.PI, r)), s) if not is_num(r) else s
    if is_num(x) and x > 0 or sign(x) == POS:
        return fn("pow", x, q)
    return fn("pow", x, q)


def hyp2f1b(x):
    return fn("hyp2f1b", x)


TABLE = {"sqrt": sqrt, "abs": abs_, "min": min_, "max": max_, "floor": floor_, "sign": sign_, "cos": cos, "sin": sin,
         "acos": acos, "asin": asin, "atan": atan, "atan2": atan2, "cosh": cosh, "sinh": sinh, "exp": exp, "log": log,
         "asinh": asinh, "acosh": acosh, "atanh": atanh, "pow": power}


def apply_fn(name, args):
    f = TABLE.get(name)
    return f(*args) if f else fn(name, *args)
