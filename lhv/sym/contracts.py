"""Contracts of /repo's own functions, used at their call sites (each is checked
against its body by the obligations of C10, C12 and C13)."""
from fractions import Fraction as Fr

from . import expr as X
from . import ops
from .expr import NEG, POS, ZERO, E, add, div, is_num, mul, neg, powi, scale, sub
from .extern import cross as x_cross, dot as x_dot, norm as x_norm
from .symex import Arr, Cx, Opaque, SymRaise, Vec, lit

A = "lamberthub.utils.angles"
L = "lamberthub.linalg"


def _vec(it, v):
    if isinstance(v, Vec):
        return v
    if isinstance(v, Arr) and v.shape == (3,):
        return it.to_vec(v)
    return None


def transfer_angle(it, f, b):
    """the angle in (0, 2 pi) swept from r1 to r2 about the normal of the motion"""
    ctx = it.ctx
    if not hasattr(ctx, "Q"):
        return NotImplemented
    vals = list(b.values())
    if len(vals) < 3:
        return NotImplemented
    v1, v2 = _vec(it, vals[0]), _vec(it, vals[1])
    if v1 is None or v2 is None or not isinstance(vals[2], bool):
        return NotImplemented
    if not all(is_num(v.c[2]) and v.c[2] == 0 for v in (v1, v2)):
        return NotImplemented
    if getattr(ctx, "collinear", None):
        return Fr(0) if ctx.collinear > 0 else X.PI
    same = vals[2] == ctx.prograde
    x = add(mul(v1.c[0], v2.c[0]), mul(v1.c[1], v2.c[1]))
    y = sub(mul(v1.c[0], v2.c[1]), mul(v1.c[1], v2.c[0]))
    # v1 = k1 r1, v2 = k2 r2 with k1, k2 > 0: th itself
    th = None
    if _par(ctx, v1, 1) and _par(ctx, v2, 2):
        th = ctx.th
    elif _par(ctx, v1, 2) and _par(ctx, v2, 1):
        th = sub(scale(X.PI, 2), ctx.th)
    if th is None:
        s = ctx.sign(y)
        if s not in (POS, NEG):
            return NotImplemented
        th = ops.atan2(y, x)
        if s == NEG:
            th = add(th, scale(X.PI, 2))
    return th if same else sub(scale(X.PI, 2), th)


def _par(ctx, v, k):
    if k == 1:
        return is_num(v.c[1]) and v.c[1] == 0 and ctx.sign(v.c[0]) == POS
    d = sub(mul(v.c[0], ctx.sth), mul(v.c[1], ctx.cth))
    if not (is_num(d) and d == 0 or ctx.is_zero(d)):
        return False
    return ctx.sign(div(v.c[1], ctx.sth)) == POS


def linalg_dot(it, f, b):
    a = list(b.values())
    if any(isinstance(x, Vec) for x in a[:2]):
        return x_dot(it, a[0], a[1])
    return NotImplemented


def linalg_norm(it, f, b):
    a = list(b.values())
    if isinstance(a[0], Vec):
        return x_norm(it, a[0])
    return NotImplemented


def stumpff(n):
    def h(it, f, b):
        v = list(b.values())[0]
        if isinstance(v, (Cx, Opaque)):
            return NotImplemented
        return stumpff_term(it, n, it.num(v))
    return h


def stumpff_term(it, n, z):
    """c_n(z) over the reals: n = 0..3"""
    if it.truth(lit(z, POS)):
        s = ops.sqrt(z)
        c, q = ops.cos(s), ops.sin(s)
        return {0: lambda: c, 1: lambda: div(q, s), 2: lambda: div(sub(1, c), z), 3: lambda: div(sub(s, q), mul(z, s))}[n]()
    if it.truth(lit(z, NEG)):
        m = neg(z)
        s = ops.sqrt(m)
        c, q = ops.cosh(s), ops.sinh(s)
        return {0: lambda: c, 1: lambda: div(q, s), 2: lambda: div(sub(c, 1), m), 3: lambda: div(sub(q, s), mul(m, s))}[n]()
    return {0: Fr(1), 1: Fr(1), 2: Fr(1, 2), 3: Fr(1, 6)}[n]


def negrete_series(it, f, b):
    z, order = list(b.values())[:2]
    if not is_num(order) or order not in (2, 3):
        return NotImplemented
    if isinstance(z, Cx):
        if not (is_num(z.im) and z.im == 0):
            return Cx(it.unknown("series.re"), it.unknown("series.im"))
        return Cx(stumpff_term(it, int(order), z.re))
    return stumpff_term(it, int(order), it.num(z))


def delatorre_series(it, f, b):
    k, z = list(b.values())[:2]
    if not is_num(k) or k not in (0, 1, 2, 3):
        return NotImplemented
    return stumpff_term(it, int(k), it.num(z))


def hyp(it, f, b):
    return ops.hyp2f1b(it.num(list(b.values())[0]))


def contour(it, f, b):
    deg = b.get("degree")
    if not is_num(deg):
        return NotImplemented
    n = int(deg) + 1
    return Arr((n,), [Cx(it.unknown("I%d.re" % i), it.unknown("I%d.im" % i)) for i in range(n)])


def valid(it, f, b):
    """assert_parameters_are_valid under its precondition: returns True"""
    return True


def solver(name):
    """a call of another public solver for the problem being solved: raises, or returns
    velocities that its own obligations speak about"""
    def h(it, f, b):
        if it.depth == 0 or not hasattr(it.ctx, "problem") or b.get("full_output") is not False:
            return NotImplemented
        for k, v in it.ctx.problem.items():
            w = b.get(k)
            if k in ("r1", "r2"):
                w = _vec(it, w)
                if w is None or any(x is not y for x, y in zip(w.c, v.c) if not (is_num(x) and is_num(y) and x == y)):
                    return NotImplemented
            elif w is not v and not (is_num(v) and not isinstance(v, bool) and is_num(w) and not isinstance(w, bool) and w == v):
                return NotImplemented
        for e in ("ValueError", "RuntimeError"):
            if it.truth(lit(it.unknown(name + ".raises"), POS)):
                raise SymRaise(e, "by " + name, it.where())
        out = []
        for i in (1, 2):
            v = Vec([it.unknown("%s.v%d.%s" % (name, i, c)) for c in "xyz"])
            v.by_contract = (name, i)
            out.append(v)
        return tuple(out)
    return h


NG = "lamberthub.universal_solvers.negrete"
SOLVER = {
    (A, "get_transfer_angle"): transfer_angle,
    (L, "dot"): linalg_dot,
    (L, "norm"): linalg_norm,
    ("lamberthub.utils.stumpff", "c2"): stumpff(2),
    ("lamberthub.utils.stumpff", "c3"): stumpff(3),
    (NG, "_stumpff_series"): negrete_series,
    (NG, "_contour_integrals"): contour,
    ("lamberthub.regularization.delatorre", "_stumpff"): delatorre_series,
    ("lamberthub.universal_solvers.izzo", "hyp2f1b"): hyp,
}
