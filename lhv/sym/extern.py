"""Contracts of the functions /repo calls but does not contain: builtins, math,
time, numpy and scipy, over the real numbers."""
import math
from fractions import Fraction as Fr

from . import arith
from . import expr as X
from . import ops
from .arith import binop, broadcast, compare, dot_list, matmul, nonzero
from .expr import ANY, E, NEG, POS, ZERO, add, div, is_num, mul, neg, powi, scale, sub
from .symex import (AbsSeq, Arr, B, Bound, Closure, Cx, ExcVal, Ext, NotShape3, Opaque, RangeV, Record, SymRaise, Unsupported, Vec,
                    VecEq, b_and, b_not, b_or, lit, EXC_PARENTS)

BUILTINS = {"abs", "min", "max", "sum", "len", "range", "enumerate", "zip", "list", "tuple", "dict", "int", "float", "bool",
            "complex", "isinstance", "all", "any", "map", "filter", "sorted", "reversed", "round", "pow", "print", "type", "hasattr",
            "getattr", "str", "repr", "id", "iter", "next", "set", "callable", "divmod", "hash", "vars", "globals", "setattr", "slice", "super"}

TIMES = {"time.perf_counter", "time.time", "time.monotonic", "time.process_time", "time.perf_counter_ns"}
NONDET = ("numpy.random.", "random.", "os.", "datetime.", "uuid.", "secrets.", "builtins.id", "builtins.hash")

CONSTS = {"numpy.pi": lambda: X.PI, "math.pi": lambda: X.PI, "numpy.e": lambda: ops.exp(Fr(1)), "numpy.inf": lambda: math.inf,
          "math.inf": lambda: math.inf, "numpy.nan": lambda: math.nan, "math.nan": lambda: math.nan, "numpy.Inf": lambda: math.inf,
          "numpy.newaxis": lambda: None, "math.tau": lambda: scale(X.PI, 2), "math.e": lambda: ops.exp(Fr(1)),
          "scipy.constants.pi": lambda: X.PI}

EPS = Fr(1, 2 ** 52)


def unary(f, cf=None):
    def g(it, x):
        return elementwise(it, x, lambda v: one(it, v, f, cf))
    return g


def elementwise(it, x, f):
    if isinstance(x, (list, tuple)):
        x = it.to_arr(x)
    if isinstance(x, Vec):
        x = it.vec_to_arr(x)
    if isinstance(x, Arr):
        return Arr(x.shape, [f(v) for v in x.data])
    if isinstance(x, AbsSeq):
        return AbsSeq("fn")
    return f(x)


def one(it, v, f, cf):
    if isinstance(v, Cx):
        if cf is None:
            raise Unsupported("complex function")
        return cf(it, v)
    if isinstance(v, Opaque) or not isinstance(v, float):
        return f(it, it.num(v))
    return f(it, v)


def infinite(v, pos, negv):
    if v != v:
        return math.nan
    r = pos if v > 0 else negv
    return r


def real_fn(g, dom=None, inf=None):
    """g over E; dom(x) = (term, mask) that must hold for a real result"""
    def f(it, v):
        if isinstance(v, float):
            if inf is None:
                return math.nan
            return infinite(v, *inf)
        if dom is not None and not is_num(v):
            for t, m in dom(v):
                require(it, t, m)
        elif dom is not None:
            for t, m in dom(v):
                s = POS if t > 0 else NEG if t < 0 else ZERO
                if not s & m:
                    return math.nan
        return g(v)
    return f


def require(it, t, mask):
    """domain of a real function: outside it the real code produces nan"""
    if it.ctx is None:
        return
    if is_num(t):
        return
    s = it.ctx.sign(t, False)
    if s & ~mask:
        it.partial.append(("domain", t, it.where()))
        if s & mask:
            it.ctx.assume(t, mask)


NN = POS | ZERO


def f_sqrt(it, v):
    if isinstance(v, float):
        return v if v > 0 else math.nan
    if is_num(v):
        if v < 0:
            return math.nan
    else:
        s = it.ctx.sign(v, False)
        if not s & NN:
            from .symex import Prune
            it.partial.append(("domain", v, it.where()))
            return math.nan
        require(it, v, NN)
    return ops.sqrt(v)


def c_sqrt(it, z):
    if arith.cz(z.im):
        s = it.ctx.sign(z.re) if not is_num(z.re) else (NN if z.re >= 0 else NEG)
        if not s & NEG or it.truth(lit(z.re, NN)):
            return Cx(ops.sqrt(z.re))
        return Cx(Fr(0), ops.sqrt(neg(z.re)))
    return Cx(it.unknown("csqrt.re"), it.unknown("csqrt.im"))


def c_cos(it, z):
    if arith.cz(z.im):
        return Cx(ops.cos(z.re))
    if arith.cz(z.re):
        return Cx(ops.cosh(z.im))
    return Cx(mul(ops.cos(z.re), ops.cosh(z.im)), neg(mul(ops.sin(z.re), ops.sinh(z.im))))


def c_sin(it, z):
    if arith.cz(z.im):
        return Cx(ops.sin(z.re))
    if arith.cz(z.re):
        return Cx(Fr(0), ops.sinh(z.im))
    return Cx(mul(ops.sin(z.re), ops.cosh(z.im)), mul(ops.cos(z.re), ops.sinh(z.im)))


def c_exp(it, z):
    if arith.cz(z.im):
        return Cx(ops.exp(z.re))
    e = Fr(1) if arith.cz(z.re) else ops.exp(z.re)
    return Cx(mul(e, ops.cos(z.im)), mul(e, ops.sin(z.im)))


def c_log(it, z):
    if arith.cz(z.im) and it.truth(lit(z.re, POS)):
        return Cx(ops.log(z.re))
    return Cx(it.unknown("clog.re"), it.unknown("clog.im"))


def c_abs(it, z):
    if arith.cz(z.im):
        return ops.abs_(z.re)
    if arith.cz(z.re):
        return ops.abs_(z.im)
    return ops.sqrt(add(mul(z.re, z.re), mul(z.im, z.im)))


def c_unknown(name):
    return lambda it, z: Cx(it.unknown(name + ".re"), it.unknown(name + ".im"))


def f_sign(it, v):
    if isinstance(v, float):
        return infinite(v, Fr(1), Fr(-1))
    if is_num(v):
        return Fr((v > 0) - (v < 0))
    s = it.ctx.sign(v)
    if s in (POS, NEG, ZERO):
        return Fr(1 if s == POS else -1 if s == NEG else 0)
    if it.truth(lit(v, POS)):
        return Fr(1)
    return Fr(0) if it.truth(lit(v, ZERO)) else Fr(-1)


UN = {
    "sqrt": (f_sqrt, c_sqrt),
    "sin": (real_fn(ops.sin), c_sin), "cos": (real_fn(ops.cos), c_cos), "tan": (real_fn(ops.tan), None),
    "arcsin": (real_fn(ops.asin, lambda x: [(sub(1, x), NN), (add(1, x), NN)]), None),
    "arccos": (real_fn(ops.acos, lambda x: [(sub(1, x), NN), (add(1, x), NN)]), None),
    "arctan": (real_fn(ops.atan, inf=(div(X.PI, 2), neg(div(X.PI, 2)))), None),
    "arcsinh": (real_fn(ops.asinh, inf=(math.inf, -math.inf)), None),
    "arccosh": (real_fn(ops.acosh, lambda x: [(sub(x, 1), NN)], inf=(math.inf, math.nan)), None),
    "arctanh": (real_fn(ops.atanh, lambda x: [(sub(1, x), POS), (add(1, x), POS)]), None),
    "sinh": (real_fn(ops.sinh, inf=(math.inf, -math.inf)), None), "cosh": (real_fn(ops.cosh, inf=(math.inf, math.inf)), None),
    "tanh": (real_fn(ops.tanh, inf=(Fr(1), Fr(-1))), None),
    "exp": (real_fn(ops.exp, inf=(math.inf, Fr(0))), c_exp),
    "log": (real_fn(ops.log, lambda x: [(x, POS)], inf=(math.inf, math.nan)), c_log),
    "log1p": (real_fn(lambda x: ops.log(add(1, x))), None), "expm1": (real_fn(lambda x: sub(ops.exp(x), 1)), None),
    "floor": (real_fn(ops.floor_), None), "ceil": (real_fn(lambda x: neg(ops.floor_(neg(x)))), None),
    "abs": (real_fn(ops.abs_, inf=(math.inf, math.inf)), c_abs), "sign": (f_sign, c_unknown("csign")),
    "square": (real_fn(lambda x: mul(x, x)), lambda it, z: arith.cx_mul(z, z)),
    "negative": (lambda it, x: it.neg(x), lambda it, z: it.neg(z)), "positive": (lambda it, x: x, lambda it, z: z),
    "reciprocal": (lambda it, x: binop(it, "Div", Fr(1), x), None),
    "deg2rad": (real_fn(lambda x: div(mul(x, X.PI), 180)), None), "rad2deg": (real_fn(lambda x: div(mul(x, 180), X.PI)), None),
    "cbrt": (real_fn(lambda x: ops.power(x, Fr(1, 3)), lambda x: [(x, NN)]), None),
    "real": (lambda it, x: x, lambda it, z: z.re), "imag": (lambda it, x: Fr(0), lambda it, z: z.im),
    "conj": (lambda it, x: x, lambda it, z: Cx(z.re, neg(z.im))),
    "isfinite": (lambda it, x: not (isinstance(x, float)), lambda it, z: True),
    "isnan": (lambda it, x: isinstance(x, float) and x != x, lambda it, z: False),
    "isinf": (lambda it, x: isinstance(x, float) and x == x, lambda it, z: False),
    "nan_to_num": (lambda it, x: x, lambda it, z: z), "trunc": (real_fn(lambda x: mul(ops.sign_(x), ops.floor_(ops.abs_(x)))), None),
    "rint": (real_fn(lambda x: ops.floor_(add(x, Fr(1, 2)))), None),
}
for _a, _b in (("absolute", "abs"), ("fabs", "abs"), ("radians", "deg2rad"), ("degrees", "rad2deg"), ("asin", "arcsin"), ("acos", "arccos"),
               ("atan", "arctan"), ("asinh", "arcsinh"), ("acosh", "arccosh"), ("atanh", "arctanh"), ("conjugate", "conj")):
    UN[_a] = UN[_b]

BIN = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow", "float_power": "Pow",
       "mod": "Mod", "remainder": "Mod", "floor_divide": "FloorDiv", "matmul": "MatMult"}
CMP = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE"}


def mm(it, name, a, b):
    """min / max of two scalars"""
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return math.nan
        lt = compare(it, "Lt", a, b)
        return (a if lt else b) if name == "min" else (b if lt else a)
    a, b = it.num(a), it.num(b)
    return ops.min_(a, b) if name == "min" else ops.max_(a, b)


def fold_mm(it, name, xs):
    xs = list(xs)
    if not xs:
        raise SymRaise("ValueError", "empty sequence", it.where())
    r = xs[0]
    for x in xs[1:]:
        if r is None or x is None:
            raise SymRaise("TypeError", "min/max of None", it.where())
        r = mm(it, name, r, x)
    return r


def flat(it, v):
    if isinstance(v, (list, tuple)):
        v = it.to_arr(v)
    if isinstance(v, Vec):
        v = it.vec_to_arr(v)
    if isinstance(v, Arr):
        return v.data
    return [v]


def norm(it, v):
    if isinstance(v, (list, tuple)):
        v = it.to_arr(v)
    if isinstance(v, Opaque):
        return it.unknown("norm")
    if isinstance(v, Vec):
        t = Fr(0)
        for x in v.c:
            t = add(t, mul(x, x))
        return ops.sqrt(t)
    if isinstance(v, Arr):
        t = Fr(0)
        for x in v.data:
            t = binop(it, "Add", t, binop(it, "Mult", x, x))
        return f_sqrt(it, it.num(t))
    return ops.abs_(it.num(v))


def dot(it, a, b):
    if isinstance(a, Vec) and isinstance(b, (Arr, list, tuple)) and len(flat(it, b)) == 3:
        b = it.to_vec(it.to_arr(b))
    if isinstance(b, Vec) and isinstance(a, (Arr, list, tuple)) and len(flat(it, a)) == 3 and not (isinstance(a, Arr) and len(a.shape) == 2):
        a = it.to_vec(it.to_arr(a))
    if isinstance(a, Vec) and isinstance(b, Vec):
        return dot_list(it, a.c, b.c)
    if arith.scalar(a) or arith.scalar(b):
        return binop(it, "Mult", a, b)
    return matmul(it, a, b)


def cross(it, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("cross")
    def cr(x, y):
        return [sub(mul(x[1], y[2]), mul(x[2], y[1])), sub(mul(x[2], y[0]), mul(x[0], y[2])), sub(mul(x[0], y[1]), mul(x[1], y[0]))]
    if isinstance(a, Vec) or isinstance(b, Vec):
        return Vec(cr(it.to_vec(it.to_arr(a) if not isinstance(a, Vec) else a).c, it.to_vec(it.to_arr(b) if not isinstance(b, Vec) else b).c))
    a, b = it.to_arr(a), it.to_arr(b)
    if a.shape != (3,) or b.shape != (3,):
        raise SymRaise("ValueError", "incompatible dimensions for cross product", it.where())
    return Arr((3,), cr([it.num(x) for x in a.data], [it.num(x) for x in b.data]))


def isclose(it, a, b, rtol=Fr(1, 10 ** 5), atol=Fr(1, 10 ** 8), equal_nan=False):
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, float) and isinstance(b, float) and a == b
    a, b = arith.to_cx(it, a) if isinstance(a, Cx) else a, b
    d = binop(it, "Sub", a, b)
    d = c_abs(it, d) if isinstance(d, Cx) else ops.abs_(it.num(d))
    bb = c_abs(it, b) if isinstance(b, Cx) else ops.abs_(it.num(b))
    return lit(sub(d, add(it.num(atol), mul(it.num(rtol), bb))), NEG | ZERO)


def truth_all(it, v, ne=False):
    """np.all / np.any as one condition"""
    if isinstance(v, VecEq):
        n2 = Fr(0)
        for x in v.d.c:
            n2 = add(n2, mul(x, x))
        if not ne:                      # all
            if not v.ne:
                return lit(n2, ZERO)
            r = True
            for x in it.vec_to_arr(v.d).data:
                r = b_and(r, lit(x, NEG | POS))
            return r
        if v.ne:                        # any different
            return lit(n2, NEG | POS)
        r = False
        for x in it.vec_to_arr(v.d).data:
            r = b_or(r, lit(x, ZERO))
        return r
    if isinstance(v, Vec):
        n2 = Fr(0)
        for x in v.c:
            n2 = add(n2, mul(x, x))
        if ne:
            return lit(n2, NEG | POS)
    if isinstance(v, (AbsSeq, Opaque)):
        return it.choose(2, "all") == 0
    r = not ne
    for x in flat(it, v):
        x = x if isinstance(x, (bool, B)) else b_not(compare(it, "Eq", x, Fr(0)))
        r = b_or(r, x) if ne else b_and(r, x)
    return r


def make(it, shape, v):
    if isinstance(shape, (tuple, list)):
        sh = tuple(it.as_int(s) for s in shape) if all(is_num(s) for s in shape) else None
    else:
        sh = (int(shape),) if is_num(shape) else None
    if sh is None:
        return AbsSeq("array")
    n = 1
    for s in sh:
        n *= s
    if n > 400:
        return AbsSeq("array")
    return Arr(sh, [v] * n)


def asarray(it, v, copy):
    if isinstance(v, (Opaque, AbsSeq)):
        return v
    if isinstance(v, Vec):
        return Vec(v.c, None if copy else v.origin) if copy else v
    if isinstance(v, Arr) and not copy:
        return v
    a = it.to_arr(v)
    return Arr(a.shape, a.data)


def to_int(it, x):
    x = it.num(x)
    if is_num(x):
        return Fr(math.trunc(x))
    if ops.is_int(x):
        return x
    return mul(f_sign(it, x), ops.floor_(ops.abs_(x)))


def tight(it, x):
    """a tolerance: small, or made of atol and rtol"""
    from .symex import TINY
    x = it.num(x)
    if is_num(x):
        return x <= TINY
    return bool(X.variables(x) & {"atol", "rtol"})


def brentq(it, args, kw):
    f, a, b = args[0], args[1], args[2]
    extra = list(it.iterate(kw.get("args", ())))
    full = kw.get("full_output", False)
    disp = kw.get("disp", True)
    it.nloop += 1
    rec = {"kind": "brentq", "where": it.where(), "exit": None}
    it.loops.append(rec)
    k = it.choose(3, "brentq")
    if k == 1:
        rec["exit"] = "ValueError"
        raise SymRaise("ValueError", "f(a) and f(b) must have different signs", it.where())
    if k == 2:
        rec["exit"] = "unconverged"
        if disp is False:
            r = it.fresh("brent")
            return (r, Record(converged=False, iterations=it.fresh("brent.it", POS, integer=True), root=r)) if full is True else r
        raise SymRaise("RuntimeError", "Failed to converge", it.where())
    it.call(f, [a] + extra, {})
    r = it.fresh("brent")
    for lo, hi in ((a, b),):
        if not isinstance(lo, float) and not isinstance(hi, float):
            # either order of the ends
            lo, hi = it.num(lo), it.num(hi)
            w = sub(hi, lo)
            s = it.ctx.sign(w)
            if s == POS:
                it.ctx.assume(sub(r, lo), NN)
                it.ctx.assume(sub(hi, r), NN)
            elif s == NEG:
                it.ctx.assume(sub(r, hi), NN)
                it.ctx.assume(sub(lo, r), NN)
    v = it.call(f, [r] + extra, {})
    rec["exit"] = "root"
    if isinstance(v, float):
        from .symex import Prune
        raise Prune()
    it.conv.append(("brentq", it.num(v), it.where(), dict(kw)))
    if all(tight(it, x) for x in [kw[k] for k in ("xtol", "rtol") if k in kw] + args[3:5]):
        it.met |= {r.id}
    if full is True:
        return (r, Record(converged=True, iterations=it.fresh("brent.it", POS, integer=True), root=r))
    return r


def minimize_scalar(it, args, kw):
    f = args[0]
    it.nloop += 1
    it.loops.append({"kind": "minimize", "where": it.where(), "exit": None})
    x = it.fresh("argmin")
    b = kw.get("bounds")
    if b is not None:
        b = list(it.iterate(b))
        it.ctx.assume(sub(x, it.num(b[0])), NN)
        it.ctx.assume(sub(it.num(b[1]), x), NN)
    v = it.call(f, [x], {})
    ok = it.choose(2, "minimize") == 0
    return Record(x=x, fun=v, success=ok, nit=Opaque("nit"), message="")


def call(it, name, args, kw):
    """call of an external function by its qualified name"""
    if name.startswith("mod:"):
        raise Unsupported("call of a module")
    root, _, fn_ = name.rpartition(".")
    if name in TIMES:
        it.events.append(("clock", name, "", it.where()))
        it.nperf = getattr(it, "nperf", 0) + 1
        return it.fresh("perf")
    if name.startswith(NONDET):
        it.events.append(("nondeterminism", name, "", it.where()))
        return it.unknown(fn_)
    if name.startswith("class:") or fn_ in EXC_PARENTS:
        return ExcVal(fn_.split(":")[-1], args[0] if args and isinstance(args[0], str) else "")
    if root == "builtins":
        return builtin(it, fn_, args, kw)
    if root in ("numpy", "numpy.linalg", "math", "cmath", "numpy.lib.scimath", "scipy.linalg", "numpy.ma"):
        return numpy_call(it, root, fn_, args, kw)
    if name == "scipy.optimize.brentq" or name in ("scipy.optimize.brenth", "scipy.optimize.ridder", "scipy.optimize.bisect",
                                                   "scipy.optimize.toms748"):
        return brentq(it, args, kw)
    if name == "scipy.optimize.minimize_scalar":
        return minimize_scalar(it, args, kw)
    if root.startswith("numba"):
        if len(args) == 1 and isinstance(args[0], Closure):
            return args[0]
        return Ext("numba.identity")
    if name in ("functools.wraps", "contextlib.suppress", "numpy.errstate", "warnings.catch_warnings"):
        return Opaque(name)
    if root.startswith(("warnings", "logging")):
        return None
    return it.unknown(name)


def numpy_call(it, root, f, args, kw):
    if root == "numpy.linalg" or root == "scipy.linalg":
        if f == "norm" and len(args) == 1 and not kw:
            return norm(it, args[0])
        if f in ("cross",):
            return cross(it, args[0], args[1])
        if f == "det":
            a = it.to_arr(args[0])
            if a.shape == (3, 3):
                r = [[it.num(a.data[3 * i + j]) for j in range(3)] for i in range(3)]
                c = cross(it, Arr((3,), r[1]), Arr((3,), r[2]))
                return dot_list(it, r[0], c.data)
        raise Unsupported("numpy.linalg." + f)
    if root == "math":
        if f == "pow":
            return binop(it, "Pow", args[0], args[1])
        if f == "factorial" and is_num(args[0]):
            return Fr(math.factorial(int(args[0])))
        if f == "gamma":
            x = args[0]
            if is_num(x) and Fr(x).denominator == 1 and x > 0:
                return Fr(math.factorial(int(x) - 1))
            return it.unknown("gamma")
        if f == "fsum":
            return builtin(it, "sum", args, {})
        if f == "dist":
            return norm(it, binop(it, "Sub", it.to_arr(args[0]) if not isinstance(args[0], Vec) else args[0], args[1]))
    out = kw.pop("out", None)
    if out is not None and not isinstance(out, (tuple, list)):
        kw = {k: v for k, v in kw.items()}
        r = numpy_call(it, root, f, args, kw)
        it.mutate(out, "out= argument")
        if isinstance(out, Vec):
            out.c = (r if isinstance(r, Vec) else it.to_vec(it.to_arr(r))).c
        elif isinstance(out, Arr):
            out.data = list(it.to_arr(r).data)
        return out
    kw.pop("dtype", None)
    if f in UN and len(args) == 1:
        if f == "abs" and isinstance(args[0], Opaque):
            return ops.abs_(it.num(args[0]))
        if f in ("isfinite", "isnan", "isinf") and isinstance(args[0], (Opaque, AbsSeq)):
            return it.choose(2, f) == 0 if isinstance(args[0], AbsSeq) else True if f == "isfinite" else False
        if f == "negative" and isinstance(args[0], Vec):
            return it.neg(args[0])
        if f in ("real", "conj", "positive") and isinstance(args[0], Vec):
            return args[0]
        return unary(*UN[f])(it, args[0])
    if f in BIN and len(args) >= 2:
        return binop(it, BIN[f], args[0], args[1])
    if f in CMP:
        return compare(it, CMP[f], args[0], args[1])
    if f in ("arctan2", "atan2"):
        def at(y, x):
            if isinstance(y, float) or isinstance(x, float):
                return math.nan
            return ops.atan2(it.num(y), it.num(x))
        if isinstance(args[0], (Arr, Vec)) or isinstance(args[1], (Arr, Vec)):
            return broadcast(it, at, it.to_arr(args[0]), it.to_arr(args[1]))
        return at(args[0], args[1])
    if f == "hypot":
        a, b = it.num(args[0]), it.num(args[1])
        return ops.sqrt(add(mul(a, a), mul(b, b)))
    if f == "copysign":
        a, b = args
        m = one(it, a, UN["abs"][0], None)
        if isinstance(b, float):
            return m if b > 0 else it.neg(m)
        return m if it.truth(lit(it.num(b), NN)) else it.neg(m)
    if f in ("minimum", "maximum", "fmin", "fmax"):
        nm = "min" if f.endswith(("minimum", "min")) else "max"
        a, b = args
        if arith.scalar(a) and arith.scalar(b) or isinstance(a, Opaque) or isinstance(b, Opaque):
            return mm(it, nm, a, b)
        return broadcast(it, lambda x, y: mm(it, nm, x, y), it.to_arr(a), it.to_arr(b))
    if f in ("min", "max", "amin", "amax", "nanmin", "nanmax"):
        if isinstance(args[0], (AbsSeq, Opaque)):
            return it.unknown(f)
        return fold_mm(it, "min" if "min" in f else "max", flat(it, args[0]))
    if f in ("argmin", "argmax", "searchsorted"):
        return Opaque(f)
    if f == "clip":
        lo, hi = (list(args[1:]) + [kw.get("a_min"), kw.get("a_max")])[:2] if len(args) < 3 else args[1:3]
        x = args[0]
        if not arith.scalar(x) and not isinstance(x, Opaque):
            return elementwise(it, x, lambda v: clip(it, v, lo, hi))
        return clip(it, x, lo, hi)
    if f == "isclose":
        a, b = args[0], args[1]
        k = dict(kw)
        if len(args) > 2:
            k["rtol"] = args[2]
        if len(args) > 3:
            k["atol"] = args[3]
        k.pop("equal_nan", None)
        k = {("rtol" if kk == "rel_tol" else "atol" if kk == "abs_tol" else kk): v for kk, v in k.items()}
        if root == "math" and "atol" not in k:
            k["atol"] = Fr(0)
        if isinstance(a, (Arr, Vec)) or isinstance(b, (Arr, Vec)):
            return broadcast(it, lambda x, y: isclose(it, x, y, **k), it.to_arr(a), it.to_arr(b))
        return isclose(it, a, b, **k)
    if f == "allclose":
        k = dict(kw)
        return truth_all(it, broadcast(it, lambda x, y: isclose(it, x, y, **k), it.to_arr(args[0]), it.to_arr(args[1])))
    if f in ("all", "any"):
        return truth_all(it, args[0], f == "any")
    if f in ("array_equal", "array_equiv"):
        a, b = args[0], args[1]
        if isinstance(a, (list, tuple)):
            a = it.to_arr(a)
        if isinstance(b, (list, tuple)):
            b = it.to_arr(b)
        if isinstance(a, NotShape3) or isinstance(b, NotShape3):
            return it.choose(2, f) == 0
        if isinstance(a, Arr) and isinstance(b, Arr) and a.shape != b.shape:
            return False
        return truth_all(it, compare(it, "Eq", a, b))
    if f == "count_nonzero":
        t = Fr(0)
        for x in flat(it, args[0]):
            t = t + (1 if it.truth(b_not(compare(it, "Eq", x, Fr(0)))) else 0)
        return t
    if f in ("array", "asarray", "ascontiguousarray", "copy", "asfarray", "atleast_1d", "squeeze", "ravel", "asanyarray", "require"):
        if isinstance(args[0], Arr) and f in ("ravel",):
            return Arr((len(args[0].data),), args[0].data)
        if f == "asarray" and arith.scalar(args[0]):
            return args[0]
        return asarray(it, args[0], f in ("array", "copy") and kw.get("copy", True) is not False)
    if f in ("zeros", "empty"):
        return make(it, args[0] if args else kw["shape"], Fr(0))
    if f == "ones":
        return make(it, args[0], Fr(1))
    if f == "full":
        return make(it, args[0], args[1])
    if f in ("zeros_like", "empty_like", "ones_like"):
        v = Fr(1) if f == "ones_like" else Fr(0)
        if isinstance(args[0], Vec):
            return Arr((3,), [v] * 3)
        if isinstance(args[0], Arr):
            return Arr(args[0].shape, [v] * len(args[0].data))
        return v
    if f in ("eye", "identity"):
        n = it.as_int(args[0])
        return Arr((n, n), [Fr(int(i == j)) for i in range(n) for j in range(n)])
    if f in ("dot", "vdot", "inner"):
        return dot(it, args[0], args[1])
    if f == "cross":
        return cross(it, args[0], args[1])
    if f == "outer":
        a, b = it.to_arr(args[0]), it.to_arr(args[1])
        return Arr((len(a.data), len(b.data)), [binop(it, "Mult", x, y) for x in a.data for y in b.data])
    if f in ("sum", "prod"):
        if isinstance(args[0], (AbsSeq, Opaque)):
            return it.unknown(f)
        t = Fr(0) if f == "sum" else Fr(1)
        for x in flat(it, args[0]):
            t = binop(it, "Add" if f == "sum" else "Mult", t, x)
        return t
    if f == "where" and len(args) == 3:
        c = args[0]
        if isinstance(c, (bool, B)):
            return args[1] if it.truth(c) else args[2]
        if isinstance(c, Arr):
            a, b = it.to_arr(args[1]), it.to_arr(args[2])
            a = broadcast(it, lambda x, y: y, c, a)
            b = broadcast(it, lambda x, y: y, c, b)
            return Arr(c.shape, [x if it.truth(t) else y for t, x, y in zip(c.data, a.data, b.data)])
    if f in ("linspace", "arange", "geomspace", "logspace"):
        n = args[2] if len(args) > 2 else kw.get("num", Fr(50))
        if f == "linspace" and is_num(n) and n <= 12 and n >= 2 and kw.get("endpoint", True) is True:
            n = int(n)
            d = binop(it, "Div", binop(it, "Sub", args[1], args[0]), Fr(n - 1))
            return Arr((n,), [binop(it, "Add", args[0], binop(it, "Mult", d, Fr(i))) for i in range(n)])
        if f == "arange" and all(is_num(a) for a in args) and len(args) <= 2:
            r = range(*[int(a) for a in args])
            if len(r) <= 400:
                return Arr((len(r),), [Fr(i) for i in r])
        return AbsSeq(f)
    if f in ("complex128", "complex64", "complex"):
        return arith.to_cx(it, args[0]) if args else Cx(Fr(0))
    if f in ("float64", "float32", "double", "longdouble", "int64", "int32"):
        v = args[0] if args else Fr(0)
        if isinstance(v, Cx):
            raise SymRaise("TypeError", "complex to float", it.where())
        return to_int(it, v) if f.startswith("int") else v
    if f in ("bool_",):
        return it.truth(args[0])
    if f == "finfo":
        return Record(eps=EPS, max=Fr(2) ** 1023, tiny=Fr(1, 2 ** 1022), min=-Fr(2) ** 1023)
    if f == "spacing":
        return it.unknown("spacing")
    if f == "errstate":
        return Opaque("errstate")
    if f == "sinc":
        x = mul(it.num(args[0]), X.PI)
        if it.truth(lit(x, ZERO)):
            return Fr(1)
        return div(ops.sin(x), x)
    if f == "transpose":
        return attribute(it, args[0], "T")
    if f in ("stack", "vstack", "row_stack"):
        return it.to_arr(args[0])
    if f in ("hstack", "concatenate"):
        d = []
        for x in args[0]:
            d += flat(it, x)
        return Arr((len(d),), d)
    if f == "column_stack":
        return attribute(it, it.to_arr(args[0]), "T")
    if f == "diag":
        a = flat(it, args[0])
        n = len(a)
        return Arr((n, n), [a[i] if i == j else Fr(0) for i in range(n) for j in range(n)])
    if f in ("shape",):
        return attribute(it, args[0], "shape")
    if f in ("ndim", "size"):
        return attribute(it, args[0], f)
    if f == "isscalar":
        return arith.scalar(args[0])
    if f == "fmod":
        a, b = it.num(args[0]), it.num(args[1])
        q = div(a, b)
        return sub(a, mul(b, mul(f_sign(it, q), ops.floor_(ops.abs_(q)))))
    if f == "round":
        return it.unknown("round")
    if f in ("seterr", "set_printoptions"):
        it.events.append(("state", "numpy." + f, "", it.where()))
        return Opaque(f)
    if f == "copyto":
        it.mutate(args[0], "copyto")
        if isinstance(args[0], Vec):
            args[0].c = it.to_vec(it.to_arr(args[1]) if not isinstance(args[1], Vec) else args[1]).c
        return None
    if f == "polyval":
        t = Fr(0)
        for c in flat(it, args[0]):
            t = binop(it, "Add", binop(it, "Mult", t, args[1]), c)
        return t
    return it.unknown("numpy." + f)


def clip(it, x, lo, hi):
    if isinstance(x, float) or isinstance(lo, float) or isinstance(hi, float):
        if isinstance(x, float) and x != x:
            return math.nan
        if lo is not None and not (isinstance(lo, float) and lo < 0):
            x = mm(it, "max", x, lo)
        if hi is not None and not (isinstance(hi, float) and hi > 0):
            x = mm(it, "min", x, hi)
        return x
    x = it.num(x)
    if lo is not None:
        x = mm(it, "max", x, lo)
    if hi is not None:
        x = mm(it, "min", x, hi)
    return x


def builtin(it, f, args, kw):
    if f == "abs":
        if isinstance(args[0], (Arr, Vec)):
            return unary(*UN["abs"])(it, args[0])
        return one(it, args[0], *UN["abs"])
    if f in ("min", "max"):
        xs = args if len(args) > 1 else it.iterate(args[0]) if not isinstance(args[0], (AbsSeq, Opaque)) else None
        if xs is None:
            return it.unknown(f)
        if "key" in kw:
            return Opaque(f)
        return fold_mm(it, f, xs)
    if f == "sum":
        if isinstance(args[0], (AbsSeq, Opaque)):
            return it.unknown("sum")
        t = args[1] if len(args) > 1 else Fr(0)
        for x in it.iterate(args[0]):
            t = binop(it, "Add", t, x)
        return t
    if f == "len":
        v = args[0]
        if isinstance(v, (list, tuple, dict, str)):
            return Fr(len(v))
        if isinstance(v, Vec):
            return Fr(3)
        if isinstance(v, Arr):
            if not v.shape:
                raise SymRaise("TypeError", "len() of unsized object", it.where())
            return Fr(v.shape[0])
        if isinstance(v, RangeV):
            return sub(v.stop, v.start)
        return it.fresh("len", POS | ZERO, integer=True)
    if f == "range":
        a = [it.num(x) for x in args]
        if len(a) == 1:
            return RangeV(Fr(0), a[0], Fr(1))
        return RangeV(a[0], a[1], a[2] if len(a) > 2 else Fr(1))
    if f in ("enumerate", "zip", "reversed", "sorted", "map", "filter", "list", "tuple", "set", "iter"):
        if f == "map":
            seqs = args[1:]
        elif f == "filter":
            seqs = args[1:]
        else:
            seqs = args
        if any(isinstance(s, (AbsSeq, Opaque)) or isinstance(s, RangeV) and not s.concrete() for s in seqs):
            if f == "map":
                it.call(args[0], [it.unknown("item") for _ in seqs], {})
            return AbsSeq(f)
        seqs = [list(it.iterate(s)) for s in seqs]
        if f == "enumerate":
            st = int(kw.get("start", args[1] if len(args) > 1 else 0)) if len(args) < 2 else int(args[1])
            return [(Fr(i + st), x) for i, x in enumerate(seqs[0])]
        if f == "zip":
            return [tuple(t) for t in zip(*seqs)]
        if f == "reversed":
            return seqs[0][::-1]
        if f == "map":
            return [it.call(args[0], list(t), {}) for t in zip(*seqs)]
        if f == "filter":
            return [x for x in seqs[0] if it.truth(it.call(args[0], [x], {}) if args[0] is not None else x)]
        if f == "sorted":
            xs = seqs[0]
            if len(xs) == 2 and not kw:
                lt = it.truth(compare(it, "LtE", xs[0], xs[1]))
                return xs if lt else xs[::-1]
            if len(xs) <= 1:
                return xs
            raise Unsupported("sorted")
        if f == "tuple":
            return tuple(seqs[0]) if seqs else ()
        return seqs[0] if seqs else []
    if f == "dict":
        d = dict(args[0]) if args and isinstance(args[0], dict) else {}
        if args and not isinstance(args[0], dict):
            for k, v in it.iterate(args[0]):
                d[it.key(k)] = v
        d.update(kw)
        return d
    if f == "int":
        return to_int(it, args[0]) if not isinstance(args[0], float) else it.unknown("int")
    if f == "float":
        v = args[0] if args else Fr(0)
        if isinstance(v, str):
            return math.inf if "inf" in v and "-" not in v else -math.inf if "inf" in v else math.nan if "nan" in v else Fr(v)
        if isinstance(v, Cx):
            raise SymRaise("TypeError", "complex to float", it.where())
        return v if isinstance(v, float) else it.num(v)
    if f == "bool":
        return it.truth(args[0])
    if f == "complex":
        if len(args) == 2:
            return Cx(it.num(args[0]), it.num(args[1]))
        return arith.to_cx(it, args[0])
    if f in ("all", "any"):
        if isinstance(args[0], (AbsSeq, Opaque)):
            return it.choose(2, f) == 0
        r = f == "all"
        for x in it.iterate(args[0]):
            t = it.truth(x)
            if t != r:
                return t
        return r
    if f == "isinstance":
        return isinst(it, args[0], args[1])
    if f == "round":
        return it.unknown("round")
    if f == "pow":
        return binop(it, "Pow", args[0], args[1])
    if f == "divmod":
        return (binop(it, "FloorDiv", args[0], args[1]), binop(it, "Mod", args[0], args[1]))
    if f in ("print",):
        return None
    if f == "callable":
        return isinstance(args[0], (Closure, Ext, Bound))
    if f in ("str", "repr", "type", "hasattr", "vars", "globals", "next", "slice", "super"):
        if f == "next" and isinstance(args[0], list):
            if args[0]:
                return args[0][0]
            if len(args) > 1:
                return args[1]
            raise SymRaise("StopIteration", "", it.where())
        if f == "globals":
            it.events.append(("state", "globals()", "", it.where()))
        return "<str>" if f in ("str", "repr") else Opaque(f)
    if f == "getattr":
        return attribute(it, args[0], args[1])
    if f == "setattr":
        it.events.append(("attr", repr(args[0])[:60], str(args[1]), it.where()))
        return None
    raise Unsupported("builtin " + f)


def isinst(it, v, t):
    ts = t if isinstance(t, tuple) else (t,)
    names = [x.name.split(".")[-1] for x in ts if isinstance(x, Ext)]
    r = False
    for n in names:
        if n in ("float", "Real", "Number", "floating", "float64"):
            r = r or is_num(v) or isinstance(v, (E, float))
        elif n in ("int", "Integral", "integer", "Number"):
            r = r or is_num(v) and Fr(v).denominator == 1 or isinstance(v, bool) or isinstance(v, E) and ops.is_int(v)
        elif n == "bool":
            r = r or isinstance(v, (bool, B))
        elif n in ("complex", "complex128"):
            r = r or isinstance(v, Cx)
        elif n == "ndarray":
            r = r or isinstance(v, (Arr, Vec))
        elif n == "str":
            r = r or isinstance(v, str)
        elif n in ("list", "tuple", "dict"):
            r = r or type(v).__name__ == n
    return r


def method(it, o, name, args, kw):
    if isinstance(o, list):
        if name in ("append", "extend", "insert", "pop", "remove", "sort", "clear", "reverse"):
            it.mutate(o, name)
        if name == "append":
            o.append(args[0])
            return None
        if name == "extend":
            o.extend(it.iterate(args[0]))
            return None
        if name == "pop":
            if not o:
                raise SymRaise("IndexError", "pop from empty list", it.where())
            return o.pop(*[it.as_int(a) for a in args])
        if name == "insert":
            o.insert(it.as_int(args[0]), args[1])
            return None
        if name == "clear":
            o.clear()
            return None
        if name == "reverse":
            o.reverse()
            return None
        if name == "sort":
            o[:] = builtin(it, "sorted", [o], kw)
            return None
        if name == "copy":
            return list(o)
        if name in ("index", "count"):
            return Opaque(name)
    if isinstance(o, dict):
        if name in ("update", "setdefault", "pop", "clear"):
            it.mutate(o, name)
        if name == "get":
            return o.get(it.key(args[0]), args[1] if len(args) > 1 else None)
        if name == "items":
            return [(k, v) for k, v in o.items()]
        if name == "values":
            return list(o.values())
        if name == "keys":
            return list(o)
        if name == "setdefault":
            return o.setdefault(it.key(args[0]), args[1] if len(args) > 1 else None)
        if name == "update":
            if args:
                o.update(args[0])
            o.update(kw)
            return None
        if name == "pop":
            return o.pop(it.key(args[0]), args[1] if len(args) > 1 else None)
        if name == "copy":
            return dict(o)
        if name == "clear":
            o.clear()
            return None
    if isinstance(o, str):
        return "<str>"
    if isinstance(o, (AbsSeq, Opaque)):
        if name in ("append", "extend", "insert", "clear", "sort", "fill"):
            return None
        if name in ("copy",):
            return o
        return Opaque("method")
    if isinstance(o, VecEq):
        if name in ("all", "any"):
            return truth_all(it, o, name == "any")
    if isinstance(o, (Arr, Vec)):
        if name in ("fill", "sort", "resize", "put", "itemset", "setflags"):
            it.mutate(o, name)
            if name == "fill":
                if isinstance(o, Vec):
                    o.c = it.to_vec(Arr((3,), [args[0]] * 3)).c
                else:
                    o.data = [args[0]] * len(o.data)
            return None
        if name == "copy":
            return Vec(o.c) if isinstance(o, Vec) else Arr(o.shape, o.data)
        if name == "astype":
            return Vec(o.c) if isinstance(o, Vec) else Arr(o.shape, o.data)
        if name in ("all", "any", "sum", "prod", "min", "max", "dot", "clip", "argmin", "argmax", "round", "conj", "ravel"):
            return numpy_call(it, "numpy", name, [o] + list(args), dict(kw))
        if name in ("reshape",):
            sh = args if len(args) > 1 or not isinstance(args[0], (tuple, list)) else args[0]
            a = it.to_arr(o)
            sh = [it.as_int(s) for s in sh]
            if -1 in sh:
                n = 1
                for s in sh:
                    if s != -1:
                        n *= s
                sh[sh.index(-1)] = len(a.data) // n
            return Arr(tuple(sh), a.data)
        if name in ("flatten",):
            return Arr((len(it.to_arr(o).data),), it.to_arr(o).data)
        if name in ("tolist",):
            return list(it.to_arr(o).data)
        if name in ("item",):
            return it.to_arr(o).data[it.as_int(args[0]) if args else 0]
        if name in ("transpose",):
            return attribute(it, o, "T")
        if name == "mean":
            a = it.to_arr(o).data
            return binop(it, "Div", builtin(it, "sum", [a], {}), Fr(len(a)))
    if isinstance(o, Cx):
        if name == "conjugate":
            return Cx(o.re, neg(o.im))
    if arith.scalar(o):
        if name in ("item", "copy"):
            return o
        if name == "conjugate":
            return o
        if name == "is_integer":
            x = it.num(o)
            return Fr(x).denominator == 1 if is_num(x) else ops.is_int(x)
        if name == "all" or name == "any":
            return it.truth(o)
    raise Unsupported("method %s of %s" % (name, type(o).__name__))


def attribute(it, v, attr):
    if isinstance(v, Ext):
        if v.name.startswith("mod:"):
            m = it.world.module(v.name[4:])
            if attr in m.env:
                return m.env[attr]
            import os
            p = os.path.join(it.world.src, *(v.name[4:] + "." + attr).split("."))
            if os.path.isdir(p) or os.path.exists(p + ".py"):
                return Ext("mod:" + v.name[4:] + "." + attr)
            raise Unsupported("attribute %s of %s" % (attr, v.name))
        if v.name == "lamberthub":
            return Ext("mod:lamberthub." + attr)
        n = v.name + "." + attr
        if n in CONSTS:
            return CONSTS[n]()
        return Ext(n)
    if isinstance(v, Record):
        if not hasattr(v, attr):
            return Opaque(attr)
        return getattr(v, attr)
    if isinstance(v, NotShape3):
        if attr == "shape":
            return NotShape3("shape")
        if attr in ("T", "real"):
            return NotShape3("array")
        return Opaque(attr)
    if isinstance(v, Opaque):
        return Opaque(attr)
    if isinstance(v, AbsSeq):
        if attr in ("size",):
            return it.fresh("len", POS | ZERO, integer=True)
        return Bound(v, attr)
    if isinstance(v, Vec):
        if attr == "shape":
            return (Fr(3),)
        if attr in ("size",):
            return Fr(3)
        if attr == "ndim":
            return Fr(1)
        if attr in ("T", "real"):
            return v
        return Bound(v, attr)
    if isinstance(v, Arr):
        if attr == "shape":
            return tuple(Fr(s) for s in v.shape)
        if attr == "size":
            return Fr(len(v.data))
        if attr == "ndim":
            return Fr(len(v.shape))
        if attr == "T":
            if len(v.shape) == 2:
                r, c = v.shape
                return Arr((c, r), [v.data[i * c + j] for j in range(c) for i in range(r)])
            return v
        if attr in ("real", "imag"):
            return Arr(v.shape, [attribute(it, x, attr) for x in v.data])
        if attr == "flat":
            return list(v.data)
        if attr == "dtype":
            return Opaque("dtype")
        return Bound(v, attr)
    if isinstance(v, Cx):
        if attr == "real":
            return v.re
        if attr == "imag":
            return v.im
        return Bound(v, attr)
    if arith.scalar(v):
        if attr == "real":
            return v
        if attr == "imag":
            return Fr(0)
        if attr == "shape":
            return ()
        if attr == "size":
            return Fr(1)
        if attr == "ndim":
            return Fr(0)
        return Bound(v, attr)
    if isinstance(v, (list, dict, str, VecEq, tuple)):
        return Bound(v, attr)
    if isinstance(v, Closure):
        if attr in ("__name__", "__doc__"):
            return v.name
        if attr in ("py_func",):
            return v
        if hasattr(v.node, "_lhv_attrs") and attr in v.node._lhv_attrs:
            return v.node._lhv_attrs[attr]
        return Opaque(attr)
    if v is None:
        raise SymRaise("AttributeError", "None." + attr, it.where())
    if isinstance(v, ExcVal):
        return Opaque(attr)
    raise Unsupported("attribute %s of %s" % (attr, type(v).__name__))
