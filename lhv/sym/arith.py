"""Arithmetic and comparison of symbolic values, with numpy semantics."""
import math
from fractions import Fraction as Fr

from . import expr as X
from . import ops
from .expr import ANY, E, NEG, POS, ZERO, add, div, is_num, mul, neg, powi, sub
from .symex import (AbsSeq, Arr, B, Bound, Closure, Cx, ExcVal, Ext, NotShape3, Opaque, RangeV, Record, SymRaise, Unsupported, Vec,
                    VecEq, b_and, b_not, b_or, lit)

OPN = {"Add", "Sub", "Mult", "Div", "Pow", "Mod", "FloorDiv"}


def scalar(v):
    return isinstance(v, (bool, E, float, B)) or is_num(v)


def binop(it, op, a, b):
    if op in ("BitAnd", "BitOr", "BitXor") and isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        if op == "BitAnd":
            return b_and(a, b)
        if op == "BitOr":
            return b_or(a, b)
        return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))
    if isinstance(a, (Arr, list, tuple)) and op in ("BitAnd", "BitOr") and isinstance(b, Arr):
        return broadcast(it, lambda x, y: binop(it, op, x, y), it.to_arr(a), it.to_arr(b))
    if isinstance(a, str) or isinstance(b, str):
        if op == "Add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == "Mod" and isinstance(a, str):
            return a
        raise Unsupported("string operation")
    if isinstance(a, (list, tuple)) and op == "Add" and isinstance(b, (list, tuple)):
        return a + b
    if isinstance(a, (list, tuple)) and op == "Mult" and is_num(b):
        return a * int(b)
    if isinstance(b, (list, tuple)) and op == "Mult" and is_num(a):
        return b * int(a)
    if isinstance(a, AbsSeq) or isinstance(b, AbsSeq):
        return AbsSeq("expr")
    if isinstance(a, (list, tuple)):
        a = it.to_arr(a)
    if isinstance(b, (list, tuple)):
        b = it.to_arr(b)
    if isinstance(a, (Ext, Closure, Record, ExcVal, dict, RangeV)) or isinstance(b, (Ext, Closure, Record, ExcVal, dict, RangeV)):
        raise Unsupported("arithmetic on %s/%s" % (type(a).__name__, type(b).__name__))
    if a is None or b is None:
        raise SymRaise("TypeError", "None in arithmetic", it.where())
    if op == "MatMult":
        return matmul(it, a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if isinstance(a, NotShape3) or isinstance(b, NotShape3):
            return NotShape3("array")
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return Opaque("expr")
        if scalar(a) or scalar(b):
            a, b = it.num(a), it.num(b)
        else:
            return Opaque("expr")
    if isinstance(a, Vec) or isinstance(b, Vec):
        return vec_op(it, op, a, b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        return broadcast(it, lambda x, y: binop(it, op, x, y), it.to_arr(a), it.to_arr(b))
    if isinstance(a, Cx) or isinstance(b, Cx):
        return cx_op(it, op, to_cx(it, a), to_cx(it, b))
    return num_op(it, op, a, b)


def vec_op(it, op, a, b):
    if isinstance(a, Vec) and isinstance(b, Vec) and op in ("Add", "Sub"):
        f = add if op == "Add" else sub
        return Vec([f(x, y) for x, y in zip(a.c, b.c)])
    if isinstance(a, Arr) and len(a.data) == 1:
        a = a.data[0]
    if isinstance(b, Arr) and len(b.data) == 1:
        b = b.data[0]
    if isinstance(a, Vec) and (scalar(b) or isinstance(b, Cx)) and op in ("Mult", "Div"):
        if isinstance(b, float):
            if op == "Div" and b in (math.inf, -math.inf):
                return Vec([Fr(0)] * 3)
            return Vec([it.fresh("nan") for _ in range(3)])
        b = it.num(b)
        f = mul if op == "Mult" else div
        if op == "Div":
            nonzero(it, b)
        return Vec([f(x, b) for x in a.c])
    if isinstance(b, Vec) and (scalar(a) or isinstance(a, Cx)) and op == "Mult":
        return vec_op(it, op, b, a)
    if isinstance(a, Arr) and a.shape == (3,) and op in ("Add", "Sub"):
        return vec_op(it, op, it.to_vec(a), b)
    if isinstance(b, Arr) and b.shape == (3,) and op in ("Add", "Sub"):
        return vec_op(it, op, a, it.to_vec(b))
    return broadcast(it, lambda x, y: binop(it, op, x, y), it.to_arr(a), it.to_arr(b))


def broadcast(it, f, a, b):
    sa, sb = a.shape, b.shape
    if sa == sb:
        return Arr(sa, [f(x, y) for x, y in zip(a.data, b.data)])
    n = max(len(sa), len(sb))
    pa, pb = (1,) * (n - len(sa)) + sa, (1,) * (n - len(sb)) + sb
    out = []
    for x, y in zip(pa, pb):
        if x != y and 1 not in (x, y):
            raise SymRaise("ValueError", "operands could not be broadcast together", it.where())
        out.append(max(x, y) if 0 not in (x, y) else 0)
    if n > 2:
        raise Unsupported("broadcast of rank > 2")
    full = (1,) * (2 - n) + tuple(out)
    pa, pb = (1,) * (2 - len(pa)) + pa, (1,) * (2 - len(pb)) + pb
    data = []
    for i in range(full[0]):
        for j in range(full[1]):
            x = a.data[(i if pa[0] > 1 else 0) * pa[1] + (j if pa[1] > 1 else 0)]
            y = b.data[(i if pb[0] > 1 else 0) * pb[1] + (j if pb[1] > 1 else 0)]
            data.append(f(x, y))
    return Arr(tuple(out), data)


def matmul(it, a, b):
    a, b = it.to_arr(a), it.to_arr(b)
    if len(a.shape) == 1 and len(b.shape) == 1:
        return dot_list(it, a.data, b.data)
    if len(a.shape) == 2 and len(b.shape) == 1:
        r, k = a.shape
        if k != b.shape[0]:
            raise SymRaise("ValueError", "matmul", it.where())
        return Arr((r,), [dot_list(it, a.data[i * k:(i + 1) * k], b.data) for i in range(r)])
    if len(a.shape) == 1 and len(b.shape) == 2:
        k, c = b.shape
        if k != a.shape[0]:
            raise SymRaise("ValueError", "matmul", it.where())
        return Arr((c,), [dot_list(it, a.data, [b.data[i * c + j] for i in range(k)]) for j in range(c)])
    if len(a.shape) == 2 and len(b.shape) == 2:
        (r, k), (k2, c) = a.shape, b.shape
        if k != k2:
            raise SymRaise("ValueError", "matmul", it.where())
        return Arr((r, c), [dot_list(it, a.data[i * k:(i + 1) * k], [b.data[m * c + j] for m in range(k)])
                            for i in range(r) for j in range(c)])
    raise Unsupported("matmul")


def dot_list(it, x, y):
    t = Fr(0)
    for p, q in zip(x, y):
        t = binop(it, "Add", t, binop(it, "Mult", p, q))
    return t


def nonzero(it, b):
    """a denominator: where it vanishes the real code leaves the real numbers (nan, inf or
    ZeroDivisionError), which is not a path of the real-valued semantics"""
    if is_num(b):
        if b == 0:
            raise X.DivByZero()
        return
    s = it.ctx.sign(b, False) if it.ctx is not None else NEG | POS
    if s == ZERO:
        raise X.DivByZero()
    if s & ZERO and it.ctx is not None:
        it.partial.append(("nonzero", b, it.where()))


def num_op(it, op, a, b):
    if isinstance(a, float) or isinstance(b, float):
        return float_op(it, op, a, b)
    a, b = it.num(a), it.num(b)
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mult":
        return mul(a, b)
    if op == "Div":
        nonzero(it, b)
        return div(a, b)
    if op == "Pow":
        return power(it, a, b)
    if op == "Mod":
        nonzero(it, b)
        if is_num(a) and is_num(b):
            return Fr(a) - Fr(b) * (Fr(a) // Fr(b))
        return sub(a, mul(b, ops.floor_(div(a, b))))
    if op == "FloorDiv":
        nonzero(it, b)
        return ops.floor_(div(a, b))
    raise Unsupported("operator " + op)


def power(it, a, b):
    if is_num(b):
        b = Fr(b)
        if b.denominator == 1:
            if b < 0:
                nonzero(it, a)
            return powi(a, int(b))
        return ops.power(a, b)
    if is_num(a) and ops.is_int(b) and a in (-1, 1):
        return ops.power(a, b)
    s = it.ctx.sign(a) if it.ctx else ANY
    if s == POS:
        return ops.exp(mul(b, ops.log(a)))
    return it.unknown("power")


def float_op(it, op, a, b):
    """one operand is inf or nan"""
    def s(x):
        if isinstance(x, float):
            return 1 if x > 0 else -1
        x = it.num(x)
        if it.truth(lit(x, POS)):
            return 1
        if it.truth(lit(x, ZERO)):
            return 0
        return -1
    if (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b):
        return math.nan
    fa, fb = isinstance(a, float), isinstance(b, float)
    if fa and fb:
        try:
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: math.nan}[op]()
        except KeyError:
            raise Unsupported("operator on infinities")
    if op == "Add":
        return a if fa else b
    if op == "Sub":
        return a if fa else -b
    if op == "Mult":
        f, o = (a, b) if fa else (b, a)
        k = s(o)
        return math.nan if k == 0 else f * k
    if op == "Div":
        if fb:
            return Fr(0)
        k = s(b)
        return a * (k or 1)
    if op == "Mod":
        return math.nan if fa else a
    if op == "Pow" and fa and is_num(b):
        return Fr(0) if b < 0 else Fr(1) if b == 0 else (a if a > 0 else math.nan)
    raise Unsupported("operator on infinity")


# ------------------------------------------------------------------ complex

def to_cx(it, a):
    if isinstance(a, Cx):
        return a
    if isinstance(a, float):
        raise Unsupported("complex infinity")
    return Cx(it.num(a))


def cz(x):
    return is_num(x) and x == 0


def cx_mul(a, b):
    if cz(a.im) and cz(b.im):
        return Cx(mul(a.re, b.re))
    if cz(a.re) and cz(b.re):
        return Cx(neg(mul(a.im, b.im)))
    return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))


def cx_div(it, a, b):
    if cz(b.im):
        nonzero(it, b.re)
        return Cx(div(a.re, b.re), div(a.im, b.re))
    if cz(b.re):
        nonzero(it, b.im)
        return Cx(div(a.im, b.im), neg(div(a.re, b.im)))
    d = add(mul(b.re, b.re), mul(b.im, b.im))
    n = cx_mul(a, Cx(b.re, neg(b.im)))
    return Cx(div(n.re, d), div(n.im, d))


def cx_op(it, op, a, b):
    if op == "Add":
        return Cx(add(a.re, b.re), add(a.im, b.im))
    if op == "Sub":
        return Cx(sub(a.re, b.re), sub(a.im, b.im))
    if op == "Mult":
        return cx_mul(a, b)
    if op == "Div":
        return cx_div(it, a, b)
    if op == "Pow" and cz(b.im) and is_num(b.re):
        q = Fr(b.re)
        if q.denominator == 1:
            n = int(q)
            r = Cx(Fr(1))
            for _ in range(abs(n)):
                r = cx_mul(r, a)
            return r if n >= 0 else cx_div(it, Cx(Fr(1)), r)
        if cz(a.im) and it.ctx.sign(a.re) == POS:
            return Cx(ops.power(a.re, q))
    return Cx(it.unknown("cpow.re"), it.unknown("cpow.im"))


# ------------------------------------------------------------------ comparison

MASKS = {"Lt": NEG, "LtE": NEG | ZERO, "Gt": POS, "GtE": POS | ZERO, "Eq": ZERO, "NotEq": NEG | POS}


def compare(it, op, a, b):
    if op in ("Is", "IsNot"):
        r = is_same(it, a, b)
        return r if op == "Is" else b_not(r)
    if op in ("In", "NotIn"):
        if isinstance(b, (AbsSeq, Opaque)):
            r = it.choose(2, "in") == 0
        elif isinstance(b, str):
            r = a in b
        else:
            r = False
            for x in (list(b) if isinstance(b, dict) else it.iterate(b)):
                r = b_or(r, compare(it, "Eq", a, x))
        return r if op == "In" else b_not(r)
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        r = a == b if type(a) is type(b) else False
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            r = it.choose(2, "opaque") == 0
        if op == "Eq":
            return r
        if op == "NotEq":
            return b_not(r)
        raise SymRaise("TypeError", "comparison", it.where())
    if isinstance(a, NotShape3) or isinstance(b, NotShape3):
        o = b if isinstance(a, NotShape3) else a
        if o == (3,) or o == (Fr(3),):
            return op == "NotEq"
        return it.choose(2, "shape") == 0
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if op in ("Eq", "NotEq"):
            r = len(a) == len(b)
            if r:
                for x, y in zip(a, b):
                    r = b_and(r, compare(it, "Eq", x, y))
            return r if op == "Eq" else b_not(r)
        raise Unsupported("sequence comparison")
    if isinstance(a, (AbsSeq,)) or isinstance(b, (AbsSeq,)):
        return AbsSeq("cmp")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if scalar(a) or scalar(b):
            a, b = it.num(a), it.num(b)
        else:
            return it.choose(2, "opaque") == 0
    if isinstance(a, Vec) or isinstance(b, Vec):
        if op in ("Eq", "NotEq"):
            va = vec_or_none(it, a)
            vb = vec_or_none(it, b)
            if va is not None and vb is not None:
                return VecEq(Vec([sub(x, y) for x, y in zip(va.c, vb.c)]), op == "NotEq")
        return broadcast(it, lambda x, y: compare(it, op, x, y), it.to_arr(a), it.to_arr(b))
    if isinstance(a, (Arr, list, tuple)) or isinstance(b, (Arr, list, tuple)):
        return broadcast(it, lambda x, y: compare(it, op, x, y), it.to_arr(a), it.to_arr(b))
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = to_cx(it, a), to_cx(it, b)
        if op in ("Eq", "NotEq"):
            r = b_and(lit(sub(a.re, b.re), ZERO), lit(sub(a.im, b.im), ZERO))
            return r if op == "Eq" else b_not(r)
        if cz(a.im) and cz(b.im):
            return compare(it, op, a.re, b.re)
        raise SymRaise("TypeError", "complex comparison", it.where())
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return op == "NotEq"
        x = a if isinstance(a, float) else 0.0
        y = b if isinstance(b, float) else 0.0
        return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y, "Eq": x == y, "NotEq": x != y}[op]
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)) and op in ("Eq", "NotEq"):
        r = b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
        return r if op == "Eq" else b_not(r)
    if isinstance(a, (Ext, Closure, Record)) or isinstance(b, (Ext, Closure, Record)):
        return (a is b) == (op == "Eq")
    return lit(sub(it.num(a), it.num(b)), MASKS[op])


def vec_or_none(it, a):
    if isinstance(a, Vec):
        return a
    if is_num(a) and a == 0:
        return Vec([Fr(0)] * 3)
    if isinstance(a, (list, tuple)):
        a = it.to_arr(a)
    if isinstance(a, Arr) and a.shape == (3,):
        if all(is_num(x) and x == 0 for x in a.data):
            return Vec([Fr(0)] * 3)
        return it.to_vec(a)
    return None


def is_same(it, a, b):
    if isinstance(b, bool) and isinstance(a, bool):
        return a == b
    if isinstance(b, bool) and isinstance(a, B):
        return a if b else b_not(a)
    if a is None or b is None:
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return it.choose(2, "is") == 0
        return a is None and b is None
    if isinstance(a, float) and isinstance(b, float):
        return a == b
    if is_num(a) and is_num(b) and not isinstance(a, bool) and not isinstance(b, bool):
        return a == b
    if isinstance(a, Ext) and isinstance(b, Ext):
        return a.name == b.name
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return it.choose(2, "is") == 0
    return a is b
