"""Closed form of counting loops: while x > c: x -= d; m += 1 (symbolic start)."""
from fractions import Fraction as Fr

from . import ops
from .expr import NEG, POS, ZERO, E, add, div, is_num, lin_parts, mul, mul_parts, neg, scale, sub
from .symex import B, assigned_names, has_node

import ast


def affine_while(it, st, env):
    """True when the loop was run to its end in closed form"""
    if st.orelse or not all(isinstance(s, (ast.Assign, ast.AugAssign)) for s in st.body):
        return False
    if has_node(st.body, (ast.Call, ast.Subscript, ast.Attribute)) and has_node(st.body, ast.Call):
        return False
    names = [n for n in assigned_names(st.body) if n in env.vars]
    if len(names) != len(assigned_names(st.body)):
        return False
    old = {n: env.vars[n] for n in names}
    if not all(is_num(v) or isinstance(v, E) for v in old.values()):
        return False
    c0 = it.ev(st.test, env)
    if not isinstance(c0, B) or c0.op != "lit":
        return False
    try:
        it.block(st.body, env)
        new = {n: it.num(env.vars[n]) for n in names}
        delta = {n: sub(new[n], old[n]) for n in names}
        c1 = it.ev(st.test, env)
        for n in names:
            if not const(delta[n]):
                return False
        # affine for good: a second round must add the same
        it.block(st.body, env)
        for n in names:
            d = sub(it.num(env.vars[n]), new[n])
            if not zero(sub(d, delta[n])):
                return False
        if not isinstance(c1, B) or c1.op != "lit" or c1.y != c0.y:
            return False
        step = sub(c1.x, c0.x)
        if not const(step) or is_num(step) and step == 0:
            return False
    finally:
        for n in names:
            env.vars[n] = old[n]
    g, mask = c0.x, c0.y
    s = it.ctx.sign(step)
    if s == POS:
        g, mask, step = neg(g), {NEG: POS, NEG | ZERO: POS | ZERO}.get(mask), neg(step)
    elif s != NEG:
        return False
    if mask not in (POS, POS | ZERO):
        return False
    # smallest k >= 0 with g + k step not in mask
    q = div(g, neg(step))
    n, r = split_int(q)
    ctx = it.ctx
    k = None
    for j in range(-3, 5):
        lo, hi = sub(r, j - 1), sub(r, j)
        if mask == POS:       # ceil(r) = j : j-1 < r <= j
            if ctx.sign(lo) == POS and not ctx.sign(hi) & POS:
                k = add(n, j)
                break
        else:                  # floor(r) + 1 = j: j-1 <= r < j
            if not ctx.sign(lo) & NEG and ctx.sign(hi) == NEG:
                k = add(n, j)
                break
    if k is None:
        return False
    if ctx.sign(k) & NEG:
        return False
    for v in names:
        env.vars[v] = add(old[v], mul(k, delta[v]))
    it.loops.append({"kind": "counting", "where": it.where(), "exit": "closed"})
    return True


def const(x):
    """a rational multiple of pi plus a rational"""
    from .expr import PI
    if is_num(x):
        return True
    c, d = lin_parts(x)
    return set(d) <= {PI}


def zero(x):
    return is_num(x) and x == 0


def split_int(q):
    """q = n + r with n integer-valued"""
    c, d = lin_parts(q)
    n = Fr(0)
    r = c
    for node, co in d.items():
        t = scale(node, co)
        if ops.is_int(t):
            n = add(n, t)
        else:
            r = add(r, t)
    return n, r
