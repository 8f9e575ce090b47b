"""Obligations: how a goal about the outcome of a path is discharged, and how a
concrete input is sought when it is not."""
import math
import copy
import time
from fractions import Fraction

import numpy as np

from .sym import expr as X
from .sym import ops
from .sym.ctx import NP, Z3Enc, Z3Skip, norm_key
from .sym.expr import ANY, NEG, POS, ZERO, E, add, feval, is_num, mul, powi, scale, sub

PROVED, REFUTED, FAILED, UNDECIDED, KNOWN = "proved", "refuted", "failed", "undecided", "known finding"
Z3_UNSAT = {"n": 0, "s": 0.0}


class Ob:
    """one obligation: a stable name, its status and what backs it"""

    def __init__(self, name, status, by="", detail="", calls=()):
        self.name, self.status, self.by, self.detail, self.calls = name, status, by, detail, list(calls)

    def __repr__(self):
        return "%-9s %s %s %s" % (self.status, self.name, self.by, self.detail[:200])


def worst(obs):
    for s in (REFUTED, FAILED, UNDECIDED):
        if any(o.status == s for o in obs):
            return s
    return PROVED


# ------------------------------------------------------------------ z3
def z3_unsat(ctx, conds, rlimit=400000):
    """True when no real values satisfy all the (term, mask) conditions together
    with the domain of the context"""
    import z3
    t0 = time.time()
    Z3_UNSAT["n"] += 1
    try:
        enc = Z3Enc(ctx)
        s = z3.Solver()
        s.set("rlimit", rlimit // 20 if ctx.hurry else rlimit)
        cs = [enc.mask(enc.term(e), m) for e, m in conds]
        s.add(*enc.side)
        s.add(*cs)
        return s.check() == z3.unsat
    except (Z3Skip, RecursionError):
        return False
    finally:
        Z3_UNSAT["s"] += time.time() - t0


def context_axioms(ctx):
    out = [(n, m) for m, n in ctx.base_facts.values()]
    ax = getattr(ctx, "axioms", None)
    if ax:
        out += ax()
    return out


def relevant(conds, terms, rounds=2):
    """the conditions connected to the terms through shared variables"""
    vs = set()
    for t in terms:
        vs |= names(t)
    keep = []
    left = list(conds)
    for _ in range(rounds):
        rest = []
        for e, m in left:
            w = names(e)
            if w & vs:
                keep.append((e, m))
            else:
                rest.append((e, m))
        left = rest
        for e, m in keep:
            vs |= names(e)
    return keep


def names(t):
    return set() if is_num(t) else X.variables(t)


def infeasible(ctx, out):
    conds = [(e, m) for e, m, _ in out.lits]
    if not conds:
        return False
    enter(ctx, out)         # the facts of this path, not of the one explored last
    if conflicting_signs(ctx, out):
        return True
    ax = relevant(context_axioms(ctx), [e for e, _ in conds])
    return z3_unsat(ctx, ax + conds)


def unit(b):
    """a sum as (coefficient sign, representative) up to a positive factor; c + q |y| with c q < 0 has
    the sign of q^2 y^2 - c^2 times that of q"""
    c, d = X.lin_parts(b)
    if c and len(d) == 1:
        (node, q), = d.items()
        cc, parts = X.mul_parts(node)
        if all(x.k == "fn" and x.a[0] == "abs" or e % 2 == 0 for x, e in parts.items()) and c * q * cc < 0 \
                and any(x.k == "fn" and x.a[0] == "abs" for x in parts):
            m = 1
            for x, e in parts.items():
                m = mul(m, powi(x.a[1][0], 2 * e) if x.k == "fn" and x.a[0] == "abs" else powi(x, 2 * e))
            k = q * cc
            return (1 if k > 0 else -1), sub(scale(m, k * k), c * c)
    return 1, b


def sign_factors(ctx, e):
    """(sign of the constant, {id: (base, odd exponent)}, bases in denominators) of a term read as a product"""
    c, parts = X.mul_parts(e)
    todo = list(parts.items())
    odd, den = {}, set()
    sg = 1 if c > 0 else -1
    even, count = {}, 0
    while todo:
        b, k = todo.pop()
        if b.k == "lin":
            f = common_factor(b)
            if f is not None:
                cc, pp = X.mul_parts(f[0])
                todo += [(x, y * k) for x, y in pp.items()]
                if cc < 0 and k % 2:
                    sg = -sg
                b = f[1]
                if is_num(b):
                    if b < 0 and k % 2:
                        sg = -sg
                    continue
                todo.append((b, k))
                continue
            if b.k == "lin":
                u, b = unit(b)
                if u < 0 and k % 2:
                    sg = -sg
                if is_num(b):
                    if b < 0 and k % 2:
                        sg = -sg
                    continue
                if b.k == "lin" and len(todo) < 60 and count < 60:
                    count += 1
                    f = cleared(b) or squares(ctx, b)
                    if f is not None:
                        todo += [(x, y * k) for x, y in f[0]]
                        if f[1] < 0 and k % 2:
                            sg = -sg
                        continue
            cc, pp = X.mul_parts(b)
            if list(pp.items()) != [(b, 1)]:
                todo += [(x, y * k) for x, y in pp.items()]
                if cc < 0 and k % 2:
                    sg = -sg
                continue
        n, q = norm_key(b)
        if q < 0 and k % 2:
            sg = -sg
        if k < 0:
            den.add(n.id)
        if k % 2 and n.id not in odd:
            odd[n.id] = n
            even.pop(n.id, None)
        else:
            if k % 2:
                del odd[n.id]
            if n.id not in odd:
                even[n.id] = n
    return sg, odd, even, den


def cleared(t):
    """a sum with denominators as ([(base, exponent)], sign): the quotient times the product of the denominators"""
    c, d = X.lin_parts(t)
    den = {}
    for node in d:
        for b, e in X.mul_parts(node)[1].items():
            if e < 0:
                den[b] = max(den.get(b, 0), -e)
    if not den:
        return None
    m = X.mk_mul(1, den)
    r = scale(m, c)
    for node, q in d.items():
        r = add(r, scale(mul(node, m), q))
    out = [(b, -e) for b, e in den.items()]
    return (out, 1 if r > 0 else -1) if is_num(r) and r else None if is_num(r) else (out + [(r, 1)], 1)


def rational_root(q):
    q = Fraction(q)
    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
    return Fraction(a, b) if a * a == q.numerator and b * b == q.denominator else None


def squares(ctx, t):
    """a difference of two squares as ([(a - b, 1), (a + b, 1)], sign)"""
    c, d = X.lin_parts(t)
    terms = list(d.items()) + ([(Fraction(1), c)] if c else [])
    if len(terms) != 2 or terms[0][1] * terms[1][1] > 0 or ctx.sign(t, False) in (POS, NEG):
        return None
    rt = []
    for n, q in terms:
        cc, parts = X.mul_parts(n) if not is_num(n) else (n, {})
        r = rational_root(abs(q) * abs(cc))
        if r is None or any(e % 2 for e in parts.values()):
            return None
        rt.append(X.mk_mul(r, {b: e // 2 for b, e in parts.items()}) if parts else r)
    a, b = sub(rt[0], rt[1]), add(rt[0], rt[1])
    sg = 1 if terms[0][1] > 0 else -1
    if is_num(a) or is_num(b):
        return None
    return [(a, 1), (b, 1)], sg


def conflicting_signs(ctx, out):
    """the signs the path claims for products of the same factors contradict one another (parity of
    negative factors, by elimination over GF(2))"""
    rows, weak = [], []
    known, nz = {}, set()
    for e, m, _ in out.lits:
        if is_num(e):
            continue
        # c + q |y| > 0 with c <= 0 < q: y is not zero
        if m == POS and e.k == "lin":
            c, d = X.lin_parts(e)
            if c <= 0:
                up = [t for t, q in d.items() if q > 0 and t.k == "fn" and t.a[0] == "abs"]
                down = [t for t, q in d.items() if q < 0]
                if len(up) == 1 and len(up) + len(down) == len(d) and all(not ctx.sign(t, False) & NEG for t in down):
                    y = up[0].a[1][0]
                    for g in sign_factors(ctx, y)[1:3]:
                        nz |= set(g)
        sg, odd, even, den = sign_factors(ctx, e)
        for b in list(odd.values()) + list(even.values()):
            s = ctx.sign(b, False)
            if s in (POS, NEG):
                known[b.id] = s
        nz |= den
        strict = m in (POS, NEG)
        if m in (POS, NEG, NEG | POS):
            nz |= set(odd) | set(even)
        if strict:
            rows.append((set(odd), (m == NEG) ^ (sg < 0)))
        elif m in (POS | ZERO, NEG | ZERO):
            weak.append((odd, even, sg, m))
        elif m == ZERO and all(b in known or b in nz for b in list(odd) + list(even)):
            return True
    nz |= set(known)
    for b in [b for odd, even, _, _ in weak for b in list(odd.values()) + list(even.values())]:
        # |x| and sqrt(x) are positive when the factors of x are not zero
        if b.id not in nz and b.k == "fn" and b.a[0] in ("abs", "sqrt") and not is_num(b.a[1][0]):
            _, o2, e2, d2 = sign_factors(ctx, b.a[1][0])
            if all(i in nz or i in d2 for i in list(o2) + list(e2)):
                nz.add(b.id)
                known[b.id] = POS
    for odd, even, sg, m in weak:
        if all(b in nz for b in list(odd) + list(even)):
            rows.append((set(odd), (m == NEG | ZERO) ^ (sg < 0)))
    sys = Parity(known)
    for a, b in rows:
        if sys.add(a, b):
            return True
    bases, often = {}, {}
    for e in {e.id: e for e, _, _ in out.lits if not is_num(e)}.values():
        _, odd, even, _ = sign_factors(ctx, e)
        bases.update(odd)
        bases.update(even)
        for i in set(odd) | set(even):
            often[i] = often.get(i, 0) + 1
    sums = [b for b in bases.values() if b.k == "lin" and b.id not in known and often[b.id] > 1]
    sums.sort(key=lambda b: -often[b.id])
    todo = {}
    for S in sums[:14]:
        for q in sums[:14]:
            if q is S:
                continue
            for k in (1, -1):
                t = sub(S, scale(q, k))
                # S q = k q^2 + t q
                if is_num(t):
                    continue
                if not X.lin_parts(t)[1] or X.size(t) > X.size(S):
                    continue
                sg, odd, even, _ = sign_factors(ctx, t)
                if all(i in bases or i in known for i in odd) and q.id in nz:
                    todo[S.id, q.id, k] = (set(odd) ^ {q.id}, sg)
    grown = True
    while grown and todo:
        grown = False
        for (S, q, k), (a, sg) in list(todo.items()):
            r = sys.parity(a)
            if r is not None and (-1 if r else 1) * sg == k:
                del todo[S, q, k]
                grown = True
                nz.add(S)
                if sys.add({S, q}, k < 0):
                    return True
        if grown:
            for odd, even, sg, m in weak:
                if all(b in nz for b in list(odd) + list(even)):
                    if sys.add(set(odd), (m == NEG | ZERO) ^ (sg < 0)):
                        return True
    return False


class Parity:
    """products of factors with known signs, as a linear system over GF(2)"""

    def __init__(self, known):
        self.known, self.red = known, []

    def reduce(self, a, b):
        a = set(a)
        for i in list(a):
            if i in self.known:
                a.discard(i)
                b ^= self.known[i] == NEG
        for p, pa, pb in self.red:
            if p in a:
                a ^= pa
                b ^= pb
        return a, b

    def add(self, a, b):
        """True when the row contradicts the others"""
        a, b = self.reduce(a, b)
        if not a:
            return b
        self.red.append((next(iter(a)), a, b))
        return False

    def parity(self, a):
        """whether the product is negative; None when unknown"""
        a, b = self.reduce(a, False)
        return None if a else b


def prove_zero(ctx, out, t, tol=None):
    """the term is zero on the path: '' or the back end that shows it"""
    if is_num(t):
        return "simplification" if t == 0 else ""
    z = ctx.is_zero(t, tries=60)
    if z is None:
        z = generalised(ctx, t)
        if not z:
            z = ctx.is_zero(t)
    if z:
        return "identity over GF(2^61-1)"
    conds = [(e, m) for e, m, _ in out.lits]
    for n, m in out.fact_list:
        if m == ZERO and not any(e is n for e, _ in conds):
            conds.append((n, m))
    if conds and X.size(t) < 600:
        # equalities of the path rewrite the goal
        m = {}
        for e, k in conds:
            if k == ZERO and e.k == "var":
                m[e] = 0
        if m:
            m.update(getattr(ctx, "consequences", lambda m: {})(m))
            try:
                t2 = X.subst(t, m)
                if is_num(t2) and t2 == 0 or not is_num(t2) and ctx.is_zero(t2):
                    return "identity over GF(2^61-1) under the path's equalities"
            except (X.DivByZero, ZeroDivisionError):
                pass
    if conds and X.size(t) < 120:
        ax = relevant(context_axioms(ctx), [t] + [e for e, _ in conds])
        if z3_unsat(ctx, ax + conds + [(t, NEG | POS)]):
            return "z3"
    return ""


def generalised(ctx, t, limit=24):
    """the identity with subterms read as free variables (a stronger statement); used where the
    roots inside those subterms leave no point of the field to evaluate at"""
    wrong = set()
    for _ in range(4):
        tries = []
        for n in X.topo([t]):
            if n is not t and n.k == "lin" and n.id not in wrong and X.size(n) > 3:
                try:
                    t2 = X.subst(t, {n: ctx.fresh("gen!%d" % n.id)})
                except (X.DivByZero, ZeroDivisionError):
                    continue
                tries.append((0 if is_num(t2) else X.size(t2), n, t2))
        tries.sort(key=lambda r: r[0])
        best = None
        for _, n, t2 in tries[:limit]:
            z = t2 == 0 if is_num(t2) else ctx.is_zero(t2, tries=60)
            if z:
                return True
            if z is None:
                best = best or t2
            else:
                wrong.add(n.id)
        if best is None:
            return False
        t = best
    return False


def open_floors(ctx, t):
    """floor(a) = a - f with 0 <= f < 1, distributed so that the modulus cancels"""
    side = []
    fr = {}
    for _ in range(6):
        hit = False
        c, d = X.lin_parts(t)
        r = c
        for node, q in d.items():
            cc, parts = X.mul_parts(node)
            fl = [b for b, e in parts.items() if b.k == "fn" and b.a[0] == "floor" and e == 1]
            if len(fl) != 1:
                r = add(r, scale(node, q))
                continue
            hit = True
            rest = dict(parts)
            del rest[fl[0]]
            m = X.mk_mul(cc * q, rest) if rest else cc * q
            f = fr.get(fl[0].id)
            if f is None:
                f = fr[fl[0].id] = ctx.fresh("frac!%d" % len(fr))
                side += [(f, POS | ZERO), (sub(1, f), POS)]
            ac, ad = X.lin_parts(fl[0].a[1][0])
            r = add(r, mul(m, ac))
            for an, aq in ad.items():
                r = add(r, mul(scale(an, aq), m))
            r = sub(r, mul(m, f))
        t = r
        if is_num(t) or not hit:
            break
    return (t, side) if side else None


def enter(ctx, out):
    """the facts of the path, for the operations on its terms"""
    ops.set_ctx(ctx)
    ctx.start_path()
    for n, m in out.fact_list:
        ctx.assume(n, m)
    ctx.path_roots = list(getattr(out, "path_roots", ()))


def expanded(t, limit=400):
    """products of sums with positive exponents multiplied out; None when it grows too much"""
    if is_num(t):
        return t
    for _ in range(8):
        c, d = X.lin_parts(t)
        r, hit, n = c, False, 0
        for node, q in d.items():
            cc, parts = X.mul_parts(node)
            ev = [b for b, e in parts.items() if b.k == "fn" and b.a[0] == "abs" and e % 2 == 0]
            if ev:
                hit = True
                m = scale(X.mk_mul(cc, {b: e for b, e in parts.items() if b not in ev}), q)
                for b in ev:
                    m = mul(m, powi(b.a[1][0], parts[b]))
                r = add(r, m)
                continue
            f = None
            if node.k == "mul" or parts.get(node, 0) != 1:
                f = next((b for b, e in parts.items() if b.k == "lin" and e > 0), None)
            if f is None:
                r = add(r, scale(node, q))
                continue
            hit = True
            rest = dict(parts)
            if rest[f] == 1:
                del rest[f]
            else:
                rest[f] -= 1
            m = X.mk_mul(cc * q, rest) if rest else cc * q
            fc, fd = X.lin_parts(f)
            r = add(r, mul(m, fc))
            for fn_, fq in fd.items():
                r = add(r, mul(scale(fn_, fq), m))
                n += 1
            if n > limit:
                return None
        t = r
        if is_num(t) or not hit:
            return t
        if X.size(t) > 4 * limit:
            return None
    return None


def common_factor(t):
    """(monomial dividing every term, quotient) of a sum without constant; None when trivial"""
    c, d = X.lin_parts(t)
    if c or not d:
        return None
    common = None
    for node in d:
        _, parts = X.mul_parts(node)
        if common is None:
            common = dict(parts)
        else:
            common = {b: min(e, parts[b], key=abs) for b, e in common.items() if b in parts and (e > 0) == (parts[b] > 0)}
    if not common:
        return None
    inv = X.mk_mul(1, {b: -e for b, e in common.items()})
    q = 0
    for node, k in d.items():
        q = add(q, scale(mul(node, inv), k))
    return X.mk_mul(1, common), q


def has_root(t):
    return not is_num(t) and any(n.k == "fn" and n.a[0] == "sqrt" for n in X.mul_parts(t)[1])


def flip(m):
    return (POS if m & NEG else 0) | (NEG if m & POS else 0) | (m & ZERO)


def times(a, b):
    r = 0
    for x in (NEG, ZERO, POS):
        for y in (NEG, ZERO, POS):
            if a & x and b & y:
                r |= ZERO if ZERO in (x, y) else POS if x == y else NEG
    return r


def rule_sign(ctx, t, depth=4):
    """sign from the rules of ordered fields: products factor by factor, sums multiplied out, and
    sums with a root by comparing squares"""
    if is_num(t):
        return POS if t > 0 else NEG if t < 0 else ZERO
    s = ctx.sign(t, True)
    if s in (POS, NEG, ZERO) or depth == 0:
        return s
    c, parts = X.mul_parts(t)
    if len(parts) > 1 or next(iter(parts.values())) != 1:
        r = POS if c > 0 else NEG
        for b, e in parts.items():
            m = ctx.sign(b, True)
            if e % 2 == 0:
                m = POS | (m & ZERO if e > 0 else 0)
            elif m not in (POS, NEG, ZERO):
                m = rule_sign(ctx, b, depth - 1)
                if e < 0:
                    m &= ~ZERO
            r = times(r, m)
        return r & s or s
    if t.k == "fn" and t.a[0] in ("abs", "sqrt"):
        m = rule_sign(ctx, t.a[1][0], depth - 1)
        return (POS if not m & ZERO else POS | ZERO) & s or s
    if t.k != "lin":
        return s
    x = expanded(t)
    if x is None:
        return s
    if x is not t:
        s &= rule_sign(ctx, x, depth - 1) or ANY
        if s in (POS, NEG, ZERO) or is_num(x) or x.k != "lin":
            return s
    f = common_factor(x)
    if f is not None:
        m = times(rule_sign(ctx, f[0], depth - 1), rule_sign(ctx, f[1], depth - 1))
        return m & s or s
    lc, ld = X.lin_parts(x)
    for a in ([lc] if lc else []) + [scale(node, q) for node, q in ld.items() if len(ld) < 4 or has_root(node)]:
        b = sub(x, a)
        sa = rule_sign(ctx, a, depth - 1)
        sb = rule_sign(ctx, b, depth - 1)
        if sa & POS and sa & NEG:
            continue
        d = sub(powi(a, 2), powi(b, 2))
        d2 = expanded(d)
        sd = rule_sign(ctx, d if d2 is None else d2, depth - 2 if depth > 1 else 0)
        if sd == POS:
            return sa & ~ZERO
        if sd == NEG and sb in (POS, NEG):
            return sb
    return s


def real_value(ctx, t):
    """the value is a real number: its denominators are not zero, its square roots are of non-negative numbers"""
    for n in X.topo([t]):
        if n.k == "mul":
            for b, e in n.a:
                if e < 0:
                    ctx.assume(b, NEG | POS)
        elif n.k == "fn" and n.a[0] == "sqrt":
            ctx.assume(n.a[1][0], POS | ZERO)


def forget(ctx, t):
    """results of summarised helpers read as free variables (a stronger statement)"""
    m = {}
    for n in X.topo([t]):
        if n.k == "fn" and n.a[0].startswith("u:"):
            m[n] = ctx.fresh("any!%d" % n.id)
    return X.subst(t, m) if m else t


def monomial_fit(gens, logs, y):
    """exponents e and constant c with y = log c + sum e log g over the samples; None"""
    ok = np.isfinite(y)
    for g in logs:
        ok &= np.isfinite(g)
    if ok.sum() < len(gens) + 8:
        return None
    A = np.column_stack([g[ok] for g in logs] + [np.ones(ok.sum())])
    b = y[ok]
    while True:
        # samples spoilt by overflow or cancellation go; the identity is shown exactly afterwards
        sol, *_ = np.linalg.lstsq(A, b, rcond=None)
        res = np.abs(A @ sol - b)
        if res.max() < 1e-6:
            break
        keep = res <= np.quantile(res, 0.85)
        if keep.sum() < len(gens) + 8 or keep.all():
            return None
        A, b = A[keep], b[keep]
    ex = [int(round(v)) for v in sol[:-1]]
    if max(abs(v - e) for v, e in zip(sol, ex)) > 1e-5:
        return None
    c2 = Fraction(float(np.exp(2 * sol[-1]))).limit_denominator(64)
    if c2 <= 0:
        return None
    m = scale(ops.sqrt(Fraction(c2.numerator * c2.denominator)), Fraction(1, c2.denominator))
    for g, e in zip(gens, ex):
        if e:
            m = mul(m, powi(g, e))
    return m


def samples(ctx, terms):
    vals = [np.broadcast_to(np.asarray(v, float), (ctx.nsample,)) for v in ctx.dom_values(terms)]
    with np.errstate(all="ignore"):
        return vals, [np.log(np.abs(v)) for v in vals]


def absolute(ctx, m):
    """|m| for a monomial in the generators, whose signs are known"""
    s = ctx.sign(m, True)
    return m if s == POS else scale(m, -1) if s == NEG else None


def roots_of(t):
    return [n for n in X.topo([t]) if n.k == "fn" and n.a[0] == "sqrt" and not is_num(n.a[1][0])]


def unified_roots(ctx, t):
    """roots that are multiples of one another written with one root"""
    for _ in range(6):
        roots = roots_of(t)[:12]
        gens = list(ctx.gens)
        vals, logs = samples(ctx, gens + roots)
        hit = None
        for i in range(len(roots)):
            for j in range(i):
                m = monomial_fit(gens, logs[:len(gens)], logs[len(gens) + i] - logs[len(gens) + j])
                m = None if m is None else absolute(ctx, m) if not is_num(m) else m
                if m is None:
                    continue
                d = sub(roots[i].a[1][0], mul(powi(m, 2), roots[j].a[1][0]))
                if is_num(d) and d == 0 or not is_num(d) and ctx.is_zero(d):
                    hit = (roots[i], mul(m, roots[j]))
                    break
            if hit:
                break
        if not hit:
            return t
        t = X.subst(t, {hit[0]: hit[1]})
        if is_num(t):
            return t
    return t


def root_multiple(ctx, t):
    """the sign of t when it is c * monomial * root, for one of the roots inside it (0 when it is not).
    The shape is guessed from samples and the identity is then shown over the field"""
    t = forget(ctx, t)
    try:
        t = unified_roots(ctx, t)
        if is_num(t):
            return 0
        real_value(ctx, t)
        roots, gens = roots_of(t)[:12], list(ctx.gens)
        vals, logs = samples(ctx, [t] + gens + roots)
    except (KeyError, TypeError):
        return 0
    k = len(gens)
    for i, r in enumerate(roots):
        m = monomial_fit(gens, logs[1:1 + k], logs[0] - logs[1 + k + i])
        if m is None:
            continue
        m = mul(m, r)
        ok = np.isfinite(vals[0])
        mv = np.asarray(ctx.dom_values([m])[0], float)
        sg = 1 if np.broadcast_to(mv, vals[0].shape)[ok][0] * vals[0][ok][0] > 0 else -1
        u = sub(t, scale(m, sg))
        if is_num(u) and u == 0 or not is_num(u) and ctx.is_zero(u):
            sm = ctx.sign(m, True)
            return sg if sm == POS else -sg if sm == NEG else 0
    return 0


def by_path_factors(ctx, out, t):
    """t as a product of the factors of the path's own conditions, or None.  The exponents are
    guessed from samples and the identity is then shown over the field"""
    t = forget(ctx, t)
    if is_num(t) or t.k != "lin":
        return None
    f = common_factor(t)
    head, rest = f if f is not None else (1, t)
    if is_num(rest) or rest.k != "lin":
        return None
    bases = {}
    for e, _, _ in out.lits:
        if is_num(e):
            continue
        e = forget(ctx, e)
        if is_num(e):
            continue
        _, odd, even, _ = sign_factors(ctx, e)
        for b in list(odd.values()) + list(even.values()):
            if b.k == "lin" and X.size(b) < 150 and X.variables(b) & X.variables(rest) and not 0 < abs(X.lin_parts(b)[0]) < Fraction(1, 10**5):
                bases[b.id] = b
    bases = sorted(bases.values(), key=X.size)[:14]
    try:
        gens = list(ctx.gens) + bases + roots_of(rest)[:3]
        env = ctx.sample(np.random.default_rng(11), 300)
        with np.errstate(all="ignore"):
            vals = [np.broadcast_to(np.asarray(v, float), (300,)) for v in feval([rest] + gens, env, NP)]
            logs = [np.log(np.abs(v)) for v in vals]
    except (KeyError, TypeError):
        return None
    ok = np.isfinite(logs[0])
    for g in logs[1:]:
        ok &= np.isfinite(g)
    if ok.sum() < len(gens) + 8:
        return None
    cols, keep, pick = [np.ones(ok.sum())], [], []
    for g, v in zip(gens, logs[1:]):
        A = np.column_stack(cols)
        r = v[ok] - A @ np.linalg.lstsq(A, v[ok], rcond=None)[0]
        if np.abs(r).max() > 1e-6:
            cols.append(v[ok])
            keep.append(g)
            pick.append(v)
    m = monomial_fit(keep, pick, logs[0])
    if m is None or is_num(m):
        return None
    mv = np.broadcast_to(np.asarray(feval([m], env, NP)[0], float), (300,))
    i = np.nonzero(ok)[0][0]
    sg = 1 if mv[i] * vals[0][i] > 0 else -1
    u = sub(rest, scale(m, sg))
    if is_num(u) and u == 0 or not is_num(u) and ctx.is_zero(u):
        return mul(head, scale(m, sg))
    return None


def prove_sign(ctx, out, t, mask):
    if is_num(t):
        return "simplification" if (POS if t > 0 else NEG if t < 0 else ZERO) & mask else ""
    enter(ctx, out)
    real_value(ctx, t)
    s = ctx.sign(t, True)
    if not s & ~mask:
        return "sign analysis"
    s &= rule_sign(ctx, t) or ANY
    if not s & ~mask:
        return "sign rules"
    conds = [(e, m) for e, m, _ in out.lits]
    if mask in (POS, NEG) and 30 < X.size(t) < 600:
        ts, m = [t], {e: 0 for e, k in conds if k == ZERO and e.k == "var"}
        if m:
            m.update(getattr(ctx, "consequences", lambda m: {})(m))
            try:
                ts.append(X.subst(t, m))
            except (X.DivByZero, ZeroDivisionError):
                pass
        for t1 in ts:
            if not is_num(t1) and root_multiple(ctx, t1) == (1 if mask == POS else -1):
                return "identity over GF(2^61-1) with a positive root"
    if mask in (POS, NEG) and X.size(t) < 400:
        m = by_path_factors(ctx, out, t)
        if m is not None:
            p = copy.copy(out)
            p.lits = [(e if is_num(e) else forget(ctx, e), k, w) for e, k, w in out.lits]
            p.lits.append((m, ANY ^ mask, ("goal", 0)))
            if conflicting_signs(ctx, p):
                return "identity over GF(2^61-1) with the factors of the path's conditions"
    fl = open_floors(ctx, t)
    if fl:
        t, side = fl
        if is_num(t):
            return "simplification" if (POS if t > 0 else NEG if t < 0 else ZERO) & mask else ""
        conds = conds + side
    if X.size(t) < 120:
        ax = relevant(context_axioms(ctx), [t] + [e for e, _ in conds])
        if z3_unsat(ctx, ax + conds + [(t, ANY ^ mask)]):
            return "z3"
    return ""


# ------------------------------------------------------------------ inputs
def hinge(v, mask):
    """how far a value is from a sign mask"""
    v = np.nan_to_num(np.asarray(v, float), nan=1e30, posinf=1e30, neginf=-1e30)
    a = np.abs(v)
    if mask == POS:
        return np.where(v > 0, 0.0, a + 1e-300)
    if mask == NEG:
        return np.where(v < 0, 0.0, a + 1e-300)
    if mask == ZERO:
        return np.where(a == 0, 0.0, a)
    if mask == POS | ZERO:
        return np.where(v >= 0, 0.0, a)
    if mask == NEG | ZERO:
        return np.where(v <= 0, 0.0, a)
    if mask == NEG | POS:
        return np.where(a > 0, 0.0, 1.0)
    return np.zeros_like(v)


def evaluate(terms, env):
    n = len(next(iter(env.values())))
    with np.errstate(all="ignore"):
        vals = feval([t for t in terms if not is_num(t)], env, NP, {})
    it = iter(vals)
    return [np.broadcast_to(np.asarray(float(t) if is_num(t) else next(it), float), (n,)) for t in terms]


def usable(ctx, lits):
    """literals over the variables that the space of the context fixes"""
    have = set(ctx.space_vars())
    return [(e, m) for e, m in lits if names(e) <= have]


def find_points(ctx, lits, want=6, seed=5, budget=1500, batch=6000):
    """environments of the domain that satisfy the literals (those over input
    variables), by sampling and by descending on their violation"""
    rng = np.random.default_rng(seed)
    one = [(X.var(n), ctx.dom[n]) for n in ctx.space_vars() if ctx.dom.get(n, ANY) in (POS, NEG, NEG | POS)]
    lits = usable(ctx, list(lits) + one + [(n, m) for m, n in ctx.base_facts.values() if m in (POS, NEG, NEG | POS)])
    dim = ctx.space_dim()
    U = ctx.space_sample(rng, batch)
    env = ctx.space_env(U)
    g = sum((hinge(v, m) for v, (_, m) in zip(evaluate([e for e, _ in lits], env), lits)), np.zeros(len(U))) if lits else np.zeros(len(U))
    ok = np.nonzero(g <= 0)[0]
    out = [U[i] for i in ok[:want]]
    if len(out) >= want:
        return out
    order = np.argsort(g)
    t_end = time.time() + 20
    for i in order[:12]:
        if len(out) >= want or time.time() > t_end:
            break
        u = descend(ctx, lits, U[i], dim, budget, rng)
        if u is not None:
            out.append(u)
    return out


def descend(ctx, lits, u0, dim, budget, rng):
    terms = [e for e, _ in lits]

    def score(B):
        env = ctx.space_env(B)
        vals = evaluate(terms, env)
        h = [hinge(v, m) for v, (_, m) in zip(vals, lits)]
        # compressing keeps every literal relevant whatever its scale
        return sum(np.log1p(x * 1e12) for x in h), sum(h)
    best = u0
    s, raw = score(best[None, :])
    bs, br = s[0], raw[0]
    step = 0.5
    n = 0
    while n < budget and br > 0:
        k = 60
        D = rng.normal(size=(k, dim)) * step * 10.0 ** rng.uniform(-6, 0.5, (k, 1))
        mask = rng.random((k, dim)) < 0.4
        mask[np.arange(k), rng.integers(0, dim, k)] = True
        C = best[None, :] + D * mask
        s, raw = score(C)
        i = int(np.argmin(s))
        n += k
        if s[i] < bs:
            best, bs, br = C[i], s[i], raw[i]
            step = min(step * 1.5, 3.0)
        else:
            step = max(step * 0.5, 1e-9)
    if br <= 0:
        return best
    return None
