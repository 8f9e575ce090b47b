"""The context of a symbolic run: the variables with their domains, the facts
of the current path, sign analysis, recognition of monomials, samplers."""
from fractions import Fraction as Fr
import itertools
import math
import random
import zlib

import numpy as np

from . import expr as X
from . import ops
from .expr import (ANY, E, NEG, POS, ZERO, FpPoint, NpLib, add, feval, fn,
                   is_num, mul, mul_parts, powi, scale, sub, var)

NP = NpLib()
STATS = {"z3": 0, "z3_s": 0.0, "recog": 0}


def flip(m):
    return (m & ZERO) | (NEG if m & POS else 0) | (POS if m & NEG else 0)


def mmul(a, b):
    r = 0
    for i, si in ((NEG, -1), (ZERO, 0), (POS, 1)):
        if a & i:
            for j, sj in ((NEG, -1), (ZERO, 0), (POS, 1)):
                if b & j:
                    t = si * sj
                    r |= NEG if t < 0 else POS if t > 0 else ZERO
    return r


def madd(a, b):
    r = 0
    for i in (NEG, ZERO, POS):
        if a & i:
            for j in (NEG, ZERO, POS):
                if b & j:
                    if i == ZERO:
                        r |= j
                    elif j == ZERO or i == j:
                        r |= i
                    else:
                        r |= ANY
    return r


def norm_key(x):
    """x = c * n with c > 0 where possible; returns (node, c) with c's sign kept apart"""
    c, d = mul_parts(x)
    if len(d) == 1 and next(iter(d.values())) == 1:
        return next(iter(d)), c
    n = X.mk_mul(Fr(1), d)
    return n, c


class Ctx:
    def __init__(self, name="ctx"):
        self.name = name
        self.dom = {}           # var -> mask
        self.integers = set()
        self.angles = {}        # var -> (cos(x/2), sin(x/2))
        self.gens = []          # positive basis for monomial recognition
        self.base_facts = {}
        self.facts = {}
        self.fact_list = []     # (E, mask) of the path, for z3
        self.samplers = {}      # var -> callable(rng(np), N, env)
        self.rec_cache = {}
        self.sign_cache = {}
        self.z3_cache = {}
        self.nsample = 48
        self.use_z3 = True
        self._env = None
        self._wide = None
        self._memo = {}
        self.havoc = set()
        self.defs = {}
        self.summaries, self.cases, self.hurry = {}, {}, False
        self.iterates = set()
        self.pool = []
        self.recog_limit = 600
        self.more_cands = 0

    # ------------------------------------------------------------ variables
    def real(self, name, mask=ANY, sampler=None, gen=False, integer=False):
        v = var(name)
        self.dom[name] = mask
        if sampler is not None:
            self.samplers[name] = sampler
        if gen:
            self.gens.append(v)
        if integer:
            self.integers.add(name)
        return v

    def fresh(self, name, mask=ANY, sampler=None):
        if name not in self.dom:
            self.dom[name] = mask
            self.samplers[name] = sampler or default_sampler
            self.havoc.add(name)
            if self._env is not None:
                self._env[name] = self.samplers[name](np.random.default_rng(zlib.crc32(name.encode())), self.nsample, self._env)
        return var(name)

    def let(self, t):
        """a name for a large value that a loop leaves behind"""
        name = "let!%d" % t.id
        if name not in self.defs:
            self.defs[name] = t

            def smp(rng, n, env, t=t):
                r = default_sampler(rng, n, env)
                try:
                    with np.errstate(all="ignore"):
                        v = np.broadcast_to(np.asarray(feval([t], env, NP, {})[0], float), (n,))
                except (KeyError, TypeError, NotImplementedError):
                    return r
                return np.where(np.isfinite(v), v, r)
            self.fresh(name, ANY, smp)
        return var(name)

    def expand(self, t):
        """the term with every such name replaced by what it stands for"""
        for _ in range(30):
            if is_num(t):
                return t
            m = {var(v): self.defs[v] for v in X.variables(t) if v in self.defs}
            if not m:
                return t
            t = X.subst(t, m)
        return t

    def base_fact(self, x, mask):
        if is_num(x):
            return
        n, c = norm_key(x)
        self.base_facts[n.id] = (flip(mask) if c < 0 else mask, n)

    def related(self, a, b):
        """can two sums over these variables be equal although written differently"""
        return bool(a & b) or bool(self.dependent(a) & self.dependent(b))

    def dependent(self, vs):
        g = set()
        for v in vs:
            if v[0] == "Q" and len(v) == 3:
                g.add("Q")
        return g

    def start_path(self):
        self.path_roots = []
        self.facts = dict((k, m) for k, (m, _) in self.base_facts.items())
        self.fact_list = [(n, m) for m, n in self.base_facts.values()]
        self.sign_cache = {}

    def assume(self, x, mask):
        """record x in mask; False when that contradicts what is known"""
        if is_num(x):
            s = POS if x > 0 else NEG if x < 0 else ZERO
            return bool(s & mask)
        n, c = norm_key(x)
        m = flip(mask) if c < 0 else mask
        old = self.facts.get(n.id, ANY)
        new = old & m
        if not new:
            return False
        self.facts[n.id] = new
        self.fact_list.append((n, m))
        self.sign_cache = {}
        return True

    # ------------------------------------------------------------ signs
    def sign(self, x, deep=True):
        if is_num(x):
            return POS if x > 0 else NEG if x < 0 else ZERO
        key = (x.id, deep)
        r = self.sign_cache.get(key)
        if r is None:
            self.sign_cache[key] = ANY
            r = self.sign_cache[key] = self._sign(x, deep)
        return r

    def _sign(self, x, deep):
        r = self._struct_sign(x)
        if bin(r).count("1") > 1 and r != 0 and deep:
            q = self.recog(x)
            if q is not None:
                c, d = q
                m = POS if c > 0 else NEG
                for b, e in d.items():
                    s = self.dom.get(b.a[0], ANY) if b.k == "var" else self.sign(b, False)
                    m = mmul(m, POS if e % 2 == 0 else s)
                r &= m
        if bin(r).count("1") > 1 and deep == 2 and self.use_z3:
            r &= self.z3_sign(x, r)
        return r or ANY

    def _struct_sign(self, x):
        n, c = norm_key(x)
        known = self.facts.get(n.id, ANY)
        if c < 0:
            known = flip(known)
        if x.k == "var":
            r = self.dom.get(x.a[0], ANY)
            if r == ANY and x.a[0] in self.defs:
                r = self.sign(self.defs[x.a[0]], False)
        elif x.k == "mul":
            r = POS
            for b, e in x.a:
                s = self.sign(b, False)
                if e % 2 == 0:
                    s = POS | (ZERO if s & ZERO and e > 0 else 0)
                elif e < 0:
                    s &= ~ZERO
                r = mmul(r, s)
        elif x.k == "lin":
            c0 = x.a[0]
            r = POS if c0 > 0 else NEG if c0 < 0 else ZERO
            for t, q in x.a[1]:
                s = self.sign(t, False)
                r = madd(r, s if q > 0 else flip(s))
                if r == ANY:
                    break
            if r == ANY:
                r = self._bounded_sign(x)
        else:
            r = self._fn_sign(x)
        return (r & known) or ANY

    def _range(self, t):
        """numeric enclosure of a few bounded functions"""
        if t.k == "fn":
            nm = t.a[0]
            if nm == "pi":
                return (3.14159265358979, 3.14159265358980)
            if nm in ("cos", "sin"):
                return (-1.0, 1.0)
            if nm == "acos":
                return (0.0, 3.1415926535898)
            if nm in ("asin", "atan"):
                return (-1.5707963267949, 1.5707963267949)
            if nm == "atan2":
                return (-3.1415926535898, 3.1415926535898)
            if nm == "exp":
                return (0.0, math.inf)
            if nm == "sqrt" and is_num(t.a[1][0]):
                v = math.sqrt(t.a[1][0])
                return (v * (1 - 1e-15), v * (1 + 1e-15))
        s = self.sign(t, False)
        lo = -math.inf if s & NEG else 0.0
        hi = math.inf if s & POS else 0.0
        if t.k == "var" and t.a[0] in self.integers and s == POS:
            lo = 1.0
        return (lo, hi)

    PI_RANGES = {"pi": (1, 1), "acos": (0, 1), "asin": (Fr(-1, 2), Fr(1, 2)), "atan": (Fr(-1, 2), Fr(1, 2)), "atan2": (-1, 1)}

    def _bounded_sign(self, x):
        # bounds kept as r + k pi, k exact
        lo = hi = float(x.a[0])
        kl = kh = Fr(0)
        for t, q in x.a[1]:
            pr = self.PI_RANGES.get(t.a[0]) if t.k == "fn" else None
            if pr:
                a, b = pr
                kl += q * (a if q > 0 else b)
                kh += q * (b if q > 0 else a)
                continue
            a, b = self._range(t)
            q = float(q)
            if q < 0:
                a, b = b, a
            lo += q * a
            hi += q * b
        if kl:
            lo += float(kl) * math.pi
        if kh:
            hi += float(kh) * math.pi
        r = 0
        if not (lo > 1e-13):
            r |= NEG | ZERO if not (lo >= 0) else ZERO
        if not (hi < -1e-13):
            r |= POS | ZERO if not (hi <= 0) else ZERO
        if lo > 1e-13:
            r = POS
        if hi < -1e-13:
            r = NEG
        return r or ANY

    def _fn_sign(self, x):
        nm = x.a[0]
        if nm in ("pi", "exp", "cosh", "one"):
            return POS
        if nm == "sqrt":
            s = self.sign(x.a[1][0], False)
            return POS if not s & ZERO else POS | ZERO
        if nm == "abs":
            s = self.sign(x.a[1][0], False)
            return POS if not s & ZERO else POS | ZERO
        if nm in ("atan", "asin", "sinh", "asinh", "atanh", "sign"):
            return self.sign(x.a[1][0], False)
        if nm == "acos":
            s = self.sign(sub(1, x.a[1][0]), False)
            return POS if not s & ZERO else POS | ZERO
        if nm == "acosh":
            return POS | ZERO
        if nm == "atan2":
            s = self.sign(x.a[1][0], False)
            if s in (POS, NEG):
                return s
            return ANY
        if nm in ("min", "max"):
            a, b = (self.sign(t, False) for t in x.a[1])
            if nm == "min":
                if a == POS and b == POS:
                    return POS
                if not a & NEG and not b & NEG:
                    return POS | ZERO
                if a == NEG or b == NEG:
                    return NEG
            else:
                if a == POS or b == POS:
                    return POS
                if not a & NEG or not b & NEG:
                    return POS | ZERO
            return ANY
        if nm == "pow":
            return POS | ZERO if self.sign(x.a[1][0], False) & ZERO else POS
        if nm == "hyp2f1b":
            return POS
        if nm == "cos":
            return ANY
        return ANY

    # ------------------------------------------------------------ numeric domain samples
    def env(self):
        if self._env is None:
            self._env = self.sample(np.random.default_rng(12345), self.nsample)
            self._memo = {}
        return self._env

    def dom_values(self, nodes):
        env = self.env()
        with np.errstate(all="ignore"):
            return feval(nodes, env, NP, self._memo)

    def sample(self, rng, n, only=None):
        env = {}
        self.sample_base(rng, n, env)
        for v, f in self.samplers.items():
            if v not in env:
                env[v] = f(rng, n, env)
        return env

    def sample_base(self, rng, n, env):
        pass

    def fp_point(self, rng):
        p = FpPoint({}, rng)
        self.fp_base(p)
        return p

    def fp_base(self, p):
        pass

    # ------------------------------------------------------------ monomials
    def recog(self, x):
        """x == c * prod(b ** e) over the basis, exactly (verified over GF(p))"""
        if is_num(x) or x.k != "lin":
            return None
        if x.id in self.rec_cache:
            return self.rec_cache[x.id]
        self.rec_cache[x.id] = None
        r = self._recog(x)
        self.rec_cache[x.id] = r
        return r

    def _recog(self, x):
        nodes = X.topo([x])
        if len(nodes) > self.recog_limit:
            return None
        STATS["recog"] += 1
        vs = {n.a[0] for n in nodes if n.k == "var"}
        subs = []
        for n in nodes:
            if n is x:
                continue
            if n.k == "lin" and len(n.a[1]) + (n.a[0] != 0) > 1:
                subs.append(norm_key(n)[0])
            elif n.k == "fn" and n.a[0] in ("cos", "sin", "sinh", "cosh", "exp"):
                subs.append(n)
        free = [n for n in nodes if n.k == "var" and n not in self.gens and n.a[0] not in self.angles]
        gens = list(self.gens)
        cand = list(dict.fromkeys(free + subs))
        cand = cand[-9:] + cand[:-9][:self.more_cands]
        try:
            vals = self.dom_values([x] + gens + cand)
            mag = abs(float(x.a[0])) + sum(np.abs(np.asarray(v, float)) * abs(float(q)) for (_, q), v in zip(x.a[1], self.dom_values([t for t, _ in x.a[1]])))
        except (KeyError, TypeError):
            return None
        n = self.nsample
        vals = [np.broadcast_to(np.asarray(v, float), (n,)) for v in vals]
        with np.errstate(all="ignore"):
            logs = [np.log(np.abs(v)) for v in vals]
        xv = vals[0]
        ok0 = np.isfinite(logs[0]) & (np.abs(vals[0]) > 1e-7 * mag)
        if ok0.sum() < 12:
            return None
        g = list(range(1, 1 + len(gens)))
        c = list(range(1 + len(gens), 1 + len(gens) + len(cand)))
        gd = bool(vs & {v.a[0] for v in self.gens}) or not cand
        tries = []
        if gens:
            tries.append(g)
        for k in (1, 2):
            for cc in itertools.combinations(c if k == 1 else c[:9], k):
                tries.append((g if gd else []) + list(cc))
        names = [None] + gens + cand
        for t in tries:
            ok = ok0.copy()
            for i in t:
                ok &= np.isfinite(logs[i])
            if ok.sum() < len(t) + 6:
                continue
            A = np.column_stack([logs[i][ok] for i in t] + [np.ones(ok.sum())])
            y = logs[0][ok]
            sol, *_ = np.linalg.lstsq(A, y, rcond=None)
            res = np.abs(A @ sol - y).max()
            if not res < 1e-7:
                continue
            ex = [round(v) for v in sol[:-1]]
            if max(abs(v - e) for v, e in zip(sol[:-1], ex)) > 1e-5 or max([abs(e) for e in ex] + [0]) > 12:
                continue
            d = {names[i]: e for i, e in zip(t, ex) if e}
            if not d:
                continue
            ratio = xv[ok].copy()
            for i, e in zip(t, ex):
                ratio = ratio / vals[i][ok] ** float(e)
            cst = ratio[0]
            if np.abs(ratio - cst).max() > 1e-6 * abs(cst):
                continue
            q = Fr(float(np.median(ratio))).limit_denominator(5000)
            if q == 0 or abs(float(q) - cst) > 1e-6 * abs(cst):
                continue
            m = q
            for b, e in d.items():
                m = mul(m, powi(b, e))
            if self.is_zero(sub(x, m), trials=2):
                return q, d
        return None

    def root_of(self, b):
        """sqrt(b) as a term when b is recognised as a monomial"""
        if is_num(b) or b.k != "lin":
            return None
        q = self.recog(b)
        if q is None:
            return None
        c, d = q
        if any(bb.id == b.id for bb in d):
            return None
        m = c
        for bb, e in d.items():
            m = mul(m, powi(bb, e))
        if is_num(m) or m.id == b.id:
            return None
        if m.k == "lin" and m.a[0] != 0:
            return None
        return ops.sqrt(m)

    # ------------------------------------------------------------ identity test
    def is_zero(self, x, trials=4, seed=7, deriv=False, tries=400):
        """Exact identity test over GF(2^61-1).  True: zero at every point."""
        if is_num(x):
            return x == 0
        nodes = X.topo([x])
        # a root or an absolute value has a sign that the field does not know: many points then
        signs = sum(1 for n in nodes if n.k == "fn" and n.a[0] in ("sqrt", "abs", "min", "max"))
        trials = max(trials, 20) if signs else trials
        done = 0
        for i in range(min(tries, self.POOL)):
            p = self.pool_point(i)
            if p is None:
                continue
            try:
                v, d = p.ev_nodes(nodes)
            except (X.NoRoot, X.Singular):
                continue
            except X.FpUnsupported:
                return None
            if (d if deriv else v) % X.P:
                return False
            done += 1
            if done >= trials:
                return True
        return True if done >= 12 else None

    POOL = 400

    def pool_point(self, i):
        """the i-th of a fixed sequence of points of the field; what is evaluated there is kept"""
        while len(self.pool) <= i:
            p = None
            for k in range(40):
                try:
                    p = self.fp_point(random.Random("%d %d" % (len(self.pool), k)))
                    break
                except (X.NoRoot, X.Singular):
                    p = None
            self.pool.append(p)
        return self.pool[i]

    # ------------------------------------------------------------ z3
    def z3_sign(self, x, mask):
        if len(shallow(x)) > 40:
            return mask
        vs = X.variables(x)
        rel = [(n, m) for n, m in self.fact_list if X.size(n) <= 40 and X.variables(n) <= vs]
        key = (x.id, mask, frozenset((n.id, m) for n, m in rel))
        r = self.z3_cache.get(key)
        if r is None:
            r = self.z3_cache[key] = self._z3_sign(x, mask, rel)
        return r

    def witnessed(self, x, rel):
        """the signs x takes at sampled points that satisfy the facts"""
        if self._wide is None:
            self._wide = {}
            self.sample_base(np.random.default_rng(99), 3000, self._wide)
        env = self._wide
        rng = np.random.default_rng(98)
        try:
            for v in X.topo([x] + [n for n, _ in rel]):
                if v.k == "var" and v.a[0] not in env:
                    f = self.samplers.get(v.a[0])
                    if f is None:
                        return 0
                    env[v.a[0]] = f(rng, 3000, env)
            with np.errstate(all="ignore"):
                vals = [np.broadcast_to(np.asarray(t, float), (3000,)) for t in feval([x] + [n for n, _ in rel], env, NP, {})]
        except (KeyError, TypeError, NotImplementedError):
            return 0
        ok = np.isfinite(vals[0])
        tiny = lambda v: np.abs(v) < 1e-9
        for v, (_, m) in zip(vals[1:], rel):
            g = np.zeros(len(v), bool)
            if m & POS:
                g |= v > 1e-9
            if m & NEG:
                g |= v < -1e-9
            if m & ZERO:
                g |= tiny(v)
            ok &= g
        x0 = vals[0][ok]
        return (POS if (x0 > 1e-7).any() else 0) | (NEG if (x0 < -1e-7).any() else 0)

    def _z3_sign(self, x, mask, rel):
        try:
            import z3
        except ImportError:
            return mask
        import time
        t0 = time.time()
        STATS["z3"] += 1
        r = 0
        try:
            enc = Z3Enc(self)
            zx = enc.term(x)
            base = [enc.mask(enc.term(n), m) for n, m in rel]
            # numeric witnesses first: a sign seen at a sample cannot be excluded
            r = self.witnessed(x, rel) & mask
            if r == mask:
                return mask
            for m, cond in ((NEG, zx < 0), (ZERO, zx == 0), (POS, zx > 0)):
                if not mask & m & ~r:
                    continue
                s = z3.Solver()
                s.set("rlimit", 1000)
                s.add(*enc.side)
                s.add(*base)
                s.add(cond)
                if s.check() != z3.unsat:
                    r |= m
        except Z3Skip:
            r = mask
        STATS["z3_s"] += time.time() - t0
        return r or mask


class Z3Skip(Exception):
    pass


def shallow(x):
    """the nodes the encoding looks at, children first: the arguments of opaque functions are left out"""
    seen, out = set(), []
    st = [(x, False)]
    while st:
        n, done = st.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, True))
        if n.k != "fn" or n.a[0] in ("sqrt", "abs", "min", "max"):
            st += [(c, False) for c in X.children(n) if c.id not in seen]
    return out


class Z3Enc:
    def __init__(self, ctx):
        import z3
        self.z3 = z3
        self.ctx = ctx
        self.memo = {}
        self.side = []

    def mask(self, t, m):
        z3 = self.z3
        return {NEG: t < 0, ZERO: t == 0, POS: t > 0, NEG | ZERO: t <= 0, POS | ZERO: t >= 0, NEG | POS: t != 0,
                ANY: z3.BoolVal(True), 0: z3.BoolVal(False)}[m]

    def q(self, v):
        v = Fr(v)
        return self.z3.RealVal("%d/%d" % (v.numerator, v.denominator))

    def term(self, x):
        z3 = self.z3
        if is_num(x):
            return self.q(x)
        for n in shallow(x):
            if n.id in self.memo:
                continue
            if n.k == "var":
                t = z3.Real(n.a[0])
                self.side.append(self.mask(t, self.ctx.dom.get(n.a[0], ANY)))
            elif n.k == "lin":
                t = self.q(n.a[0])
                for c, q in n.a[1]:
                    t = t + self.q(q) * self.memo[c.id]
            elif n.k == "mul":
                t = None
                for b, e in n.a:
                    if abs(e) > 8:
                        raise Z3Skip()
                    bt = self.memo[b.id]
                    f = bt
                    for _ in range(abs(e) - 1):
                        f = f * bt
                    if e < 0:
                        i = z3.Real("inv!%d!%d" % (b.id, -e))
                        self.side.append(i * f == 1)
                        f = i
                    t = f if t is None else t * f
            else:
                t = z3.Real("f!%d" % n.id)
                nm = n.a[0]
                if nm == "sqrt":
                    a = n.a[1][0]
                    at = self.memo[a.id] if isinstance(a, E) else self.q(a)
                    self.side += [t >= 0, t * t == at]
                elif nm == "abs":
                    a = self.memo[n.a[1][0].id]
                    self.side.append(z3.Or(z3.And(a >= 0, t == a), z3.And(a < 0, t == -a)))
                elif nm in ("min", "max"):
                    a, b = [self.memo[c.id] if isinstance(c, E) else self.q(c) for c in n.a[1]]
                    self.side.append(t == (z3.If(a < b, a, b) if nm == "min" else z3.If(a < b, b, a)))
                elif nm in ("cos", "sin"):
                    self.side += [t >= -1, t <= 1]
                elif nm == "pi":
                    self.side += [t > self.q(Fr(314159265358979, 10 ** 14)), t < self.q(Fr(314159265358980, 10 ** 14))]
                else:
                    lo, hi = self.ctx._range(n)
                    if lo > -math.inf:
                        self.side.append(t >= self.q(Fr(lo).limit_denominator(10 ** 9)) if lo == 0 else t >= self.q(Fr(lo)))
                    if hi < math.inf:
                        self.side.append(t <= self.q(Fr(hi)))
            self.memo[n.id] = t
        return self.memo[x.id]


def default_sampler(rng, n, env):
    """values of a loop variable: any real"""
    k = rng.integers(0, 6, n)
    a = rng.uniform(-1, 1, n)
    b = rng.uniform(-1, 3, n)
    c = rng.normal(size=n) * 10.0 ** rng.uniform(-3, 2, n)
    d = rng.uniform(0, 1, n)
    e = rng.uniform(0, 12, n)
    f = 10.0 ** rng.uniform(-4, 3, n)
    return np.select([k == 0, k == 1, k == 2, k == 3, k == 4], [a, b, c, d, e], f)


def logu(lo, hi):
    return lambda rng, n, env: 10.0 ** rng.uniform(math.log10(lo), math.log10(hi), n)


class Frame(Ctx):
    """Geometry of a Lambert problem: r1 = R1 e1, r2 = R2 (cos th e1 + sin th e2),
    e3 = e1 x e2 the normal of the motion, th in (0, pi) or (pi, 2 pi).
      R1 = u^2, R2 = w^2, mu = nu^2, ch = cos(th/2), sh = sin(th/2),
      C = |r2 - r1|, s = sqrt((R1 + R2 + C)/2); Q the matrix of e1, e2, e3."""

    def __init__(self, short=True, prograde=True):
        super().__init__("frame")
        self.short, self.prograde = short, prograde
        g = lambda n, m=POS: self.real(n, m, gen=True)
        self.nu, self.u, self.w, self.s, self.C = g("nu"), g("u"), g("w"), g("s"), g("C")
        self.ch = g("ch", POS if short else NEG)
        self.sh = g("sh")
        self.th = self.real("th", POS)
        self.angles["th"] = (self.ch, self.sh)
        self.Q = [[self.real("Q%d%d" % (i, j), ANY) for j in (1, 2, 3)] for i in (1, 2, 3)]
        self.dom["Q33"] = POS if prograde else NEG
        self.mu = self.nu ** 2
        self.R1, self.R2 = self.u ** 2, self.w ** 2
        self.cth = sub(scale(powi(self.ch, 2), 2), 1)
        self.sth = scale(mul(self.ch, self.sh), 2)
        pi = X.PI
        self.base_fact(sub(scale(pi, 2), self.th), POS)
        self.base_fact(sub(pi, self.th), POS if short else NEG)
        u2, w2 = mul(self.u, self.u), mul(self.w, self.w)
        for t in (add(sub(self.C, u2), w2), sub(add(self.C, u2), w2), sub(add(u2, w2), self.C)):
            self.base_fact(t, POS)
        self.base_fact(sub(1, self.sh), POS)
        self.base_fact(sub(self.ch, 1), NEG)
        self.base_fact(add(self.ch, 1), POS)
        self.base_fact(sub(add(mul(self.ch, self.ch), mul(self.sh, self.sh)), 1), ZERO)

    def sample_base(self, rng, n, env):
        k = rng.integers(0, 4, n)
        mu = np.select([k == 0, k == 1], [np.full(n, 1.0), 10.0 ** rng.uniform(-3, 3, n)], 10.0 ** rng.uniform(-1, 1, n))
        R1 = np.where(k == 2, 1.0, 10.0 ** rng.uniform(-2, 2, n))
        R2 = R1 * np.where(rng.random(n) < 0.6, 10.0 ** rng.uniform(-0.5, 0.5, n), 10.0 ** rng.uniform(-2, 2, n))
        th = rng.uniform(0.02, np.pi - 0.02, n)
        if not self.short:
            th = 2 * np.pi - th
        self._fill(env, mu, R1, R2, th, rng, n)

    def _fill(self, env, mu, R1, R2, th, rng, n, q=None):
        sq, cos, sin = np.sqrt, np.cos, np.sin
        env["nu"], env["u"], env["w"] = sq(mu), sq(R1), sq(R2)
        env["th"], env["ch"], env["sh"] = th, cos(th / 2), sin(th / 2)
        C = sq((R1 - R2) ** 2 + 4 * R1 * R2 * sin(th / 2) ** 2)
        env["C"] = C
        env["s"] = sq((R1 + R2 + C) / 2)
        if q is None:
            q = rng.normal(size=(4, n))
            q /= np.sqrt((q ** 2).sum(0))
        m = _quat(*q)
        # e3.z positive for prograde: flip e2 and e3 (half turn about e1) otherwise
        bad = (m[2][2] < 0) if self.prograde else (m[2][2] > 0)
        f = np.where(bad, -1.0, 1.0)
        for i in range(3):
            for j in range(3):
                env["Q%d%d" % (i + 1, j + 1)] = m[i][j] * (f if i else 1.0)

    # the input space, for the search of concrete inputs
    def consequences(self, m):
        """what the vanishing of the horizontal components of the normal says about the frame"""
        Q = self.Q
        if not (Q[2][0] in m and Q[2][1] in m):
            return {}
        k = 1 if self.prograde else -1
        t = self.fresh("equatorial")
        d = powi(add(1, powi(t, 2)), -1)
        x, y = mul(sub(1, powi(t, 2)), d), mul(scale(t, 2), d)
        return {Q[2][2]: k, Q[0][2]: 0, Q[1][2]: 0, Q[0][0]: x, Q[0][1]: y, Q[1][0]: scale(y, -k), Q[1][1]: scale(x, k)}

    def space_dim(self):
        return 8 + len(self.extra_space())

    def extra_space(self):
        return [n for n in ("tof", "atol", "rtol") if n in self.dom]

    def space_vars(self):
        return ["nu", "u", "w", "th", "ch", "sh", "C", "s"] + ["Q%d%d" % (i, j) for i in (1, 2, 3) for j in (1, 2, 3)] + self.extra_space() + [
            n for n in ("maxiter", "k") if n in self.dom]

    SPECIAL_Q = [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 0, 0), (1, 0, 0, 1), (1, 0, 1, 0), (1, 1, 1, 1), (1, 2, 0, 0)]

    def space_sample(self, rng, n):
        U = np.zeros((n, self.space_dim()))
        U[:, 0] = rng.choice([0.0, 1.0], n) * rng.normal(size=n) * 3
        U[:, 1] = rng.normal(size=n)
        U[:, 2] = U[:, 1] + rng.choice([0.0, 0.1, 1.0, 1.0], n) * rng.normal(size=n)
        U[:, 3] = rng.uniform(-6, 6, n)
        U[:, 4:8] = rng.normal(size=(n, 4))
        sp = rng.random(n) < 0.2
        k = rng.integers(0, len(self.SPECIAL_Q), n)
        U[sp, 4:8] = np.array(self.SPECIAL_Q, float)[k[sp]]
        for i, v in enumerate(self.extra_space()):
            U[:, 8 + i] = {"tof": rng.uniform(-4, 4, n), "atol": rng.uniform(-25, -9, n), "rtol": rng.uniform(-28, -14, n)}[v]
        return U

    def space_env(self, U):
        env = {}
        n = len(U)
        ex = lambda x: np.exp(np.clip(x, -60, 60))
        th = np.pi / (1 + ex(-U[:, 3]))
        th = np.clip(th, 2e-9, np.pi - 2e-9)
        if not self.short:
            th = 2 * np.pi - th
        q = U[:, 4:8]
        nq = np.sqrt((q ** 2).sum(1))
        nq[nq == 0] = 1.0
        q = (q / nq[:, None]).T
        mu, R1, R2 = ex(U[:, 0]), ex(U[:, 1]), ex(U[:, 2])
        self._fill(env, mu, R1, R2, th, None, n, q)
        # sin and cos of the half angle are exact to the last digits near 0 and pi
        for i, v in enumerate(self.extra_space()):
            env[v] = ex(U[:, 8 + i]) * (np.sqrt(R1 ** 3 / mu) if v == "tof" else 1.0)
        if "maxiter" in self.dom:
            env["maxiter"] = np.full(n, 35.0)
        if "k" in self.dom:
            env["k"] = np.full(n, 1.0)
        return env

    def axioms(self):
        """facts of the geometry, for z3; vectors closer to collinear than 1e-9 are outside the domain"""
        dot = lambda a, b: add(add(mul(a[0], b[0]), mul(a[1], b[1])), mul(a[2], b[2]))
        Q = self.Q
        out = [(sub(dot(Q[i], Q[j]), 1 if i == j else 0), ZERO) for i in range(3) for j in range(i, 3)]
        for k in range(3):
            a, b = (k + 1) % 3, (k + 2) % 3
            out.append((sub(Q[2][k], sub(mul(Q[0][a], Q[1][b]), mul(Q[0][b], Q[1][a]))), ZERO))
        out.append((sub(mul(self.ch, self.sh), Fr(5, 10 ** 10)), POS) if self.short else (add(mul(self.ch, self.sh), Fr(5, 10 ** 10)), NEG))
        return out

    def concrete(self, env, i=0):
        """the input vectors of a point of the space"""
        g = lambda n: float(np.broadcast_to(env[n], (len(env["th"]),))[i])
        R1, R2, th = g("u") ** 2, g("w") ** 2, g("th")
        e1, e2 = [[g("Q%d%d" % (k, j)) for j in (1, 2, 3)] for k in (1, 2)]
        c, s = math.cos(th), 2 * g("ch") * g("sh")
        r1 = [R1 * x for x in e1]
        r2 = [R2 * (c * x + s * y) for x, y in zip(e1, e2)]
        out = {"mu": g("nu") ** 2, "r1": r1, "r2": r2}
        for n in self.extra_space():
            out[n] = g(n)
        return out

    def fp_base(self, p):
        r = p.rnd
        env = p.env
        nu, u, w = (r(), r()), (r(), r()), (r(), r())
        env["nu"], env["u"], env["w"] = nu, u, w
        t = r()
        i = X.inv(1 + t * t)
        c, s = (1 - t * t) * i % X.P, 2 * t * i % X.P
        dth = r()
        env["th"] = (r(), dth)
        h = X.inv(2)
        env["ch"] = (c, (X.P - s) * dth % X.P * h % X.P)
        env["sh"] = (s, c * dth % X.P * h % X.P)
        p.known_angles[self.th.id] = (c, s)
        # C^2 = (R1 - R2)^2 + 4 R1 R2 sh^2
        Cx = add(powi(sub(powi(self.u, 2), powi(self.w, 2)), 2), scale(mul(powi(mul(self.u, self.w), 2), powi(self.sh, 2)), 4))
        v, d = p.ev(Cx)
        C = p.root(v)
        env["C"] = (C, d * X.inv(2 * C) % X.P)
        v, d = p.ev(scale(add(add(powi(self.u, 2), powi(self.w, 2)), self.C), Fr(1, 2)))
        s = p.root(v)
        env["s"] = (s, d * X.inv(2 * s) % X.P)
        fp_rotation(p)


def _quat(a, b, c, d):
    return [[a * a + b * b - c * c - d * d, 2 * (b * c + a * d), 2 * (b * d - a * c)],
            [2 * (b * c - a * d), a * a - b * b + c * c - d * d, 2 * (c * d + a * b)],
            [2 * (b * d + a * c), 2 * (c * d - a * b), a * a - b * b - c * c + d * d]]


def fp_rotation(p):
    q = [(p.rnd(), p.rnd()) for _ in range(4)]
    n = sum(v * v for v, _ in q) % X.P
    dn = sum(2 * v * d for v, d in q) % X.P
    i = X.inv(n)
    # evaluate the quaternion matrix and its derivative by polarisation
    val = _quat(*[v for v, _ in q])
    plus = _quat(*[v + d for v, d in q])
    minus = _quat(*[v - d for v, d in q])
    h = X.inv(4)
    for r in range(3):
        for c in range(3):
            v = val[r][c] % X.P
            dv = (plus[r][c] - minus[r][c]) * X.inv(2) % X.P
            # quadratic form: f(q+d) - f(q-d) = 2 df
            p.env["Q%d%d" % (r + 1, c + 1)] = (v * i % X.P, (dv * i - v * dn % X.P * i % X.P * i) % X.P)


class Collinear(Frame):
    """r1 = R1 e1 and r2 = +-R2 e1; the plane of the motion is undefined, Q any rotation"""

    def __init__(self, sense=1, bigger=True, prograde=True):
        Ctx.__init__(self, "collinear")
        self.short, self.prograde, self.collinear, self.bigger = True, prograde, sense, bigger
        g = lambda n, m=POS: self.real(n, m, gen=True)
        self.nu, self.u, self.w = g("nu"), g("u"), g("w")
        one, zero = Fr(1), Fr(0)
        self.ch, self.sh = (one, zero) if sense > 0 else (zero, one)
        self.cth, self.sth = Fr(sense), zero
        self.th = zero if sense > 0 else X.PI
        self.Q = [[self.real("Q%d%d" % (i, j), ANY) for j in (1, 2, 3)] for i in (1, 2, 3)]
        self.mu = self.nu ** 2
        self.R1, self.R2 = self.u ** 2, self.w ** 2
        if sense > 0:
            self.base_fact(sub(self.R1, self.R2), POS if bigger else NEG)
            self.base_fact(sub(self.u, self.w), POS if bigger else NEG)

    def sample_base(self, rng, n, env):
        U = self.space_sample(rng, n)
        e = self.space_env(U)
        for k, v in e.items():
            if k not in ("tof", "atol", "rtol", "maxiter", "k"):
                env[k] = v

    def _fill(self, env, mu, R1, R2, th, rng, n, q=None):
        if self.collinear > 0:
            lo, hi = np.minimum(R1, R2), np.maximum(R1, R2) * (1 + 1e-9)
            R1, R2 = (hi, lo) if self.bigger else (lo, hi)
        env["nu"], env["u"], env["w"] = np.sqrt(mu), np.sqrt(R1), np.sqrt(R2)
        env["th"] = np.full(n, 0.0 if self.collinear > 0 else np.pi)
        m = _quat(*q)
        for i in range(3):
            for j in range(3):
                env["Q%d%d" % (i + 1, j + 1)] = m[i][j] * np.ones(n)

    def space_vars(self):
        return ["nu", "u", "w"] + ["Q%d%d" % (i, j) for i in (1, 2, 3) for j in (1, 2, 3)] + self.extra_space() + [
            n for n in ("maxiter", "k") if n in self.dom]

    def axioms(self):
        dot = lambda a, b: add(add(mul(a[0], b[0]), mul(a[1], b[1])), mul(a[2], b[2]))
        Q = self.Q
        return [(sub(dot(Q[i], Q[j]), 1 if i == j else 0), ZERO) for i in range(3) for j in range(i, 3)]

    def concrete(self, env, i=0):
        """exactly collinear vectors: dyadic multiples of one vector"""
        g = lambda n: float(np.broadcast_to(env[n], (len(env["th"]),))[i])
        e1 = [g("Q1%d" % j) for j in (1, 2, 3)]
        R1, R2 = g("u") ** 2, g("w") ** 2
        q = 2.0 ** round(math.log2(R2 / R1))
        if self.collinear > 0 and q == 1.0:
            q = 2.0 if R2 > R1 else 0.5
        r1 = [R1 * x for x in e1]
        out = {"mu": g("nu") ** 2, "r1": r1, "r2": [self.collinear * q * x for x in r1]}
        for n in self.extra_space():
            out[n] = g(n)
        return out

    def fp_base(self, p):
        for n in ("nu", "u", "w"):
            p.env[n] = (p.rnd(), p.rnd())
        fp_rotation(p)
