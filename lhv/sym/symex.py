"""Verification-condition generator: executes the real functions of /repo on
symbolic arguments, path by path, over the real numbers.

Loops whose control is symbolic are cut: the variables the body assigns are
replaced by fresh ones (an arbitrary iteration), and the body is executed once;
what leaves the body (break, return, raise), or the exhausted iteration, are
the only ways on.  Callees are inlined unless they have a contract."""
import ast
import math
import os
from fractions import Fraction as Fr

from . import expr as X
from . import ops
from .expr import ANY, E, NEG, POS, ZERO, add, div, is_num, mul, powi, scale, sub

INF = float("inf")


class Unsupported(Exception):
    pass


class Prune(Exception):
    """this path cannot happen, or is covered by another one"""


class SymRaise(Exception):
    def __init__(self, name, msg="", where=None):
        self.name, self.msg, self.where = name, msg, where


class Suspend(Exception):
    """the path waits at a loop head"""

    def __init__(self, key):
        self.key = key


def merge(ent, facts, flist, lits, conv, met=frozenset()):
    changed = bool(ent["met"] - met)
    ent["met"] = ent["met"] & met
    f = {}
    for k, m in ent["facts"].items():
        if k in facts:
            f[k] = m | facts[k]
            if f[k] != m:
                changed = True
            if f[k] == ANY:
                del f[k]
        else:
            changed = True
    ent["facts"] = f
    ids = {(n.id, m) for n, m in flist}
    new = [(n, m) for n, m in ent["flist"] if (n.id, m) in ids]
    changed = changed or len(new) != len(ent["flist"])
    ent["flist"] = new
    ids = {(X.E.__hash__(e) if False else e.id, m) for e, m, _ in lits}
    new = [t for t in ent["lits"] if (t[0].id, t[1]) in ids]
    changed = changed or len(new) != len(ent["lits"])
    ent["lits"] = new
    ids = {(c[0], c[1].id if isinstance(c[1], E) else c[1]) for c in conv}
    new = [c for c in ent["conv"] if (c[0], c[1].id if isinstance(c[1], E) else c[1]) in ids]
    changed = changed or len(new) != len(ent["conv"])
    ent["conv"] = new
    return changed


_LOADED = {}
_LIVE = {}


def loaded_names(node):
    r = _LOADED.get(id(node))
    if r is None:
        r = _LOADED[id(node)] = (node, sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name)}))
    return r[1]


def live_names(node, line):
    """names of a function that may still be read at or after a line"""
    key = (id(node), line)
    r = _LIVE.get(key)
    if r is not None:
        return r[1]
    start = line
    for n in ast.walk(node):
        if isinstance(n, (ast.For, ast.While)) and n.lineno <= line <= n.end_lineno:
            start = min(start, n.lineno)
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.lineno >= start:
            out.add(n.id)
        elif isinstance(n, (ast.AugAssign,)) and n.lineno >= start:
            out |= {m.id for m in ast.walk(n.target) if isinstance(m, ast.Name)}
        elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
            out |= {m.id for m in ast.walk(n) if isinstance(m, ast.Name)}
    _LIVE[key] = (node, out)
    return out


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


EXC_PARENTS = {
    "Exception": [], "ArithmeticError": ["Exception"], "ZeroDivisionError": ["ArithmeticError", "Exception"],
    "FloatingPointError": ["ArithmeticError", "Exception"], "OverflowError": ["ArithmeticError", "Exception"],
    "ValueError": ["Exception"], "RuntimeError": ["Exception"], "NotImplementedError": ["RuntimeError", "Exception"],
    "TypeError": ["Exception"], "IndexError": ["LookupError", "Exception"], "KeyError": ["LookupError", "Exception"],
    "LookupError": ["Exception"], "AssertionError": ["Exception"], "AttributeError": ["Exception"],
    "UnboundLocalError": ["NameError", "Exception"], "NameError": ["Exception"], "StopIteration": ["Exception"],
}


# ------------------------------------------------------------------ values

class B:
    """symbolic boolean: ('lit', e, mask) / ('and', a, b) / ('or', a, b) / ('not', a)"""
    __slots__ = ("op", "x", "y")

    def __init__(self, op, x, y=None):
        self.op, self.x, self.y = op, x, y


def lit(e, mask):
    if is_num(e):
        return bool((POS if e > 0 else NEG if e < 0 else ZERO) & mask)
    return B("lit", e, mask)


def b_not(b):
    if isinstance(b, bool):
        return not b
    return B("not", b)


def b_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return B("and", a, b)


def b_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return B("or", a, b)


class Cx:
    __slots__ = ("re", "im")

    def __init__(self, re, im=Fr(0)):
        self.re, self.im = re, im

    def __repr__(self):
        return "Cx(%r, %r)" % (self.re, self.im)


class Arr:
    __slots__ = ("shape", "data", "origin")

    def __init__(self, shape, data, origin=None):
        self.shape, self.data, self.origin = tuple(shape), list(data), origin

    def __repr__(self):
        return "Arr%r%r" % (self.shape, self.data)


class Vec:
    """vector given by its coefficients on the frame e1, e2, e3"""
    __slots__ = ("c", "origin", "by_contract")

    def __init__(self, c, origin=None):
        self.c, self.origin = list(c), origin

    def __repr__(self):
        return "Vec(%r, %r, %r)" % tuple(self.c)


class AbsSeq:
    """a sequence of unknown length and contents"""
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag


class Opaque:
    __slots__ = ("name", "e")

    def __init__(self, name):
        self.name, self.e = name, None


class NotShape3(Opaque):
    """an array (or the shape of one) whose shape is anything but (3,)"""


class VecEq:
    """elementwise (in)equality of two vectors, kept as their difference"""

    def __init__(self, d, ne):
        self.d, self.ne = d, ne


class Closure:
    __slots__ = ("node", "env", "mod", "name", "defaults", "kwdefaults")

    def __init__(self, node, env, mod, name, defaults, kwdefaults):
        self.node, self.env, self.mod, self.name = node, env, mod, name
        self.defaults, self.kwdefaults = defaults, kwdefaults


class Ext:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class Bound:
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ExcVal:
    __slots__ = ("name", "msg")

    def __init__(self, name, msg=""):
        self.name, self.msg = name, msg


class Record:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Undef:
    pass


UNDEF = Undef()


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.tree = ast.parse(open(path).read(), path)
        self.env = {"__name__": name, "__file__": path}
        self.loaded = False


class World:
    """the modules of /repo, parsed from the working tree"""

    def __init__(self, src):
        self.src = src
        self.entered = set()
        self.mods = {}

    def path_of(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p):
            p = os.path.join(p, "__init__")
        return p + ".py"

    def module(self, name):
        m = self.mods.get(name)
        if m is None:
            path = self.path_of(name)
            if not os.path.exists(path):
                raise Unsupported("module " + name)
            m = self.mods[name] = Module(name, path)
            it = Interp(self, None)
            it.load(m)
        return m

    def func(self, mod, name):
        v = self.module(mod).env.get(name)
        if not isinstance(v, Closure):
            raise Unsupported("%s.%s is not a function" % (mod, name))
        return v


def assigned_names(stmts):
    """names a block assigns or mutates (not looking into nested functions)"""
    out = {}

    def target(t):
        if isinstance(t, ast.Name):
            out[t.id] = 1
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                target(x)
        elif isinstance(t, (ast.Subscript, ast.Attribute, ast.Starred)):
            b = t.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                out[b.id] = 1
            elif isinstance(t, ast.Starred):
                target(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            target(n.target)
        elif isinstance(n, ast.For):
            target(n.target)
        elif isinstance(n, ast.NamedExpr):
            target(n.target)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                "append", "extend", "insert", "pop", "remove", "sort", "fill", "update", "clear", "reverse"):
            target(n.func.value if isinstance(n.func.value, ast.Name) else n.func)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in stmts:
        walk(s)
    return list(out)


def leaving(stmts):
    """the block never reaches the next iteration of the loop it belongs to"""
    return bool(stmts) and isinstance(stmts[-1], (ast.Break, ast.Return, ast.Raise)) and not has_node(stmts, ast.Continue)


def conjuncts(b):
    if isinstance(b, B) and b.op == "and":
        return conjuncts(b.x) + conjuncts(b.y)
    return [b]


def decreases(a, b):
    """the quantity a loop condition keeps on one side of zero moves towards the other by a constant"""
    if not (isinstance(a, B) and isinstance(b, B) and a.op == b.op == "lit" and a.y == b.y):
        return False
    d = sub(b.x, a.x)
    return is_num(d) and (d < 0 and a.y in (POS, POS | ZERO) or d > 0 and a.y in (NEG, NEG | ZERO))


def carried_names(stmts):
    """names whose value at the head of the next iteration may come from the body of the loop: those
    assigned only on the way out of it are left as they were"""
    class Cut(ast.NodeTransformer):
        def visit_If(self, n):
            n = ast.If(n.test, n.body, n.orelse)
            n.body = [ast.Pass()] if leaving(n.body) else [self.visit(x) for x in n.body]
            n.orelse = [] if leaving(n.orelse) else [self.visit(x) for x in n.orelse]
            return n

        def visit_While(self, n):
            return n

        visit_For = visit_Try = visit_With = visit_FunctionDef = visit_While

    keep = [Cut().visit(x) for x in stmts]
    return assigned_names(keep)


def has_node(stmts, kinds):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, kinds):
                return True
    return False


class Outcome:
    def __init__(self, kind, value, interp):
        self.kind, self.value = kind, value        # 'return' | 'raise' | 'unsupported'
        self.lits = interp.lits                    # (E, mask, where)
        self.conv = interp.conv                    # assumed roots of library calls
        self.events = interp.events
        self.loops = interp.loops
        self.met = frozenset(interp.met)
        self.calls = interp.calls
        self.partial = interp.partial
        self.abstract = interp.abstract
        self.facts = dict(interp.ctx.facts)
        self.fact_list = list(interp.ctx.fact_list)
        self.path_roots = list(interp.ctx.path_roots)
        self.where = None


def sources(ctx, t, met=frozenset()):
    """iterates in a value: variables loops leave behind, and helpers whose loops are out of sight;
    what went into a helper that has tested its own iterate does not matter"""
    out, seen = [], set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, E):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.k == "var":
                v = x.a[0]
                if v in ctx.defs:
                    todo.append(ctx.defs[v])
                elif v in ctx.havoc and "@" in v and not v.startswith(("unk.", "perf", "clock")):
                    out.append(x)
                continue
            if x.k == "fn" and x.a[0].startswith("u:"):
                if x.id in ctx.iterates:
                    out.append(x)
                if ("clean", x.id) in met:
                    continue
            todo += X.children(x)
        elif isinstance(x, (tuple, list)):
            todo += list(x)
        elif isinstance(x, Vec):
            todo += list(x.c)
        elif isinstance(x, Arr):
            todo += list(x.data)
        elif isinstance(x, Cx):
            todo += [x.re, x.im]
    return out


def loop_of(n):
    """where an iterate comes from"""
    return n.a[0].split("@")[1].split(":")[0] if n.k == "var" else ".".join(n.a[0][2:].split(".")[:2])


def unconverged(ctx, v, met, extra=()):
    """the functions whose iterates are in the value without any convergence test about them"""
    g = {}
    for n in sources(ctx, v, met):
        if n.id not in extra:
            g.setdefault(loop_of(n), []).append(n.id in met)
    return sorted(k for k, m in g.items() if not any(m) and k not in met)


def unmet(it, v, r, args):
    """a summarised helper whose value is an iterate it has not tested is one itself"""
    ex = {n.id for a in args if isinstance(a, E) for n in sources(it.ctx, a)}
    todo = [(v, r)]
    while todo:
        v, x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo += list(zip(v, x))
        elif isinstance(x, Cx):
            todo += [(v, x.re), (v, x.im)]
        elif isinstance(x, E):
            if unconverged(it.ctx, v, it.met, ex):
                it.ctx.iterates.add(x.id)
            else:
                it.met.add(x.id)
                if not unconverged(it.ctx, v, it.met):
                    it.met.add(("clean", x.id))


TINY = Fr(1, 10 ** 6)


def converges(ctx, e, m):
    """is the condition of the form |difference| <= tolerance, with a tolerance made of atol and rtol or tiny?"""
    if m == ZERO:
        return True
    if m in (POS, POS | ZERO):
        e = X.neg(e)
    elif m not in (NEG, NEG | ZERO):
        return False
    if is_num(e):
        return False
    c, d = X.lin_parts(e)
    if c > 0 or -c > TINY:
        return False
    size, tol = False, bool(c)
    for n, q in d.items():
        if not ctx.sign(scale(n, q), False) & NEG:
            size = True
        elif X.variables(n) & {"atol", "rtol"} or abs(q) <= TINY:
            tol = True
        else:
            return False
    return size and tol


class Interp:
    MAXDEPTH = 40

    def __init__(self, world, ctx, contracts=None, prefix=(), peel=0):
        self.world, self.ctx = world, ctx
        self.contracts = contracts or {}
        self.prefix = list(prefix)
        self.decisions = []
        self.alts = []
        self.lits = []
        self.conv = []
        self.met = set()        # ids of the iterates that a convergence test of the path speaks about
        self.events = []
        self.loops = []
        self.calls = []
        self.nloop = 0
        self.nfresh = 0
        self.depth = 0
        self.line = None
        self.fname = ""
        self.steps = 0
        self.peel = peel
        self.partial = []
        self.abstract = []
        self.frames = []
        self.iters = []
        self.names = {}
        self.table = None
        self.heads = []
        self.coarse = False
        self.symloop = 0
        self.want_merge = False
        self.unroll = 0         # > 0: loops are unrolled up to that many rounds, and equality of
                                # sums is left open both ways (absorption in floating point)

    # ------------------------------------------------------------ modules
    def load(self, m):
        if m.loaded:
            return
        m.loaded = True
        for st in m.tree.body:
            if isinstance(st, ast.FunctionDef):
                m.env[st.name] = self.make_closure(st, None, m)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self.do_import(st, m.env)
            elif isinstance(st, ast.Assign):
                try:
                    v = self.ev(st.value, Env(m.env, None, m))
                    for t in st.targets:
                        self.assign(t, v, Env(m.env, None, m))
                except (Unsupported, SymRaise, Prune, AttributeError, TypeError):
                    for t in st.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                m.env[n.id] = Opaque(n.id)
            elif isinstance(st, ast.ClassDef):
                m.env[st.name] = Ext("class:" + st.name)

    def make_closure(self, node, env, mod):
        e = Env(mod.env, None, mod) if env is None else env
        a = node.args
        d = []
        for x in a.defaults:
            try:
                d.append(self.ev(x, e))
            except Unsupported:
                d.append(Opaque("default"))
        kd = {}
        for k, x in zip(a.kwonlyargs, a.kw_defaults):
            if x is not None:
                kd[k.arg] = self.ev(x, e)
        return Closure(node, env, mod, getattr(node, "name", "<lambda>"), d, kd)

    def do_import(self, st, env):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    env[a.asname] = Ext(a.name)
                else:
                    env[a.name.split(".")[0]] = Ext(a.name.split(".")[0])
            return
        mod = st.module or ""
        for a in st.names:
            name = a.asname or a.name
            if mod == "lamberthub" or mod.startswith("lamberthub."):
                sub_name = mod + "." + a.name
                p = os.path.join(self.world.src, *sub_name.split("."))
                if os.path.isdir(p) or os.path.exists(p + ".py"):
                    env[name] = Ext("mod:" + sub_name)
                else:
                    m = self.world.module(mod)
                    if a.name in m.env:
                        env[name] = m.env[a.name]
                    else:
                        env[name] = Ext("missing:" + sub_name)
            else:
                from . import extern
                q = mod + "." + a.name
                env[name] = extern.CONSTS[q]() if q in extern.CONSTS else Ext(q)

    # ------------------------------------------------------------ decisions
    def choose(self, n, tag):
        i = len(self.decisions)
        v = self.prefix[i] if i < len(self.prefix) else 0
        self.decisions.append(v)
        self.alts.append(n)
        return v

    def fresh(self, hint, mask=ANY, sampler=None, integer=False):
        self.nfresh += 1
        site = (hint, self.fname, self.line)
        k = self.names[site] = self.names.get(site, 0) + 1
        name = "%s@%s:%s#%d" % (hint, self.fname, self.line, k)
        v = self.ctx.fresh(name, mask, sampler)
        if integer:
            self.ctx.integers.add(name)
        return v

    def unknown(self, hint):
        """a value the semantics leaves open"""
        self.abstract.append((hint, self.where()))
        return self.fresh("unk." + hint)

    def decide(self, e, mask, where=None):
        if self.unroll and mask in (ZERO, NEG | POS):
            take = self.choose(2, "lit") == 0
            self.lits.append((e, mask if take else ANY ^ mask, ("absorb",) + self.where()))
            return take
        s = self.ctx.sign(e, 2)
        if not s & ~mask:
            return True
        if not s & mask:
            return False
        take = self.choose(2, "lit") == 0
        m = mask if take else ANY ^ mask
        if not self.ctx.assume(e, m & s or m):
            raise Prune()
        self.lits.append((e, m, (self.fname, self.line)))
        self.note(e, m)
        return take

    def note(self, e, m):
        """iterates that a convergence test speaks about"""
        if self.ctx.havoc and converges(self.ctx, e, m):
            for n in sources(self.ctx, e):
                self.met |= {n.id, loop_of(n)}

    def assume(self, b):
        """continue only where b holds"""
        if not self.truth(b):
            raise Prune()

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, B):
            if v.op == "lit":
                return self.decide(v.x, v.y)
            if v.op == "not":
                return not self.truth(v.x)
            if v.op == "and":
                return self.truth(v.x) and self.truth(v.y)
            if v.op == "or":
                return self.truth(v.x) or self.truth(v.y)
        if is_num(v):
            return v != 0
        if isinstance(v, E):
            return self.decide(v, NEG | POS)
        if isinstance(v, float):
            return v != 0
        if isinstance(v, (str, list, tuple, dict)):
            return len(v) > 0
        if isinstance(v, (Closure, Ext)):
            return True
        if isinstance(v, Arr) and len(v.data) == 1:
            return self.truth(v.data[0])
        if isinstance(v, Cx):
            return self.truth(b_or(lit(v.re, NEG | POS), lit(v.im, NEG | POS)))
        if isinstance(v, AbsSeq):
            return self.choose(2, "absseq") == 0
        if isinstance(v, Opaque):
            return self.choose(2, "opaque") == 0
        if isinstance(v, (Arr, Vec)):
            raise SymRaise("ValueError", "ambiguous truth value of an array", self.where())
        if isinstance(v, VecEq):
            raise SymRaise("ValueError", "ambiguous truth value of an array", self.where())
        raise Unsupported("truth of %s" % type(v).__name__)

    def where(self):
        return (self.fname, self.line)

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for st in stmts:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.steps += 1
        if self.steps > 60000:
            raise Unsupported("step budget")
        self.line = st.lineno
        if self.frames:
            fr = self.frames[-1]
            fr[2], fr[3] = st, []
        k = type(st).__name__
        f = getattr(self, "s_" + k, None)
        if f is None:
            raise Unsupported("statement " + k)
        n0 = len(self.loops)
        try:
            f(st, env)
            if self.want_merge or (n0 < len(self.loops) and k in ("While", "For")):
                self.want_merge = False
                if self.frames:
                    self.frames[-1][2], self.frames[-1][3] = st, []
                self.loop_head(st, "after")
        except (Unsupported, X.DivByZero):
            if getattr(self, "where_unsup", None) is None:
                self.where_unsup = (self.fname, st.lineno)
            raise

    def s_Pass(self, st, env):
        pass

    def s_Expr(self, st, env):
        self.ev(st.value, env)

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def s_AugAssign(self, st, env):
        cur = self.ev(_load(st.target), env)
        v = self.ev(st.value, env)
        if isinstance(cur, (Arr, Vec)):
            r = self.binop(st.op, cur, v)
            self.mutate(cur, "augmented assignment")
            if isinstance(cur, Vec):
                cur.c = self.to_vec(r).c
            else:
                if not isinstance(r, Arr):
                    r = self.to_arr(r)
                if r.shape != cur.shape:
                    raise Unsupported("in-place broadcast")
                cur.data = list(r.data)
            return
        if isinstance(cur, list):
            cur.extend(self.iterate(v))
            return
        self.assign(st.target, self.binop(st.op, cur, v), env)

    def mutate(self, obj, how):
        if getattr(obj, "origin", None):
            self.events.append(("mutate", obj.origin, how, self.where()))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v, self)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(v, (Opaque, AbsSeq)):
                for x in t.elts:
                    self.assign(x, Opaque(getattr(v, "name", None) or v.tag), env)
                return
            vals = list(self.iterate(v))
            if stars:
                i = stars[0]
                n = len(t.elts) - 1
                if len(vals) < n:
                    raise SymRaise("ValueError", "unpack", self.where())
                vals = vals[:i] + [vals[i:len(vals) - (n - i)]] + vals[len(vals) - (n - i):]
                for x, y in zip(t.elts, vals):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
                return
            if len(vals) != len(t.elts):
                raise SymRaise("ValueError", "unpack", self.where())
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, env)
            self.mutate(obj, "item assignment")
            if isinstance(obj, Arr):
                idx = self.ev_index(t.slice, env)
                self.arr_set(obj, idx, v)
            elif isinstance(obj, list):
                obj[self.as_int(self.ev(t.slice, env))] = v
            elif isinstance(obj, dict):
                obj[self.key(self.ev(t.slice, env))] = v
            elif isinstance(obj, Vec):
                i = self.as_int(self.ev(t.slice, env))
                a = self.vec_to_arr(obj)
                a.data[i] = v
                obj.c = self.to_vec(a).c
            elif isinstance(obj, (Opaque, AbsSeq)):
                pass
            else:
                raise Unsupported("item assignment on %s" % type(obj).__name__)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, env)
            self.events.append(("attr", repr(obj)[:80], t.attr, self.where()))
            if isinstance(obj, Record):
                setattr(obj, t.attr, v)
        else:
            raise Unsupported("assignment target")

    def s_Return(self, st, env):
        raise _Return(self.ev(st.value, env) if st.value is not None else None)

    def s_Raise(self, st, env):
        if st.exc is None:
            cur = env.lookup("__exc__", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise SymRaise(cur.name, cur.msg, self.where())
        v = self.ev(st.exc, env)
        if isinstance(v, Ext):
            v = ExcVal(v.name.split(".")[-1].split(":")[-1])
        if isinstance(v, ExcVal):
            raise SymRaise(v.name, v.msg, self.where())
        raise Unsupported("raise")

    def s_If(self, st, env):
        if self.truth(self.ev(st.test, env)):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def s_Assert(self, st, env):
        if not self.truth(self.ev(st.test, env)):
            raise SymRaise("AssertionError", "", self.where())

    def s_Break(self, st, env):
        raise _Break()

    def s_Continue(self, st, env):
        raise _Continue()

    def s_FunctionDef(self, st, env):
        env.set(st.name, self.make_closure(st, env, env.mod), self)

    def s_Import(self, st, env):
        self.do_import(st, env.vars)

    s_ImportFrom = s_Import

    def s_Global(self, st, env):
        env.globals |= set(st.names)

    def s_Nonlocal(self, st, env):
        env.nonlocals |= set(st.names)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)

    def s_With(self, st, env):
        for it in st.items:
            v = self.ev(it.context_expr, env)
            if not (isinstance(v, Opaque) or isinstance(v, Ext)):
                raise Unsupported("with")
        self.block(st.body, env)

    def s_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except SymRaise as e:
                for h in st.handlers:
                    if self.matches(e, h.type, env):
                        old = env.vars.get("__exc__")
                        env.vars["__exc__"] = e
                        if h.name:
                            env.set(h.name, ExcVal(e.name, e.msg), self)
                        if self.coarse is not False and self.frames:
                            self.frames[-1][2], self.frames[-1][3] = h.body[0], []
                            self.loop_head(h.body[0], "catch")
                        try:
                            self.block(h.body, env)
                        finally:
                            env.vars["__exc__"] = old
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        finally:
            if st.finalbody:
                self.block(st.finalbody, env)

    def matches(self, e, t, env):
        if t is None:
            return True
        v = self.ev(t, env)
        for c in v if isinstance(v, tuple) else [v]:
            n = c.name.split(".")[-1].split(":")[-1]
            if n in (e.name, "BaseException") or n in EXC_PARENTS.get(e.name, ["Exception"]):
                return True
        return False

    # ------------------------------------------------------------ loops
    def havoc_value(self, v, hint):
        if isinstance(v, bool) or isinstance(v, B):
            return lit(self.fresh(hint), POS)
        if is_num(v) or isinstance(v, (E, float)):
            return self.fresh(hint)
        if isinstance(v, Cx):
            return Cx(self.fresh(hint + ".re"), self.fresh(hint + ".im"))
        if isinstance(v, tuple):
            return tuple(self.havoc_value(x, "%s.%d" % (hint, i)) for i, x in enumerate(v))
        if isinstance(v, list):
            if not v:
                return AbsSeq(hint)
            return [self.havoc_value(x, "%s.%d" % (hint, i)) for i, x in enumerate(v)]
        if isinstance(v, Arr):
            if v.origin:
                return v
            return Arr(v.shape, [self.havoc_value(x, "%s.%d" % (hint, i)) for i, x in enumerate(v.data)])
        if isinstance(v, Vec):
            if v.origin:
                return v
            return Vec([self.fresh("%s.%d" % (hint, i)) for i in range(3)])
        if isinstance(v, (Closure, Ext)):
            return v
        if isinstance(v, dict):
            return {k: self.havoc_value(x, "%s.%s" % (hint, k)) for k, x in v.items()}
        return Opaque(hint)

    def havoc(self, names, env, lineno):
        for n in names:
            cur = env.vars.get(n, UNDEF)
            if cur is UNDEF:
                continue
            env.vars[n] = self.havoc_value(cur, n)

    def run_body(self, st, env, sym=False):
        """-> 'next' | 'break'"""
        try:
            if not sym:
                self.block(st.body, env)
            else:
                self.symloop += 1
                try:
                    self.block(st.body, env)
                except _Return as r:
                    r.v = self.let(r.v)
                    raise
                finally:
                    self.symloop -= 1
        except _Break:
            if sym:
                self.let_names(st, env)
            return "break"
        except _Continue:
            return "next"
        return "next"

    LET = 14

    def let(self, v, depth=0):
        """large values left behind by a loop get a name: what follows sees them as opaque,
        and the obligations open the name where they need to"""
        if isinstance(v, E):
            if X.size(v) > self.LET and X.variables(v) & self.ctx.havoc:
                return self.ctx.let(v)
            return v
        if depth > 4:
            return v
        if type(v) in (tuple, list):
            return type(v)(self.let(x, depth + 1) for x in v)
        if isinstance(v, Cx):
            return Cx(self.let(v.re), self.let(v.im))
        if isinstance(v, Arr) and not v.origin:
            return Arr(v.shape, [self.let(x, depth + 1) for x in v.data])
        return v

    def let_names(self, st, env):
        for n in assigned_names(st.body):
            cur = env.vars.get(n, UNDEF)
            if cur is not UNDEF and isinstance(cur, (E, tuple, Cx, Arr)):
                env.vars[n] = self.let(cur)

    def s_While(self, st, env):
        names = carried_names(st.body)
        it = 0
        always = isinstance(st.test, ast.Constant) and bool(st.test.value)
        while True:
            if not always:
                c = self.ev(st.test, env)
                if isinstance(c, (E,)):
                    c = lit(c, NEG | POS)
                if self.unroll:
                    if it >= self.unroll:
                        raise SymRaise("__cut__", "", self.where())
                    if not self.truth(c):
                        self.block(st.orelse, env)
                        return
                    it += 1
                    if self.run_body(st, env) == "break":
                        return
                    continue
                if isinstance(c, B):
                    k = self.affine_while(st, env)
                    if k:
                        continue
                    break
                if not self.truth(c):
                    self.block(st.orelse, env)
                    return
                if it >= 400:
                    raise Unsupported("long concrete loop")
            elif self.unroll:
                if it >= self.unroll:
                    raise SymRaise("__cut__", "", self.where())
            elif it >= 3:
                break
            it += 1
            if self.run_body(st, env) == "break":
                return
        # symbolic control
        self.nloop += 1
        rec = {"kind": "while", "where": self.where(), "exit": None, "variant": False}
        self.loops.append(rec)
        if not always:
            if not self.truth(c):
                rec["exit"] = "zero"
                self.block(st.orelse, env)
                return
        self.havoc(names, env, st.lineno)
        self.loop_head(st)
        c0 = None
        if not always:
            c0 = self.ev(st.test, env)
            self.assume(c0)
        if self.run_body(st, env, True) == "break":
            rec["exit"] = "break"
            return
        if always:
            raise Prune()
        c1 = self.ev(st.test, env)
        rec["variant"] = any(decreases(a, b) for a, b in zip(conjuncts(c0), conjuncts(c1)))
        if self.truth(c1):
            raise Prune()
        rec["exit"] = "cond"
        self.let_names(st, env)
        self.block(st.orelse, env)

    def affine_while(self, st, env):
        """while x > c: x = x - d; m = m + 1  with x = rest + 2 pi k, run to its end:
        handled by case analysis on an integer-valued part of x."""
        from .summary import affine_while
        return affine_while(self, st, env)

    def s_For(self, st, env):
        itv = self.ev(st.iter, env)
        seq = None
        if isinstance(itv, RangeV):
            if itv.concrete():
                n = len(itv.pyrange())
                if n <= max(12, 2 * self.unroll) or (not has_node(st.body, (ast.If, ast.While, ast.Break, ast.Return, ast.IfExp)) and n <= 400):
                    seq = [Fr(i) for i in itv.pyrange()]
        elif isinstance(itv, AbsSeq):
            seq = None
        else:
            seq = list(self.iterate(itv))
            if len(seq) > 60:
                seq = None
                itv = AbsSeq("for")
        if seq is not None:
            self.iters.append([0, seq])
            try:
                for i, v in enumerate(seq):
                    self.iters[-1][0] = i
                    self.assign(st.target, v, env)
                    if self.run_body(st, env) == "break":
                        return
            finally:
                self.iters.pop()
            self.block(st.orelse, env)
            return
        # symbolic
        self.nloop += 1
        rec = {"kind": "for", "where": self.where(), "exit": None, "var": None}
        self.loops.append(rec)
        if isinstance(itv, RangeV):
            n = sub(itv.stop, itv.start)
            s = self.ctx.sign(n)
            if s & (NEG | ZERO):
                if not self.decide(n, POS):
                    rec["exit"] = "zero"
                    self.block(st.orelse, env)
                    return
        elif self.choose(2, "absfor") == 1:
            rec["exit"] = "zero"
            self.block(st.orelse, env)
            return
        names = carried_names(st.body)
        self.havoc(names, env, st.lineno)
        peel = self.peel
        self.loop_head(st)
        self.for_target(st, itv, env, rec)
        for i in range(peel):
            r = self.run_body(st, env, True)
            if r == "break":
                raise Prune()
            self.for_target(st, itv, env, rec)
        if self.run_body(st, env, True) == "break":
            rec["exit"] = "break"
            return
        rec["exit"] = "exhausted"
        if isinstance(itv, RangeV) and rec["var"] is not None:
            self.ctx.assume(sub(add(rec["var"], itv.step), itv.stop), POS | ZERO)
        self.let_names(st, env)
        self.block(st.orelse, env)

    def for_target(self, st, itv, env, rec):
        if isinstance(itv, RangeV):
            smp = None
            v = self.fresh("i", POS if self.ctx.sign(itv.start) == POS else ANY, sampler=_int_sampler, integer=True)
            self.ctx.assume(sub(v, itv.start), POS | ZERO)
            self.ctx.assume(sub(itv.stop, v), POS)
            rec["var"] = v
            self.assign(st.target, v, env)
        else:
            self.assign(st.target, Opaque("item"), env)

    # ------------------------------------------------------------ merging at loop heads
    def temp(self, v):
        if self.frames and self.frames[-1][2] is not None:
            self.frames[-1][3].append(v)

    def vkey(self, v, depth=0):
        if depth > 12:
            raise Unsupported("deep value")
        if isinstance(v, E):
            return v.id
        if isinstance(v, (tuple, list)):
            return (type(v).__name__,) + tuple(self.vkey(x, depth + 1) for x in v)
        if isinstance(v, Vec):
            return ("vec",) + tuple(self.vkey(x) for x in v.c)
        if isinstance(v, Arr):
            return ("arr", v.shape) + tuple(self.vkey(x, depth + 1) for x in v.data)
        if isinstance(v, Cx):
            return ("cx", self.vkey(v.re), self.vkey(v.im))
        if isinstance(v, dict):
            return ("dict",) + tuple((str(k), self.vkey(x, depth + 1)) for k, x in v.items())
        if isinstance(v, B):
            return ("b", v.op, self.vkey(v.x) if not isinstance(v.x, int) else v.x, v.y if isinstance(v.y, int) else self.vkey(v.y, depth + 1))
        if isinstance(v, Opaque):
            return ("opaque", None if v.e is None else v.e.id)
        if isinstance(v, AbsSeq):
            return ("seq",)
        if isinstance(v, Closure):
            out = [id(v.node)]
            if v.env is not None:
                for n in loaded_names(v.node):
                    x = v.env.lookup(n, UNDEF)
                    if x is not UNDEF and not (isinstance(x, Closure) and x.node is v.node):
                        out.append((n, self.vkey(x, depth + 1)))
            return tuple(out)
        if isinstance(v, Record):
            return ("rec",) + tuple((k, self.vkey(x, depth + 1)) for k, x in sorted(v.__dict__.items()))
        if isinstance(v, RangeV):
            return ("range", self.vkey(v.start), self.vkey(v.stop), self.vkey(v.step))
        if isinstance(v, Ext):
            return v.name
        if isinstance(v, Bound):
            return ("bound", self.vkey(v.obj, depth + 1), v.name)
        if isinstance(v, (ExcVal, SymRaise)):
            return ("exc", v.name)
        return (type(v).__name__, repr(v) if isinstance(v, (int, float, Fr, str, bool, type(None))) else id(v))

    def state_key(self):
        out = []
        for node, env, st, temps in self.frames:
            line = st.lineno if st is not None else 0
            live = live_names(node, line)
            vs = []
            e = env
            seen = set()
            while e is not None:
                for n in sorted(e.vars):
                    if n in live and n not in seen:
                        seen.add(n)
                        vs.append((n, self.vkey(e.vars[n])))
                e = e.parent
            out.append((id(node), line, tuple(vs), tuple(self.vkey(t) for t in temps)))
        return (tuple(out), tuple((i, self.vkey(s)) for i, s in self.iters))

    def loop_head(self, st, tag=""):
        """paths that reach a point in the same state go on as one, with the facts they share"""
        if self.table is None:
            return
        k = (self.state_key(), tag, id(st))
        # conditions that speak of variables no longer reachable are kept: harmless
        facts = dict(self.ctx.facts)
        flist = list(self.ctx.fact_list)
        ent = self.table.get(k)
        cur = (facts, flist, list(self.lits), list(self.conv), list(self.loops))
        if ent is None:
            ent = self.table[k] = {"facts": facts, "flist": flist, "lits": list(self.lits), "conv": list(self.conv),
                                   "met": frozenset(self.met), "rep": list(self.decisions), "heads": list(self.heads), "released": False, "go": False,
                                   "n": len(self.loops)}
            raise Suspend(k)
        if ent["go"] and ent["rep"] == self.decisions:
            # continue from here under the merged facts
            self.ctx.facts = dict(ent["facts"])
            self.ctx.path_roots = []
            self.ctx.fact_list = list(ent["flist"])
            self.ctx.sign_cache = {}
            self.lits = list(ent["lits"])
            self.conv = list(ent["conv"])
            self.met = set(ent["met"])
            self.heads.append(k)
            return
        changed = merge(ent, facts, flist, self.lits, self.conv, frozenset(self.met))
        if changed and ent["released"]:
            ent["released"] = False
            raise Suspend(k)
        raise Suspend(None)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, Ext):
            from . import extern
            return extern.call(self, f.name, args, kwargs)
        if isinstance(f, Bound):
            from . import extern
            return extern.method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, Opaque):
            return Opaque("call")
        raise Unsupported("call of %s" % type(f).__name__)

    def call_closure(self, f, args, kwargs, contract=True):
        key = (f.mod.name, f.name)
        if contract and key in self.contracts and f.env is None:
            r = self.contracts[key](self, f, self.bind(f, args, kwargs))
            if r is not NotImplemented:
                self.calls.append(key)
                return r
        self.depth += 1
        self.world.entered.add("%s.%s" % key)
        if self.depth > self.MAXDEPTH:
            raise Unsupported("call depth")
        bound = self.bind(f, args, kwargs)
        env = Env(f.mod.env, f.env, f.mod)
        env.vars.update(bound)
        saved = (self.fname, self.line)
        self.fname = f.mod.name.split(".")[-1] + "." + f.name
        self.frames.append([f.node, env, None, []])
        nd = len(self.decisions)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.summarise(f, bound, nd, self.ev(f.node.body, env))
            env.local_names = None
            self.block(f.node.body, env)
            return None
        except _Return as r:
            return self.summarise(f, bound, nd, r.v)
        finally:
            self.depth -= 1
            self.frames.pop()
            self.fname, self.line = saved

    def summarise(self, f, bound, nd, v):
        """coarse mode: the value of a branching helper called inside a loop is an
        uninterpreted function of its arguments"""
        if self.coarse is False or self.depth <= 1 or len(self.decisions) <= nd:
            return v
        if not self.symloop and "%s.%s" % (f.mod.name.split(".")[-1], f.name) in self.coarse:
            return v
        args = []
        if not self.flat(bound, args, 0):
            return v
        if f.env is not None:
            for n in loaded_names(f.node):
                x = f.env.lookup(n, UNDEF)
                if x is not UNDEF and not self.flat(x, args, 0):
                    return v
        name = "u:%s.%s" % (f.mod.name.split(".")[-1], f.name)
        r = self.uf(name, v, args)
        if r is not None:
            self.want_merge = True
            self.abstract.append((name, self.where()))
            self.remember(r, f, bound)
            unmet(self, v, r, args)
            return r
        return v

    def remember(self, r, f, bound):
        """the call a summarised value stands for"""
        if f.node.args.vararg or f.node.args.kwarg:
            return
        todo = [r]
        while todo:
            x = todo.pop()
            if isinstance(x, (tuple, list)):
                todo += list(x)
            elif isinstance(x, Cx):
                todo += [x.re, x.im]
            elif isinstance(x, E):
                self.ctx.summaries.setdefault(x.id, (x, r, f, dict(bound)))

    def uf(self, name, v, args):
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if is_num(v) or isinstance(v, E):
            return X.fn(name, *args)
        if isinstance(v, Cx):
            return Cx(X.fn(name + ".re", *args), X.fn(name + ".im", *args))
        if isinstance(v, (tuple, list)):
            out = []
            for i, x in enumerate(v):
                y = self.uf("%s.%d" % (name, i), x, args)
                if y is None and x is not None:
                    return None
                out.append(y)
            return type(v)(out)
        return None

    def flat(self, v, out, depth):
        if depth > 6:
            return False
        if isinstance(v, bool) or v is None or isinstance(v, (str, Ext)):
            out.append(Fr(0) if not v else Fr(1)) if isinstance(v, bool) else None
            return True
        if is_num(v) or isinstance(v, E):
            out.append(v)
            return True
        if isinstance(v, Cx):
            out += [v.re, v.im]
            return True
        if isinstance(v, (tuple, list)):
            return all(self.flat(x, out, depth + 1) for x in v)
        if isinstance(v, dict):
            return all(self.flat(x, out, depth + 1) for x in v.values())
        if isinstance(v, Vec):
            out += v.c
            return True
        if isinstance(v, Arr):
            return all(self.flat(x, out, depth + 1) for x in v.data)
        if isinstance(v, Closure):
            if v.env is None:
                return True
            return all(self.flat(v.env.lookup(n, None), out, depth + 1) for n in loaded_names(v.node))
        return False

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kwargs = dict(kwargs)
        if len(args) > len(names):
            if not a.vararg:
                raise SymRaise("TypeError", "%s() arguments" % f.name, self.where())
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg:
            out[a.vararg.arg] = tuple(args[len(names):])
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n in out:
                if n in kwargs:
                    raise SymRaise("TypeError", "%s() got multiple values" % f.name, self.where())
                continue
            if n in kwargs:
                out[n] = kwargs.pop(n)
            elif i >= len(names) - nd:
                out[n] = f.defaults[i - (len(names) - nd)]
            else:
                raise SymRaise("TypeError", "%s() missing %s" % (f.name, n), self.where())
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                out[k.arg] = kwargs.pop(k.arg)
            elif k.arg in f.kwdefaults:
                out[k.arg] = f.kwdefaults[k.arg]
            else:
                raise SymRaise("TypeError", "%s() missing %s" % (f.name, k.arg), self.where())
        if kwargs:
            if a.kwarg:
                out[a.kwarg.arg] = kwargs
            else:
                raise SymRaise("TypeError", "%s() unexpected keyword %s" % (f.name, list(kwargs)), self.where())
        elif a.kwarg:
            out[a.kwarg.arg] = {}
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        f = getattr(self, "e_" + type(n).__name__, None)
        if f is None:
            raise Unsupported("expression " + type(n).__name__)
        return f(n, env)

    def e_Constant(self, n, env):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, int):
            return Fr(v)
        if isinstance(v, float):
            if v != v or v in (INF, -INF):
                return v
            return Fr(repr(v))
        if isinstance(v, complex):
            return Cx(Fr(repr(v.real)), Fr(repr(v.imag)))
        if v is Ellipsis:
            return Opaque("...")
        raise Unsupported("constant")

    def e_Name(self, n, env):
        v = env.lookup(n.id, UNDEF)
        if v is UNDEF:
            from . import extern
            if n.id in extern.BUILTINS:
                return Ext("builtins." + n.id)
            if n.id in EXC_PARENTS:
                return Ext("builtins." + n.id)
            raise SymRaise("UnboundLocalError", n.id, self.where())
        return v

    def e_Tuple(self, n, env):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return tuple(out)

    def e_List(self, n, env):
        return list(self.e_Tuple(n, env))

    def e_Set(self, n, env):
        return list(self.e_Tuple(n, env))

    def e_Dict(self, n, env):
        return {self.key(self.ev(k, env)): self.ev(v, env) for k, v in zip(n.keys, n.values)}

    def key(self, v):
        if isinstance(v, Fr):
            return int(v) if v.denominator == 1 else v
        return v

    def e_Lambda(self, n, env):
        return self.make_closure(n, env, env.mod)

    def e_IfExp(self, n, env):
        r = self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)
        self.temp(r)
        return r

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        env.set(n.target.id, v, self)
        return v

    def e_JoinedStr(self, n, env):
        return "<fstring>"

    def e_BoolOp(self, n, env):
        # short circuit with Python semantics
        isand = isinstance(n.op, ast.And)
        for x in n.values[:-1]:
            v = self.ev(x, env)
            t = self.truth(v)
            if t != isand:
                r = t if isinstance(v, (B, bool)) else v
                self.temp(r)
                return r
        return self.ev(n.values[-1], env)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, (bool, B)):
                return b_not(v)
            return not self.truth(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.USub):
            return self.neg(v)
        if isinstance(n.op, ast.Invert) and isinstance(v, (bool, B)):
            return b_not(v)
        raise Unsupported("unary")

    def neg(self, v):
        if isinstance(v, float):
            return -v
        if isinstance(v, Cx):
            return Cx(self.neg(v.re), self.neg(v.im))
        if isinstance(v, Arr):
            return Arr(v.shape, [self.neg(x) for x in v.data])
        if isinstance(v, Vec):
            return Vec([X.neg(x) for x in v.c])
        return X.neg(self.num(v))

    def num(self, v):
        """a real term"""
        if isinstance(v, bool):
            return Fr(int(v))
        if is_num(v) or isinstance(v, E):
            return v
        if isinstance(v, B):
            return Fr(1) if self.truth(v) else Fr(0)
        if isinstance(v, Opaque):
            if v.e is None:
                v.e = self.fresh("opaque." + v.name)
            return v.e
        if isinstance(v, Cx):
            if is_num(v.im) and v.im == 0:
                return v.re
        if isinstance(v, Arr) and len(v.data) == 1:
            return self.num(v.data[0])
        raise Unsupported("number from %s" % type(v).__name__)

    def as_int(self, v):
        if isinstance(v, bool):
            return int(v)
        if is_num(v) and Fr(v).denominator == 1:
            return int(v)
        raise Unsupported("symbolic index")

    def e_BinOp(self, n, env):
        return self.binop(n.op, self.ev(n.left, env), self.ev(n.right, env))

    def binop(self, op, a, b):
        from . import arith
        return arith.binop(self, type(op).__name__, a, b)

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, env)
            c = self.compare(type(op).__name__, left, right)
            if len(n.ops) == 1:
                return c
            if isinstance(c, (Arr, Vec)):
                raise Unsupported("chained array comparison")
            if not self.truth(c):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        from . import arith
        return arith.compare(self, op, a, b)

    def e_Attribute(self, n, env):
        v = self.ev(n.value, env)
        from . import extern
        return extern.attribute(self, v, n.attr)

    def e_Call(self, n, env):
        f = self.ev(n.func, env)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        for k in n.keywords:
            if k.arg is None:
                kwargs.update(self.ev(k.value, env))
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        line = self.line
        self.line = n.lineno
        r = self.call(f, args, kwargs)
        self.line = line
        self.temp(r)
        return r

    def ev_index(self, s, env):
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, env) for x in s.elts)
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.as_int(self.ev(x, env)) for x in (s.lower, s.upper, s.step)])
        v = self.ev(s, env)
        if isinstance(v, str):
            return v
        if isinstance(v, (Opaque,)) or (isinstance(v, E)):
            return v
        if v is None:
            return None
        return self.as_int(v)

    def e_Subscript(self, n, env):
        v = self.ev(n.value, env)
        i = self.ev_index(n.slice, env)
        if isinstance(v, dict):
            k = self.key(i)
            if k not in v:
                raise SymRaise("KeyError", str(k), self.where())
            return v[k]
        if isinstance(v, (Opaque, AbsSeq)):
            return Opaque("item")
        if isinstance(v, Vec):
            v = self.vec_to_arr(v)
        if isinstance(v, (tuple, list)):
            if isinstance(i, (E, Opaque)):
                return Opaque("item")
            if isinstance(i, slice):
                return v[i]
            if not -len(v) <= i < len(v):
                raise SymRaise("IndexError", "", self.where())
            return v[i]
        if isinstance(v, Arr):
            return self.arr_get(v, i)
        if isinstance(v, str):
            return v[i]
        raise Unsupported("subscript of %s" % type(v).__name__)

    def arr_get(self, a, i):
        if isinstance(i, (E, Opaque)):
            return Opaque("item")
        if len(a.shape) == 1:
            if isinstance(i, slice):
                d = a.data[i]
                return Arr((len(d),), d)
            if isinstance(i, tuple) and len(i) == 1:
                i = i[0]
            if not -a.shape[0] <= i < a.shape[0]:
                raise SymRaise("IndexError", "", self.where())
            return a.data[i]
        if len(a.shape) == 2:
            r, c = a.shape
            if isinstance(i, tuple) and len(i) == 2:
                rows = list(range(r))[i[0]] if isinstance(i[0], slice) else list(range(r))[i[0]]
                cols = list(range(c))[i[1]]
                if isinstance(rows, int) and isinstance(cols, int):
                    return a.data[rows * c + cols]
                if isinstance(rows, int):
                    return Arr((len(cols),), [a.data[rows * c + k] for k in cols])
                if isinstance(cols, int):
                    return Arr((len(rows),), [a.data[k * c + cols] for k in rows])
                return Arr((len(rows), len(cols)), [a.data[k * c + m] for k in rows for m in cols])
            if isinstance(i, int):
                if not -r <= i < r:
                    raise SymRaise("IndexError", "", self.where())
                i %= r
                return Arr((c,), a.data[i * c:(i + 1) * c])
        raise Unsupported("array index")

    def arr_set(self, a, i, v):
        if isinstance(i, (E, Opaque)) or (isinstance(i, tuple) and any(isinstance(k, (E, Opaque)) for k in i)):
            a.data = [Opaque("cell") for _ in a.data]
            return
        if len(a.shape) == 1 and isinstance(i, int):
            if not -a.shape[0] <= i < a.shape[0]:
                raise SymRaise("IndexError", "", self.where())
            a.data[i] = v
            return
        if len(a.shape) == 2 and isinstance(i, tuple):
            a.data[i[0] % a.shape[0] * a.shape[1] + i[1] % a.shape[1]] = v
            return
        raise Unsupported("array store")

    def iterate(self, v):
        if isinstance(v, (tuple, list)):
            return v
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, RangeV):
            if v.concrete():
                return [Fr(i) for i in v.pyrange()]
            raise Unsupported("symbolic range")
        if isinstance(v, Vec):
            return self.vec_to_arr(v).data
        if isinstance(v, Arr):
            if len(v.shape) == 1:
                return list(v.data)
            if len(v.shape) == 2:
                return [self.arr_get(v, i) for i in range(v.shape[0])]
            return [Opaque("x")]
        raise Unsupported("iteration over %s" % type(v).__name__)

    def _comp(self, n, env):
        out = []

        def go(i, e):
            if i == len(n.generators):
                out.append(self.ev(n.elt, e))
                return True
            g = n.generators[i]
            it = self.ev(g.iter, e)
            if isinstance(it, (AbsSeq, Opaque)):
                return False
            if isinstance(it, RangeV) and not it.concrete():
                return False
            items = list(self.iterate(it))
            if len(items) > 60:
                return False
            for v in items:
                self.assign(g.target, v, e)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    if not go(i + 1, e):
                        return False
            return True
        if not go(0, Env(env.glob, env, env.mod)):
            return AbsSeq("comp")
        return out

    def e_ListComp(self, n, env):
        return self._comp(n, env)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, n, env):
        out = {}
        g = n.generators[0]
        e = Env(env.glob, env, env.mod)
        for v in self.iterate(self.ev(g.iter, e)):
            self.assign(g.target, v, e)
            if all(self.truth(self.ev(c, e)) for c in g.ifs):
                out[self.key(self.ev(n.key, e))] = self.ev(n.value, e)
        return out

    # ------------------------------------------------------------ vectors
    def vec_to_arr(self, v):
        Q = self.ctx.Q
        out = []
        for i in range(3):
            t = Fr(0)
            for j in range(3):
                t = add(t, mul(v.c[j], Q[j][i]))
            if isinstance(t, X.E) and t.k == "lin" and X.size(t) < 12 and X.variables(t) <= {q.a[0] for r in Q for q in r if not is_num(q)}:
                # an entry of the rotation written through the others
                for q in (q for r in Q for q in r):
                    if self.ctx.is_zero(sub(t, q)):
                        t = q
                        break
                    if self.ctx.is_zero(add(t, q)):
                        t = X.neg(q)
                        break
            out.append(t)
        return Arr((3,), out)

    def to_vec(self, a):
        if isinstance(a, Vec):
            return a
        if isinstance(a, Arr) and a.shape == (3,):
            Q = self.ctx.Q
            out = []
            for j in range(3):
                t = Fr(0)
                for i in range(3):
                    t = add(t, mul(self.num(a.data[i]), Q[j][i]))
                out.append(t)
            return Vec(out)
        raise Unsupported("vector from %s" % type(a).__name__)

    def to_arr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, Vec):
            return self.vec_to_arr(v)
        if isinstance(v, (list, tuple)):
            rows = [x if not isinstance(x, (list, tuple, Arr, Vec)) else self.to_arr(x) for x in v]
            if any(isinstance(r, Arr) for r in rows):
                sh = rows[0].shape
                if any(not isinstance(r, Arr) or r.shape != sh for r in rows):
                    raise SymRaise("ValueError", "ragged array", self.where())
                d = []
                for r in rows:
                    d += r.data
                return Arr((len(rows),) + sh, d)
            return Arr((len(rows),), rows)
        return Arr((), [v])


def _load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _int_sampler(rng, n, env):
    return rng.integers(1, 9, n).astype(float)


class Env:
    __slots__ = ("vars", "glob", "parent", "mod", "globals", "nonlocals", "local_names")

    def __init__(self, glob, parent, mod):
        self.glob, self.parent, self.mod = glob, parent, mod
        self.vars = {} if parent is not None or glob is None else {}
        self.globals, self.nonlocals = set(), set()

    def lookup(self, name, default):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        return self.glob.get(name, default)

    def set(self, name, v, it):
        if name in self.globals:
            it.events.append(("global", name, "assignment", it.where()))
            self.vars[name] = v
            return
        if name in self.nonlocals:
            e = self.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        if it.ctx is None and it.depth == 0 and self.parent is None:
            self.glob[name] = v
            return
        self.vars[name] = v


class RangeV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def concrete(self):
        return all(is_num(x) for x in (self.start, self.stop, self.step))

    def pyrange(self):
        return range(int(self.start), int(self.stop), int(self.step))


def explore(world, ctx, call, contracts=None, max_paths=3000, peel=0, deadline=None, merging=True, coarse=False, unroll=0):
    """call(interp) -> value.  Returns the outcomes of all paths, and whether the search was cut short."""
    import time
    stack = [[]]
    out = []
    truncated = False
    table = {} if merging else None
    pending = []
    runs = 0
    while stack or pending:
        if len(out) >= max_paths or (deadline and time.time() > deadline) or runs > 20 * max_paths:
            truncated = True
            break
        if not stack:
            # release the waiting head with the fewest loops before it
            pending.sort(key=lambda k: -len(table[k]["heads"]))
            k = pending.pop()
            ent = table[k]
            ent["released"] = ent["go"] = True
            # heads reached through this one are reached again
            for q in [q for q in pending if k in table[q]["heads"]]:
                pending.remove(q)
                del table[q]
            stack.append(ent["rep"])
        prefix = stack.pop()
        runs += 1
        it = Interp(world, ctx, contracts, prefix, peel)
        it.table = table
        it.coarse = coarse
        it.unroll = unroll
        ops.set_ctx(ctx)
        ctx.start_path()
        o = None
        try:
            v = call(it)
            o = Outcome("return", v, it)
        except SymRaise as e:
            o = Outcome("raise", e.name, it)
            o.where = e.where
            o.msg = e.msg
        except Suspend as e:
            if e.key is not None and e.key not in pending:
                pending.append(e.key)
            o = Outcome("merged", None, it)
        except Prune:
            pass
        except (Unsupported, X.DivByZero, NotImplementedError) as e:
            o = Outcome("unsupported", "%s: %s at %s" % (type(e).__name__, e, getattr(it, "where_unsup", None) or it.where()), it)
        except RecursionError:
            o = Outcome("unsupported", "recursion", it)
        if o is not None:
            o.decisions = list(it.decisions)
            out.append(o)
        for i in range(len(it.decisions) - 1, len(prefix) - 1, -1):
            for alt in range(it.alts[i] - 1, it.decisions[i], -1):
                stack.append(it.decisions[:i] + [alt])
    return out, truncated
