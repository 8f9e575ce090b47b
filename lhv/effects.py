"""Frame conditions (C08): an `assigns` clause for every function of the package,
inferred and checked modularly from the source of /repo.

For each function the analysis computes which of its parameters, defaults, module
variables and enclosing locals an execution may write (through an item, attribute or
in-place operation, a mutating method, an `out=` argument or a call to a function of
the package whose clause says so), whether it reads module state that anything in the
package writes, and whether it calls a source of nondeterminism.  It is flow-insensitive
(every statement counts, reachable or not), so it has no bound on paths or iterations."""
import ast
import os

MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add",
            "discard", "fill", "resize", "put", "itemset", "partition", "setfield", "setflags", "byteswap", "__setitem__", "__delitem__"}
NP_MUTATE_FIRST = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis"}
ALIASING = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "ravel", "reshape", "squeeze",
            "transpose", "view", "swapaxes", "broadcast_to", "real", "imag", "flip", "diagonal", "require", "moveaxis", "rollaxis", "nditer"}
METHOD_ALIAS = {"view", "reshape", "ravel", "squeeze", "transpose", "swapaxes", "diagonal", "setdefault", "get", "items", "values", "keys",
                "__iter__", "__getitem__"}
ATTR_ALIAS = {"T", "flat", "real", "imag", "base", "data"}
NONDET = ("random", "secrets", "uuid", "os", "datetime", "socket", "threading", "multiprocessing", "tempfile", "gc", "weakref")
CLOCKS = {"perf_counter", "time", "monotonic", "process_time", "perf_counter_ns", "time_ns"}
CACHES = {"lru_cache", "cache", "cached_property", "singledispatch"}
STATEFUL_BUILTINS = {"id", "hash", "globals", "vars", "locals", "setattr", "delattr", "exec", "eval", "open", "input", "__import__", "print"}


class Fn:
    def __init__(self, mod, qual, node, outer):
        self.mod, self.qual, self.node, self.outer = mod, qual, node, outer
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
        self.vararg = [x.arg for x in (a.vararg, a.kwarg) if x]
        self.locals = set(self.params) | set(self.vararg)
        self.globals = set()
        self.nonlocals = set()
        self.calls = []        # (target Fn, {param: roots}, node)
        self.writes = {}       # root -> (how, line)
        self.soft = {}         # parameters written only if they are arrays (augmented assignment)
        self.impure = []       # (kind, what, line)
        self.reads = set()     # module variables read
        self.unknown = []


def own_nodes(node):
    """the nodes of a function without those of nested functions"""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                yield c
                continue
            stack.append(c)


class Package:
    def __init__(self, src, pkg="lamberthub"):
        self.fns, self.mods, self.modvars, self.imports = {}, {}, {}, {}
        root = os.path.join(src, pkg)
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    name = os.path.relpath(p, src)[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    self.mods[name] = ast.parse(open(p).read(), p)
        for m, t in self.mods.items():
            self.scan_module(m, t)
        for f in list(self.fns.values()):
            self.scan(f)
        self.solve()

    # ------------------------------------------------ collection
    def scan_module(self, m, tree):
        self.modvars[m], self.imports[m] = {}, {}
        for st in ast.walk(tree):
            if isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.imports[m][a.asname or a.name] = (st.module or "") + "." + a.name
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[m][a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        for st in tree.body:
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, (ast.AnnAssign, ast.AugAssign)) else []):
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        self.modvars[m][n.id] = getattr(st, "value", None)

        def walk(body, prefix, outer):
            for st in body:
                for n in ([st] if isinstance(st, (ast.FunctionDef, ast.ClassDef)) else ast.walk(st)):
                    if isinstance(n, ast.FunctionDef):
                        q = prefix + n.name
                        f = self.fns[(m, q)] = Fn(m, q, n, outer)
                        walk(n.body, q + ".", f)
                    elif isinstance(n, ast.ClassDef):
                        walk(n.body, prefix + n.name + ".", outer)
                    elif isinstance(n, ast.Lambda):
                        q = "%s<lambda %d>" % (prefix, n.lineno)
                        self.fns.setdefault((m, q), Fn(m, q, n, outer))
        walk(tree.body, "", None)

    # ------------------------------------------------ one function
    def scan(self, f):
        f.binds = {}

        def bind(t, v):
            if isinstance(t, ast.Name):
                f.locals.add(t.id)
                f.binds.setdefault(t.id, []).append(v)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for i, x in enumerate(t.elts):
                    if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                        bind(x, v.elts[i])
                    else:
                        bind(x, v)
            elif isinstance(t, ast.Starred):
                bind(t.value, v)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Global):
                f.globals |= set(n.names)
            elif isinstance(n, ast.Nonlocal):
                f.nonlocals |= set(n.names)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    bind(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                bind(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    f.locals.add(n.target.id)
            elif isinstance(n, ast.NamedExpr):
                bind(n.target, n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                bind(n.target, n.iter)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        bind(i.optional_vars, i.context_expr)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                f.locals.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                f.locals.add(n.name)
        f.locals -= f.globals | f.nonlocals
        for d in getattr(f.node, "decorator_list", []):
            for n in ast.walk(d):
                nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else ""
                if self.imports[f.mod].get(nm, nm).split(".")[-1] in CACHES:
                    f.impure.append(("cache", nm, n.lineno))
        for n in own_nodes(f.node):
            self.effect(f, n)

    def effect(self, f, n):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.Delete, ast.For)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        self.write(f, x.value, "item assignment" if isinstance(x, ast.Subscript) else "attribute assignment", x.lineno)
                    elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        self.name_store(f, x)
        elif isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name):
                self.name_store(f, n.target)
                for r in self.roots(f, n.target):
                    f.soft.setdefault(r, ("in-place operation", n.lineno))
            else:
                self.write(f, n.target.value, "in-place item operation", n.lineno)
        elif isinstance(n, ast.Call):
            self.call(f, n)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for r in self.roots(f, n):
                if r[0] == "global":
                    f.reads.add(r)

    def name_store(self, f, x):
        if x.id in f.globals:
            f.writes.setdefault(("global", f.mod, x.id), ("assignment to a global", x.lineno))

    def write(self, f, expr, how, line):
        for r in self.roots(f, expr):
            f.writes.setdefault(r, (how, line))

    def call(self, f, n):
        fn = n.func
        for k in n.keywords:
            if k.arg == "out":
                self.write(f, k.value, "out= argument", n.lineno)
        if isinstance(fn, ast.Attribute):
            base = self.module_of(f, fn.value)
            if base is not None:
                last = fn.attr
                if last in NP_MUTATE_FIRST and n.args:
                    self.write(f, n.args[0], base + "." + last, n.lineno)
                full = base + "." + last
                if full.split(".")[0] in NONDET or ".random." in full + ".":
                    f.impure.append(("nondeterminism", full, n.lineno))
                if last == "at" and n.args:
                    self.write(f, n.args[0], "ufunc.at", n.lineno)
                t = self.resolve(full)
                if t:
                    self.link(f, t, n)
                return
            if fn.attr in MUTATORS:
                self.write(f, fn.value, "." + fn.attr + "()", n.lineno)
            return
        if isinstance(fn, ast.Name):
            t = self.lookup_fn(f, fn.id)
            if t:
                self.link(f, t, n)
                return
            full = self.imports[f.mod].get(fn.id, fn.id) if fn.id not in f.locals else ""
            if full in STATEFUL_BUILTINS and fn.id not in self.modvars[f.mod]:
                f.impure.append(("state", full, n.lineno))
            if full.split(".")[0] in NONDET:
                f.impure.append(("nondeterminism", full, n.lineno))

    def link(self, f, t, n):
        m = {}
        for p, a in zip(t.params, n.args):
            if isinstance(a, ast.Starred):
                break
            m[p] = self.roots(f, a)
        for k in n.keywords:
            if k.arg:
                m[k.arg] = self.roots(f, k.value)
        f.calls.append((t, m, n.lineno))

    def module_of(self, f, e):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name) and e.id not in f.locals and e.id in self.imports[f.mod]:
            o = f.outer
            while o:
                if e.id in o.locals:
                    return None
                o = o.outer
            return ".".join([self.imports[f.mod][e.id]] + parts[::-1])
        return None

    def resolve(self, full):
        for _ in range(4):
            m, _, q = full.rpartition(".")
            if (m, q) in self.fns:
                return self.fns[(m, q)]
            if m in self.imports and q in self.imports[m]:
                full = self.imports[m][q]
            else:
                return None
        return None

    def lookup_fn(self, f, name):
        o = f
        while o is not None:
            t = self.fns.get((o.mod, o.qual + "." + name))
            if t:
                return t
            if name in o.binds if hasattr(o, "binds") else False:
                return None
            if name in o.params:
                return None
            o = o.outer
        t = self.fns.get((f.mod, name))
        if t:
            return t
        return self.resolve(self.imports[f.mod].get(name, ""))

    # ------------------------------------------------ aliases
    def roots(self, f, e, depth=0, seen=None):
        """objects that the expression may denote: parameters, defaults, module or enclosing variables.
        Values computed by the function are fresh and have no root."""
        seen = seen if seen is not None else set()
        if isinstance(e, ast.Name):
            return self.name_roots(f, e.id, seen)
        if isinstance(e, ast.Attribute):
            if self.module_of(f, e) is not None:
                return set()
            return self.roots(f, e.value, depth, seen)
        if isinstance(e, ast.Subscript):
            r = self.roots(f, e.value, depth, seen)
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                # an element; of an array of numbers it is a number, of a tuple or list it may be an array
                return {x if x[0] != "param" else ("elem",) + x[1:] for x in r}
            return r
        if isinstance(e, ast.Starred):
            return self.roots(f, e.value, depth, seen)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = set()
            for x in e.elts:
                out |= self.roots(f, x, depth, seen)
            return out
        if isinstance(e, ast.Dict):
            out = set()
            for x in e.values:
                out |= self.roots(f, x, depth, seen)
            return out
        if isinstance(e, ast.IfExp):
            return self.roots(f, e.body, depth, seen) | self.roots(f, e.orelse, depth, seen)
        if isinstance(e, ast.BoolOp):
            out = set()
            for x in e.values:
                out |= self.roots(f, x, depth, seen)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.roots(f, e.value, depth, seen)
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Attribute):
                if self.module_of(f, fn.value) is not None:
                    if fn.attr in ALIASING and e.args:
                        return self.roots(f, e.args[0], depth, seen)
                elif fn.attr in METHOD_ALIAS:
                    return self.roots(f, fn.value, depth, seen)
            t = self.lookup_fn(f, fn.id) if isinstance(fn, ast.Name) else None
            if t is None and isinstance(fn, ast.Name) and self.imports[f.mod].get(fn.id, fn.id).split(".")[-1] in (
                    ALIASING | {"zip", "enumerate", "iter", "reversed", "next", "map", "filter", "list", "tuple", "sorted"}):
                out = set()
                for x in e.args:
                    out |= self.roots(f, x, depth, seen)
                return out
            if t is not None and depth < 6:
                out = set()
                m = dict(zip(t.params, e.args))
                m.update({k.arg: k.value for k in e.keywords if k.arg})
                for r in self.returns(t, depth + 1):
                    if r[0] == "param" and r[2] == t.qual and r[3] in m:
                        out |= self.roots(f, m[r[3]], depth, seen)
                    elif r[0] in ("global", "default"):
                        out.add(r)
                return out
        return set()

    def returns(self, t, depth):
        out = set()
        if isinstance(t.node, ast.Lambda):
            return self.roots(t, t.node.body, depth)
        for n in own_nodes(t.node):
            if isinstance(n, ast.Return) and n.value is not None:
                out |= self.roots(t, n.value, depth)
        return out

    def name_roots(self, f, name, seen):
        if (f.mod, f.qual, name) in seen:
            return set()
        seen.add((f.mod, f.qual, name))
        out = set()
        if name in f.globals:
            return {("global", f.mod, name)}
        if name in f.nonlocals or name not in f.locals:
            o = f.outer
            while o is not None:
                if name in o.locals:
                    return self.name_roots(o, name, seen)
                o = o.outer
            if name in self.modvars[f.mod]:
                return {("global", f.mod, name)}
            if name in self.imports[f.mod]:
                full = self.imports[f.mod][name]
                m, _, q = full.rpartition(".")
                if m in self.modvars and q in self.modvars[m]:
                    return {("global", m, q)}
            if (f.mod, name) in self.fns:
                return {("global", f.mod, name)}
            return set()
        if name in f.params or name in f.vararg:
            out.add(("param", f.mod, f.qual, name))
            d = self.default_of(f, name)
            if d is not None and isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
                out.add(("default", f.mod, f.qual, name))
        for v in f.binds.get(name, []) if hasattr(f, "binds") else []:
            out |= self.roots(f, v, 1, seen)
        return out

    def default_of(self, f, name):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if name in pos:
            i = pos.index(name) - (len(pos) - len(a.defaults))
            return a.defaults[i] if i >= 0 else None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == name:
                return d
        return None

    # ------------------------------------------------ clauses
    def solve(self):
        for f in self.fns.values():
            f.assigns = dict(f.writes)
            f.maybe = dict(f.soft)
        for _ in range(30):
            changed = False
            for f in self.fns.values():
                for t, m, line in f.calls:
                    for src, dst in (("assigns", f.assigns), ("maybe", f.maybe)):
                        for r, w in list(getattr(t, src).items()):
                            new = set()
                            if r[0] == "param" and (r[1], r[2]) == (t.mod, t.qual):
                                new = m.get(r[3], set())
                            elif r[0] != "elem":
                                new = {r}
                            for x in new:
                                if x not in dst:
                                    dst[x] = ("%s (through %s)" % (w[0], t.qual), line)
                                    changed = True
            if not changed:
                break
        # nested functions run as part of the enclosing one
        for f in self.fns.values():
            o = f.outer
            while o is not None:
                for r, w in f.assigns.items():
                    if not (r[0] == "param" and (r[1], r[2]) == (f.mod, f.qual)):
                        o.assigns.setdefault(r, w)
                for r, w in f.maybe.items():
                    if not (r[0] == "param" and (r[1], r[2]) == (f.mod, f.qual)):
                        o.maybe.setdefault(r, w)
                o = o.outer
        self.state = {r: (f, w) for f in self.fns.values() for r, w in f.assigns.items() if r[0] in ("global", "default")}

    def violations(self, f, arrays=None):
        """what breaks `assigns nothing` for f called by a user; parameters in `arrays` hold arrays
        (None: any parameter may)"""
        out = []
        for r, (how, line) in sorted(f.assigns.items(), key=str):
            if r[0] == "param" and (r[1], r[2]) == (f.mod, f.qual):
                if arrays is None or r[3] in arrays:
                    out.append("may modify its argument %s: %s, line %d of %s" % (r[3], how, line, f.mod))
            elif r[0] == "global":
                out.append("writes the module variable %s.%s: %s, line %d of %s" % (r[1], r[2], how, line, f.mod))
            elif r[0] == "default":
                out.append("writes the default value of %s: %s, line %d of %s" % (r[3], how, line, f.mod))
        for r, (how, line) in sorted(f.maybe.items(), key=str):
            if r[0] == "param" and (r[1], r[2]) == (f.mod, f.qual) and arrays is not None and r[3] in arrays:
                out.append("modifies its argument %s: %s, line %d of %s" % (r[3], how, line, f.mod))
            elif r[0] in ("global", "default"):
                out.append("modifies %s in place: %s, line %d of %s" % (r, how, line, f.mod))
        seen = set()
        stack = [f]
        while stack:
            g = stack.pop()
            if id(g) in seen:
                continue
            seen.add(id(g))
            for kind, what, line in g.impure:
                out.append("%s: %s in %s, line %d" % (kind, what, g.qual, line))
            for r in g.reads:
                if r in self.state:
                    out.append("depends on the module variable %s.%s, which %s writes" % (r[1], r[2], self.state[r][0].qual))
            stack += [t for t, _, _ in g.calls]
            stack += [h for h in self.fns.values() if h.outer is g]
        return out
