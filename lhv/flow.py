"""Non-interference of a flag: a modular information-flow check.  The contract of a function is
"when the number of revolutions is zero the flag is not read"; a call that passes the flag on is
checked against the callee's own contract, and the statements that cannot run with zero
revolutions are skipped."""
import ast

from .sym.symex import Closure


class Reads(Exception):
    """where the flag is read, other than to pass it on"""


def decide(test, m):
    """the value of a condition when the name m holds zero; None when it is not settled by that"""
    if m is None:
        return None
    if isinstance(test, ast.Name):
        return False if test.id == m else None
    if isinstance(test, ast.Constant):
        return bool(test.value)
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        v = decide(test.operand, m)
        return None if v is None else not v
    if isinstance(test, ast.BoolOp):
        vs = [decide(v, m) for v in test.values]
        stop = isinstance(test.op, ast.Or)
        for v in vs:
            if v is stop:
                return stop
            if v is None:
                return None
        return not stop
    if isinstance(test, ast.Compare):
        def num(e):
            if isinstance(e, ast.Name) and e.id == m:
                return 0
            if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
                return e.value
            return None
        xs = [num(e) for e in [test.left] + test.comparators]
        if any(x is None for x in xs):
            return None
        f = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
             ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}
        if any(type(o) not in f for o in test.ops):
            return None
        return all(f[type(o)](a, b) for o, a, b in zip(test.ops, xs, xs[1:]))
    return None


class Flow:
    def __init__(self, world):
        self.world, self.done, self.entered = world, set(), set()

    def function(self, c, flag, m):
        key = (c.mod.name, c.name, flag, m)
        if key in self.done:
            return
        self.done.add(key)
        self.entered.add(c.mod.name + "." + c.name)
        stored = {n.id for n in ast.walk(c.node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        if flag in stored:
            raise Reads("%s.%s assigns %s" % (c.mod.name, c.name, flag))
        self.block(c, c.node.body, flag, None if m in stored else m)

    def block(self, c, body, flag, m):
        """True when control does not leave the block at its end"""
        for s in body:
            if self.statement(c, s, flag, m):
                return True
        return False

    def statement(self, c, s, flag, m):
        if isinstance(s, ast.If):
            v = decide(s.test, m)
            if v is not None:
                return self.block(c, s.body if v else s.orelse, flag, m)
            self.expr(c, s.test, flag, m)
            a, b = self.block(c, s.body, flag, m), self.block(c, s.orelse, flag, m)
            return a and b
        if isinstance(s, (ast.For, ast.While)):
            self.expr(c, s.iter if isinstance(s, ast.For) else s.test, flag, m)
            self.block(c, s.body, flag, m)
            self.block(c, s.orelse, flag, m)
            return False
        if isinstance(s, ast.Try):
            self.block(c, s.body, flag, m)
            for h in s.handlers:
                self.block(c, h.body, flag, m)
            self.block(c, s.orelse, flag, m)
            self.block(c, s.finalbody, flag, m)
            return False
        if isinstance(s, ast.With):
            for i in s.items:
                self.expr(c, i.context_expr, flag, m)
            return self.block(c, s.body, flag, m)
        self.expr(c, s, flag, m)
        return isinstance(s, (ast.Return, ast.Raise))

    def expr(self, c, e, flag, m):
        if isinstance(e, ast.Name):
            if e.id in (flag, "locals", "vars", "eval", "exec", "globals"):
                raise Reads("%s.%s reads %s in line %d" % (c.mod.name, c.name, e.id, e.lineno))
            return
        if isinstance(e, ast.IfExp):
            v = decide(e.test, m)
            if v is not None:
                return self.expr(c, e.body if v else e.orelse, flag, m)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            f = c.mod.env.get(e.func.id)
            if isinstance(f, Closure) and not any(isinstance(a, ast.Starred) for a in e.args) and all(k.arg for k in e.keywords):
                names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
                given = list(zip(names, e.args)) + [(k.arg, k.value) for k in e.keywords]
                flags, mm = [], None
                for n, a in given:
                    if isinstance(a, ast.Name) and a.id == flag:
                        flags.append(n)
                        continue
                    if m is not None and isinstance(a, ast.Name) and a.id == m or isinstance(a, ast.Constant) and type(a.value) is int and a.value == 0 and n == "M":
                        mm = n
                    self.expr(c, a, flag, m)
                for n in flags:
                    self.function(f, n, mm)
                return
        for x in ast.iter_child_nodes(e):
            self.expr(c, x, flag, m)


def unread(world, mod, name, flag="is_low_path", m="M"):
    """(the functions whose contracts were checked, '') or (None, where the flag is read)"""
    f = Flow(world)
    try:
        f.function(world.func(mod, name), flag, m)
    except Reads as e:
        return None, str(e)
    return f.entered, ""
