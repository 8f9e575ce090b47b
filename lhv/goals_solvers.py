"""Contracts of the fourteen solvers (C01-C09, C14), discharged from their source."""
import copy
import math
import os
import random
import time
from fractions import Fraction as Fr

import numpy as np

from . import bounded, cases, effects, flow, proof
from .goals_utils import Shape, Six, judge, number, path_text, paths
from .proof import FAILED, PROVED, REFUTED, UNDECIDED, Ob, find_points
from .sym import contracts, drive, ops
from .sym import expr as X
from .sym.expr import ANY, NEG, POS, ZERO, add, div, is_num, mul, neg, powi, scale, sub
from .sym.symex import AbsSeq, Arr, Cx, NotShape3, Opaque, Vec, explore, unconverged

GEOM = [(s, p) for s in (True, False) for p in (True, False)]
WIP = bool(os.environ.get("LHV_WIP"))
TIME = {"quick": 200.0, "thorough": 600.0}


def geom(short, pro):
    return "%s %s" % ("short" if short else "long", "prograde" if pro else "retrograde")


def mcfgs(solver):
    """configurations of the number of revolutions and of the path"""
    if solver in drive.DIRECT:
        return [(0, True, None)]
    out = [(0, True, None)]
    for low in (True, False):
        for par in ((0, 1) if solver == "mcelreath2025" else (None,)):
            out.append((1, low, par))
    return out


def mname(M, low, par):
    if M == 0:
        return "M=0"
    return "M>0%s %s path" % ("" if par is None else " even" if par == 0 else " odd", "low" if low else "high")


# ------------------------------------------------------------------ concrete problems
def problem(ctx, env, cfg, k=1):
    c = ctx.concrete(env)
    M = 0 if cfg.M == 0 else (2 * k if cfg.parity == 0 else 2 * k - 1 if cfg.parity == 1 else k)
    return {"mu": c["mu"], "r1": [float(x) for x in c["r1"]], "r2": [float(x) for x in c["r2"]], "tof": float(c.get("tof", 1.0)), "M": M,
            "pro": cfg.prograde}


def candidates(ctx, solver, cfg, check, lits, tight=True, n=10, extra=()):
    """calls of the solver on inputs of the configuration that satisfy the literals of a path"""
    out = []
    try:
        pts = find_points(ctx, lits, want=n)
    except (KeyError, TypeError, AttributeError, ValueError):
        pts = []
    for i, u in enumerate(pts):
        p = problem(ctx, ctx.space_env(u[None, :]), cfg, 1 + i % 2)
        out.append(call_of(solver, p, cfg, check, tight))
    rng = random.Random("%s %r" % (solver, cfg))
    tries = 0
    while len(out) < n + 25 and tries < 400:
        tries += 1
        M = 0 if cfg.M == 0 else rng.choice((2, 4) if cfg.parity == 0 else (1, 3) if cfg.parity == 1 else (1, 2, 3))
        c = cases.lambert_case(rng, M=M, plane=rng.choice(cases.PLANES), angle=rng.choice(cases.ANGLES))
        if c["pro"] != cfg.prograde or (c["dth"] < math.pi) != cfg.short or not bounded.good_geometry(c):
            continue
        out.append(call_of(solver, c, cfg, check, tight))
    return out


def call_of(solver, c, cfg, check, tight):
    kw = dict(bounded.TIGHT) if tight else {}
    return check(solver, c, cfg, kw)


def k_conic(s, c, cfg, kw):
    return (s, bounded.largs(c) + (cfg.prograde, cfg.low), kw, bounded.ck_conic, (c, cfg.prograde, 1e-6))


def k_tof(s, c, cfg, kw):
    return (s, bounded.largs(c) + (cfg.prograde, cfg.low), kw, bounded.ck_tof, (c, cfg.prograde, 1e-6))


def k_dir(s, c, cfg, kw):
    return (s, bounded.largs(c) + (cfg.prograde, cfg.low), kw, bounded.ck_dir, (c, cfg.prograde, 0))


def k_conv(s, c, cfg, kw):
    mi = 1 + (hash(c["tof"]) % 7)
    return (s, bounded.largs(c) + (cfg.prograde, cfg.low), dict(kw, maxiter=mi), bounded.ck_conv, (c, cfg.prograde, None, 1e-6))


def k_api(s, c, cfg, kw):
    a = (c["mu"], bounded.vec(c["r1"]), bounded.vec(c["r2"]), c["tof"])
    r = dict(M=c["M"], is_prograde=cfg.prograde, is_low_path=cfg.low, **kw)
    return ("group", [(s, a, dict(r, full_output=False), False), (s, a, dict(r, full_output=True), False)], bounded.ck_api)


def k_same(s, c, cfg, kw):
    return ("group", [(s, bounded.largs(c) + (cfg.prograde, True), kw, False), (s, bounded.largs(c) + (cfg.prograde, False), kw, False)], bounded.ck_same)


# ------------------------------------------------------------------ C04
def all_raise(name, ctx, outs, tr, kinds, calls):
    bad = None
    by = set()
    for o in outs:
        if o.kind == "merged":
            continue
        if o.kind == "raise" and o.value in kinds:
            by.add("raises " + o.value)
            continue
        if proof.infeasible(ctx, o):
            by.add("z3")
            continue
        if o.kind == "unsupported":
            return Ob(name, UNDECIDED, detail=str(o.value))
        bad = bad or o
    if bad is None:
        if tr or not by:
            return Ob(name, UNDECIDED, detail="path limit")
        return Ob(name, PROVED, by=", ".join(sorted(by)))
    what = "raises %s" % bad.value if bad.kind == "raise" else "returns"
    return Ob(name, FAILED, detail="%s on the path %s" % (what, path_text(bad)), calls=calls(bad))


def c04(world, solver):
    out = []
    rng = random.Random("c04 " + solver)
    wrong = bounded.bad_inputs(rng)

    def conc(sel):
        def calls(o):
            r = []
            for d in wrong:
                if sel(d):
                    for pro in (True, False):
                        r.append((solver, (d["mu"], np.array(d["r1"]), np.array(d["r2"]), d["tof"], d["M"], pro), {}, bounded.ck_valueerror, d))
            return r
        return calls
    f = world.func(drive.SOLVERS[solver], solver)

    def arr(ctx, tag):
        return Arr((3,), [ctx.real("%s%d" % (tag, i), ANY) for i in range(3)], tag)
    null = lambda v: np.shape(v) == (3,) and not np.any(np.array(v, float))
    kinds = {
        "mu <= 0": (lambda c, a: a.update(mu=c.real("mu_bad", NEG | ZERO)), lambda d: d["mu"] <= 0),
        "tof <= 0": (lambda c, a: a.update(tof=c.real("tof_bad", NEG | ZERO)), lambda d: d["tof"] <= 0),
        "M < 0": (lambda c, a: a.update(M=c.real("M_bad", NEG, integer=True)), lambda d: d["M"] < 0),
        "shape of r1": (lambda c, a: a.update(r1=NotShape3("array")), lambda d: np.shape(d["r1"]) != (3,)),
        "shape of r2": (lambda c, a: a.update(r2=NotShape3("array")), lambda d: np.shape(d["r2"]) != (3,)),
        "r1 null": (lambda c, a: a.update(r1=Arr((3,), [Fr(0)] * 3, "r1"), r2=arr(c, "y")), lambda d: null(d["r1"])),
        "r2 null": (lambda c, a: a.update(r2=Arr((3,), [Fr(0)] * 3, "r2"), r1=arr(c, "x")), lambda d: null(d["r2"])),
    }

    def equal(c, a):
        v = arr(c, "x")
        a.update(r1=v, r2=Arr((3,), list(v.data), "r2"))
    kinds["r1 = r2"] = (equal, lambda d: np.shape(d["r1"]) == np.shape(d["r2"]) and np.array_equal(d["r1"], d["r2"]))
    for label, (upd, sel) in kinds.items():
        obs = []
        for short, pro in GEOM:
            cfg = drive.Cfg(short, pro)
            ctx = drive.make_ctx(cfg)
            a = drive.args_of(ctx, cfg)
            upd(ctx, a)
            ctx.start_path()
            outs, tr = explore(world, ctx, lambda it: it.call(f, [], a), contracts.SOLVER, max_paths=40, deadline=time.time() + 20, coarse=frozenset())
            obs.append(all_raise("C04/%s/%s" % (solver, label), ctx, outs, tr, ("ValueError",), conc(sel)))
            if obs[-1].status != PROVED:
                break
        out.append(pick(obs))
    return out


def pick(obs):
    """one obligation out of its cases"""
    for s in (REFUTED, FAILED, UNDECIDED):
        for o in obs:
            if o.status == s:
                return o
    by = sorted({b for o in obs for b in o.by.split(", ") if b})
    return Ob(obs[0].name, PROVED, by=", ".join(by))


def c04_valid(world):
    """the validation accepts every valid input: its raising paths are infeasible"""
    X.reset()
    c = Six()
    ops.set_ctx(c)
    x, y = c.v[:3], c.v[3:]
    mu, tof = c.real("mu", POS), c.real("tof", POS)
    M = c.real("M", POS | ZERO, integer=True)
    sq = lambda v: add(add(powi(v[0], 2), powi(v[1], 2)), powi(v[2], 2))
    d = [sub(p, q) for p, q in zip(x, y)]
    for t in (x, y, d):
        c.base_fact(sq(t), POS)
    c.start_path()
    name = "C04/assert_parameters_are_valid/valid input accepted"
    outs, tr = paths(world, c, "lamberthub.utils.assertions", "assert_parameters_are_valid", [mu, Arr((3,), list(x), "r1"), Arr((3,), list(y), "r2"), tof, M], {})
    bad = None
    by = set()
    for o in outs:
        if o.kind == "unsupported":
            return [Ob(name, UNDECIDED, detail=str(o.value))]
        if o.kind == "return":
            by.add("returns")
            continue
        if proof.infeasible(c, o):
            by.add("z3")
            continue
        bad = bad or o
    if tr or "returns" not in by:
        return [Ob(name, UNDECIDED, detail="path limit or no returning path")]
    if bad is None:
        return [Ob(name, PROVED, by=", ".join(sorted(by)))]
    calls = []
    lits = [(e, m) for e, m, _ in bad.lits]
    for s in (1.0, 1e-3, 1e-6, 1e-9, 1e-12, 1e6):
        try:
            pts = find_points(scaled(c, s), [(e, m) for e, m in lits], want=2)
        except (KeyError, TypeError, AttributeError):
            pts = []
        for u in pts:
            env = scaled(c, s).space_env(u[None, :])
            v = [float(env["x%d" % i][0]) for i in range(6)]
            for sv in ("gauss1809", "battin1984", "izzo2015", "vallado2013", "gooding1990"):
                calls.append((sv, (1.0, np.array(v[:3]), np.array(v[3:]), 1.0, 0), {}, bounded.ck_not_validation, None))
    return [Ob(name, FAILED, detail="raises %s on valid input: %s" % (bad.value, path_text(bad)), calls=calls)]


class scaled:
    """the space of six reals at another scale"""

    def __init__(self, ctx, s):
        self.ctx, self.s = ctx, s

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def space_env(self, U):
        return {k: v * self.s for k, v in self.ctx.space_env(U).items()}


# ------------------------------------------------------------------ C05
def c05(world, solver):
    """a direct solver refuses every number of revolutions above zero"""
    obs = []
    name = "C05/%s/M > 0 refused" % solver
    for short, pro in GEOM:
        for low in (True, False):
            cfg = drive.Cfg(short, pro, 1, low)
            ctx, outs, tr = drive.run(world, solver, cfg, max_paths=60, deadline=time.time() + 30, coarse=frozenset())

            def calls(o, cfg=cfg, ctx=ctx):
                ck = lambda s, c, g, kw: (s, bounded.largs(c) + (g.prograde, g.low), {}, bounded.ck_valueerror, "M=%d" % c["M"])
                return candidates(ctx, solver, cfg, ck, [(e, m) for e, m, _ in o.lits])
            obs.append(all_raise(name, ctx, outs, tr, ("ValueError",), calls))
            if obs[-1].status != PROVED:
                return [obs[-1]]
    return [pick(obs)]


# ------------------------------------------------------------------ C06
def c06(world, solver, sense, tier="quick"):
    name = "C06/%s/%s vectors refused" % (solver, "parallel" if sense > 0 else "opposite")
    obs = []
    for bigger in ((True, False) if sense > 0 else (True,)):
        for pro in (True, False):
            for M, low, par in mcfgs(solver):
                cfg = drive.Cfg(True, pro, M, low, False, par)
                ctx = drive.make_ctx(cfg, (sense, bigger))
                ctx, outs, tr = drive.run(world, solver, cfg, max_paths=60, deadline=time.time() + 20, ctx=ctx, coarse=frozenset())

                def calls(o, ctx=ctx, cfg=cfg):
                    r = []
                    for u in find_points(ctx, [(e, m) for e, m, _ in o.lits], want=12):
                        p = problem(ctx, ctx.space_env(u[None, :]), cfg)
                        r.append((solver, bounded.largs(p) + (cfg.prograde, cfg.low), {}, bounded.ck_collinear, p["r2"][0] / p["r1"][0] if p["r1"][0] else 0.0))
                    return r
                obs.append(all_raise(name, ctx, outs, tr, ("ValueError", "RuntimeError"), calls))
                if obs[-1].status != PROVED:
                    return [obs[-1]]
    return [pick(obs)]


# ------------------------------------------------------------------ C08
def c08(world):
    """assigns clauses of every function of the package"""
    p = effects.Package(world.src)
    out = []
    rng = random.Random("c08")
    for (m, q), f in sorted(p.fns.items()):
        if f.outer is not None:
            continue
        public = q in drive.SOLVERS
        arrays = {"r1", "r2"} if public else None
        v = p.violations(f, arrays if public else {"r1", "r2", "r", "v", "v1", "v2", "vector"} if not q.startswith("_") else set())
        if not public and q.startswith("_"):
            # private helpers may write into arrays their callers made; the callers' clauses say so
            v = [x for x in v if not x.startswith(("may modify its argument", "modifies its argument"))]
        name = "C08/%s.%s/assigns nothing" % (m.replace("lamberthub.", ""), q)
        world.entered.add(m + "." + q)
        if not v:
            out.append(Ob(name, PROVED, by="effect analysis"))
            continue
        calls = []
        if public:
            for k in range(8):
                M = 0 if q in drive.DIRECT or k % 2 else rng.choice((1, 2))
                c, d = cases.lambert_case(rng, M=M), cases.lambert_case(rng, M=M)
                near = dict(c, tof=c["tof"] * (1 + 1e-5), r2=[x * (1 + 1e-7 * i) for i, x in enumerate(c["r2"])])
                for mid in (d, near):
                    a = (q, bounded.largs(c) + (c["pro"],), {}, False)
                    calls.append(("group", [(q, bounded.largs(mid) + (c["pro"],), {}, False), a, (q, bounded.largs(mid) + (c["pro"],), {}, True)], bounded.ck_pure))
                    calls.append(("group", [a, (q, bounded.largs(mid) + (c["pro"],), {}, False), a[:3] + (True,)], bounded.ck_pure))
        out.append(Ob(name, FAILED, detail="; ".join(v)[:600], calls=calls))
    return out


# ------------------------------------------------------------------ C09
SIGNATURE = ["mu", "r1", "r2", "tof", "M", "is_prograde", "is_low_path", "maxiter", "atol", "rtol", "full_output"]


def c09_signature(world, solver):
    f = world.func(drive.SOLVERS[solver], solver)
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(f.defaults):], f.defaults))
    bad = []
    if names != SIGNATURE or a.posonlyargs or a.kwonlyargs or a.vararg:
        bad.append("parameters %s" % names)
    for k, v in (("M", 0), ("is_prograde", True), ("is_low_path", True), ("full_output", False)):
        x = d.get(k)
        if type(v) is bool and x is not v or type(v) is int and not (is_num(x) and not isinstance(x, bool) and x == v):
            bad.append("default of %s is %r" % (k, x))
    for k in ("maxiter", "atol", "rtol"):
        x = d.get(k)
        if not (is_num(x) and x > 0):
            bad.append("default of %s is %r" % (k, x))
    for k in ("mu", "r1", "r2", "tof"):
        if k in d:
            bad.append("%s has a default" % k)
    name = "C09/%s/signature" % solver
    world.entered.add(drive.SOLVERS[solver] + "." + solver)
    if not bad:
        return [Ob(name, PROVED, by="signature")]
    rng = random.Random("c09")
    calls = []
    for k in range(6):
        c = cases.lambert_case(rng, M=0)
        a2 = (c["mu"], bounded.vec(c["r1"]), bounded.vec(c["r2"]), c["tof"])
        calls.append(("group", [(solver, a2 + (0, c["pro"], k % 2 == 0, 200, 1e-7, 1e-7, False), {}, False),
                                (solver, a2, dict(M=0, is_prograde=c["pro"], is_low_path=k % 2 == 0, maxiter=200, atol=1e-7, rtol=1e-7, full_output=True), False)], bounded.ck_api))
        if c["pro"]:
            calls.append(("group", [(solver, a2, {}, False), (solver, a2 + (0, True, True), dict(full_output=True), False)], bounded.ck_api))
    return [Ob(name, FAILED, detail="; ".join(bad), calls=calls)]


def shape3(v):
    return isinstance(v, Vec) or isinstance(v, Arr) and v.shape == (3,)


def ids(v):
    if isinstance(v, Vec):
        return ("vec",) + tuple(t if is_num(t) else t.id for t in v.c)
    if isinstance(v, Arr):
        return ("arr", v.shape) + tuple(t if is_num(t) else getattr(t, "id", repr(t)) for t in v.data)
    return repr(v)


def signature_of(o):
    lits = frozenset((e.id, m) for e, m, _ in o.lits)
    if o.kind == "raise":
        return ("raise", o.value, getattr(o, "msg", ""), lits)
    v = o.value
    return ("return", ids(v[0]), ids(v[1]), lits)


def clock(t):
    return not is_num(t) and any(v.startswith("clock") for v in X.variables(t))


def c09(world, solver, M, low, par, tier="quick"):
    name = "C09/%s/%s/full_output" % (solver, mname(M, low, par))
    obs = []
    for short, pro in ([(True, True), (False, True)] if tier == "quick" else GEOM):
        cfg = drive.Cfg(short, pro, M, low, False, par)
        cfgf = drive.Cfg(short, pro, M, low, True, par)
        dl = time.time() + TIME[tier]
        ctx, o1, t1 = drive.run(world, solver, cfg, max_paths=1500, deadline=dl, coarse=frozenset())
        ctx, o2, t2 = drive.run(world, solver, cfgf, max_paths=1500, deadline=dl, ctx=ctx, coarse=frozenset())
        obs.append(c09_judge(name, ctx, solver, cfg, o1, o2, t1 or t2))
        if obs[-1].status != PROVED:
            return [obs[-1]]
    return [pick(obs)]


def c09_judge(name, ctx, solver, cfg, o1, o2, tr):
    def fail(o, what):
        return Ob(name, FAILED, detail="%s on the path %s" % (what, path_text(o)),
                  calls=candidates(ctx, solver, cfg, k_api, [(e, m) for e, m, _ in o.lits], tight=False))
    unsup = None
    seen = {False: set(), True: set()}
    for full, outs in ((False, o1), (True, o2)):
        for o in outs:
            if o.kind == "merged":
                continue
            if o.kind == "unsupported":
                unsup = unsup or o
                continue
            if o.kind == "raise":
                if o.value not in ("ValueError", "RuntimeError"):
                    if not proof.infeasible(ctx, o):
                        return fail(o, "raises %s" % o.value)
                    continue
            else:
                v = o.value
                n = 4 if full else 2
                if not isinstance(v, tuple) or len(v) != n:
                    if not proof.infeasible(ctx, o):
                        return fail(o, "returns %s instead of %d values" % (repr(v)[:80], n))
                    continue
                for w in v[:2]:
                    if isinstance(w, Opaque):
                        unsup = unsup or o
                        continue
                    if not shape3(w):
                        return fail(o, "a velocity is not a three-component array: %s" % repr(w)[:80])
                if full:
                    k, t = v[2], v[3]
                    proof.enter(ctx, o)
                    if isinstance(k, Opaque) or isinstance(t, Opaque):
                        unsup = unsup or o
                    else:
                        if isinstance(k, bool) or not (is_num(k) or isinstance(k, X.E)):
                            return fail(o, "numiter is %r" % (k,))
                        if is_num(k) and (k != int(k) or k < 0):
                            return fail(o, "numiter is %r" % (k,))
                        if not is_num(k):
                            if not ops.is_int(k):
                                return fail(o, "numiter = %s is not an integer" % X.show(k, 80))
                            if not proof.prove_sign(ctx, o, k, POS | ZERO):
                                return fail(o, "numiter = %s is not shown to be non-negative" % X.show(k, 80))
                        if not (is_num(t) and t >= 0) and not proof.prove_sign(ctx, o, t, POS | ZERO):
                            return fail(o, "tpi = %s is not shown to be non-negative" % X.show(t, 120))
            if any(clock(e) for e, _, _ in o.lits):
                return fail(o, "the outcome depends on the clock")
            seen[full].add(signature_of(o))
    if unsup is not None:
        return Ob(name, UNDECIDED, detail=str(unsup.value))
    if tr:
        return Ob(name, UNDECIDED, detail="path limit")
    if seen[False] != seen[True]:
        odd = sorted(seen[False] ^ seen[True], key=str)
        return Ob(name, FAILED, detail="full_output changes the outcomes: %s" % str([s[:3] for s in odd])[:400],
                  calls=candidates(ctx, solver, cfg, k_api, [], tight=False))
    if not any(s[0] == "return" for s in seen[True]):
        return Ob(name, UNDECIDED, detail="no returning path (vacuous)")
    return Ob(name, PROVED, by="equal outcomes over all paths, sign analysis")


# ------------------------------------------------------------------ C14
def c14(world, solver, tier="quick"):
    """at M = 0 the solver has the same outcomes, on the same conditions, for both values of is_low_path"""
    name = "C14/%s/M=0 flag irrelevant" % solver
    fs, _ = flow.unread(world, drive.SOLVERS[solver], solver)
    if fs:
        world.entered |= fs
        return [Ob(name, PROVED, by="information flow")]
    open_ = set()
    dl = time.time() + TIME[tier]
    for short, pro in GEOM:
        ctx = None
        while True:
            seen, terms = [], []
            for low in (True, False):
                cfg = drive.Cfg(short, pro, 0, low, False, None)
                ctx, outs, tr = drive.run(world, solver, cfg, max_paths=1500, deadline=dl, ctx=ctx, coarse=frozenset(open_), contracts_=drive.WITH_SOLVERS)
                u = next((o for o in outs if o.kind == "unsupported"), None)
                if u is not None or tr:
                    return [Ob(name, UNDECIDED, detail=str(u.value) if u is not None else "path limit")]
                outs = [o for o in outs if o.kind != "merged"]
                seen.append({signature_of(o) for o in outs})
                terms.append({n.id: n for o in outs for n in X.topo(drive.velocity_terms([o]) + [e for e, _, _ in o.lits if not is_num(e)])})
            if seen[0] == seen[1]:
                break
            # helpers summarised as functions of their arguments: look inside those that get the flag
            odd = {i: n for i, n in (terms[0] | terms[1]).items() if not (i in terms[0] and i in terms[1])}
            new = {".".join(n.a[0][2:].split(".")[:2]) for n in odd.values() if n.k == "fn" and n.a[0].startswith("u:")
                   and not any(not is_num(x) and x.id in odd for x in n.a[1])} - open_
            if not new:
                new = {".".join(n.a[0][2:].split(".")[:2]) for o in outs for n in X.topo([e for e, _, _ in o.lits if not is_num(e)])
                       if n.k == "fn" and n.a[0].startswith("u:")} - open_
            if not new:
                odd = sorted(seen[0] ^ seen[1], key=str)
                return [Ob(name, FAILED, detail="is_low_path changes the outcomes: %s" % str([x[:3] for x in odd])[:400],
                           calls=candidates(ctx, solver, cfg, k_same, [], tight=False))]
            open_ |= new
        if not any(x[0] == "return" for x in seen[0]):
            return [Ob(name, UNDECIDED, detail="no returning path (vacuous)")]
    return [Ob(name, PROVED, by="equal outcomes over all paths")]


# ------------------------------------------------------------------ C01, C03
def on_frame(ctx, a):
    """components of a vector along r1, across it in the plane of motion, and along the normal"""
    if isinstance(a, Vec):
        return a
    if not (isinstance(a, Arr) and a.shape == (3,)):
        raise Shape("a velocity is not a three-component array: %s" % repr(a)[:80])
    if not all(is_num(t) or isinstance(t, X.E) for t in a.data):
        raise Skip("velocities are not real numbers the frame can express: %s" % repr(a)[:60])
    out = []
    for q in ctx.Q:
        t = Fr(0)
        for x, y in zip(a.data, q):
            t = add(t, mul(x, y))
        out.append(t)
    return Vec(out)


def c01_goals(ctx, o):
    v = o.value
    if not (isinstance(v, tuple) and len(v) >= 2):
        raise Shape("the value is not a pair of velocities")
    a, b = on_frame(ctx, v[0]), on_frame(ctx, v[1])
    mu, R1, R2, c, s = ctx.mu, ctx.R1, ctx.R2, ctx.cth, ctx.sth
    a1, a2, a3 = a.c
    b1, b2, b3 = b.c
    h1 = mul(R1, a2)
    h2 = mul(R2, sub(mul(c, b2), mul(s, b1)))
    e1 = (sub(mul(a2, h1), mu), neg(mul(a1, h1)))
    e2 = (sub(mul(b2, h2), mul(mu, c)), sub(neg(mul(b1, h2)), mul(mu, s)))
    en = sub(sub(add(powi(a1, 2), powi(a2, 2)), div(scale(mu, 2), R1)), sub(add(powi(b1, 2), powi(b2, 2)), div(scale(mu, 2), R2)))
    return [("v1 in the plane", "zero", a3), ("v2 in the plane", "zero", b3), ("angular momentum", "zero", sub(h1, h2)),
            ("eccentricity vector, first component", "zero", sub(e1[0], e2[0])),
            ("eccentricity vector, second component", "zero", sub(e1[1], e2[1])), ("energy", "zero", en)]


class Skip(Exception):
    pass


def terms_of(v):
    """the terms inside a returned value"""
    if isinstance(v, X.E):
        return [v]
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in terms_of(x)]
    if isinstance(v, Vec):
        return terms_of(list(v.c))
    if isinstance(v, Arr):
        return terms_of(list(v.data))
    return []


def goal_terms(ctx, g):
    ts = g[2] if g[1] == "skip" else g[2:3]
    return [ctx.expand(t) for t in ts if isinstance(t, X.E)]


def helpers_in(terms):
    """the helpers that appear summarised in the terms"""
    out = set()
    for n in X.topo([t for t in terms if not is_num(t)]):
        if n.k == "fn" and n.a[0].startswith("u:"):
            out.add(".".join(n.a[0][2:].split(".")[:2]))
    return out


def goal_holds(ctx, o, g):
    """'' or the back end that shows the goal on the path"""
    if g[1] in ("never", "skip"):
        return ""
    b = proof.prove_zero(ctx, o, g[2]) if g[1] == "zero" else proof.prove_sign(ctx, o, g[2], g[3])
    if not b and not is_num(g[2]):
        t = ctx.expand(g[2])
        if t is not g[2]:
            b = proof.prove_zero(ctx, o, t) if g[1] == "zero" else proof.prove_sign(ctx, o, t, g[3])
    return b


def contracted(v):
    """the other solver whose velocities are handed on as they are"""
    w = [getattr(x, "by_contract", None) for x in v[:2]] if isinstance(v, tuple) and len(v) == 2 else []
    return w[0][0] if len(w) == 2 and all(w) and w[0][0] == w[1][0] and (w[0][1], w[1][1]) == (1, 2) else ""


def judge_paths(ctx, outs, goals, world=None):
    """back ends used, number of returning paths, open goals [(path, goal)], what could not be decided"""
    by, n, open_, unsup = set(), 0, [], ""
    # a goal ("text", "skip", terms) cannot be stated on the path unless a helper in the terms is opened
    for o in outs:
        if o.kind == "unsupported":
            unsup = unsup or str(o.value)
        if o.kind != "return":
            continue
        who = contracted(o.value)
        if who:
            by.add("contract of " + who)
            n += 1
            continue
        proof.enter(ctx, o)
        try:
            gs = goals(ctx, o)
        except Skip as e:
            gs = [(str(e), "skip", terms_of(o.value))]
        except Shape as e:
            gs = [(str(e), "never")]
        except (X.DivByZero, ZeroDivisionError):
            unsup = unsup or "division by zero in a goal"
            continue
        n += 1
        for g in gs:
            b = goal_holds(ctx, o, g)
            if b:
                by.add(b)
                continue
            if proof.infeasible(ctx, o):
                by.add("z3")
            else:
                ctx.hurry = True
                b = world and by_cases(world, ctx, o, g)
                ctx.hurry = False
                if b:
                    by |= b
                    continue
                open_.append((o, g))
            break
    return by, n, open_, unsup


def by_cases(world, ctx, o, g, depth=0):
    """back ends that show the goal under every way the helpers summarised in it, or on the path, can return"""
    if g[1] in ("never", "skip") or is_num(g[2]) or depth > 4:
        return set()
    seen = []
    for t in [g[2]] + [e for e, _, _ in reversed(o.lits)]:
        for n in reversed(X.topo([ctx.expand(t)])) if not is_num(t) else []:
            if n.id in ctx.summaries and n not in seen:
                seen.append(n)
        if seen and t is g[2]:
            break
    seen = [n for n in seen if cases_of(world, ctx, n)]
    for n in seen[:1 if depth else 3]:
        outs = cases_of(world, ctx, n)
        whole = ctx.summaries[n.id][1]
        by, ok = {"case analysis"}, True
        for c in outs:
            m = {}
            if not match(whole, c.value, m):
                ok = False
                break
            p = copy.copy(o)
            sb = lambda t: t if is_num(t) else X.subst(ctx.expand(t), m)
            try:
                p.lits = [(sb(e), k, w) for e, k, w in o.lits] + c.lits
                p.fact_list = [(sb(e), k) for e, k in o.fact_list] + [f for f in c.fact_list if f not in o.fact_list]
                h = (g[0], g[1], sb(g[2])) + tuple(g[3:])
            except (X.DivByZero, ZeroDivisionError):
                ok = False
                break
            proof.enter(ctx, p)
            b = "signs" if proof.conflicting_signs(ctx, p) else goal_holds(ctx, p, h) or (proof.infeasible(ctx, p) and "z3")
            b = {b} if b else by_cases(world, ctx, p, h, depth + 1)
            if not b:
                ok = False
                break
            by |= b
        proof.enter(ctx, o)
        if ok:
            return by
    return set()


def match(x, v, m):
    """the summarised value x taken to be v"""
    if isinstance(x, (tuple, list)):
        return isinstance(v, (tuple, list)) and len(v) == len(x) and all(match(a, b, m) for a, b in zip(x, v))
    if isinstance(x, Cx):
        return isinstance(v, Cx) and match(x.re, v.re, m) and match(x.im, v.im, m)
    if isinstance(x, X.E) and (is_num(v) or isinstance(v, X.E)):
        m[x] = v
        return True
    return x is v or is_num(x) and is_num(v) and x == v


def cases_of(world, ctx, n):
    """the returning paths of the call a summarised value stands for; [] when they
    involve values of their own (loops, unknowns)"""
    key = ("cases", n.id)
    if key not in ctx.cases:
        _, _, f, bound = ctx.summaries[n.id]
        ctx.cases[key] = []
        outs, tr = explore(world, ctx, lambda it: it.call(f, [], dict(bound)), contracts.SOLVER, 64)
        res = []
        if not tr and not any(c.kind in ("unsupported", "merged") or c.loops or c.conv or c.abstract for c in outs):
            res = [c for c in outs if c.kind == "return"]
        ctx.cases[key] = res
    return ctx.cases[key]


def refine(world, solver, cfg, judge, tier, max_paths=1500):
    """explores with branching helpers summarised, and opens the helpers that stand in the way of
    a goal until the goals hold or nothing is left to open"""
    ctx = drive.make_ctx(cfg)
    precise = set()
    dl = time.time() + TIME[tier]
    while True:
        ctx, outs, tr = drive.run(world, solver, cfg, max_paths, deadline=dl, ctx=ctx, contracts_=drive.WITH_SOLVERS, coarse=frozenset(precise))
        r = judge(ctx, outs)
        if tr or not r[2]:
            return ctx, r, tr
        new = set()
        for o, g in r[2]:
            new |= helpers_in(goal_terms(ctx, g))
        new -= precise
        if not new:
            for o, g in r[2]:
                new |= helpers_in([ctx.expand(e) for e, _, _ in o.lits])
            new -= precise
        if not new:
            return ctx, r, tr
        if time.time() > dl:
            return ctx, r, "time limit with helpers left to open"
        precise |= new


def returns_judge(name, world, solver, cfg, goals, check, tier, tight=True):
    """goals hold on every returning path"""
    ctx, (by, n, open_, unsup), tr = refine(world, solver, cfg, lambda c, outs: judge_paths(c, outs, goals, world), tier)
    skips = [g for _, g in open_ if g[1] == "skip"]
    open_ = [(o, g) for o, g in open_ if g[1] != "skip"]
    if isinstance(tr, str) or skips and not open_:
        return Ob(name, UNDECIDED, detail=tr if isinstance(tr, str) else skips[0][0])
    if open_:
        o, g = open_[0]
        return Ob(name, FAILED, detail="%s is not established on the path %s" % (g[0], path_text(o)),
                  calls=candidates(ctx, solver, cfg, check, [(e, m) for e, m, _ in o.lits], tight))
    if unsup or tr or not n:
        return Ob(name, UNDECIDED, detail=unsup or ("path limit" if tr else "no returning path (vacuous)"))
    return Ob(name, PROVED, by=", ".join(sorted(by)))


def c01(world, solver, short, pro, M, low, par, tier="quick"):
    cfg = drive.Cfg(short, pro, M, low, False, par)
    return [returns_judge("C01/%s/%s, %s/one orbit" % (solver, geom(short, pro), mname(M, low, par)), world, solver, cfg, c01_goals, k_conic, tier)]


def c03_goals(ctx, o):
    v = o.value
    if not (isinstance(v, tuple) and len(v) >= 2):
        raise Shape("the value is not a pair of velocities")
    return [("(r1 x v1).n > 0", "sign", on_frame(ctx, v[0]).c[1], POS)]


def c03(world, solver, short, pro, M, low, par, tier="quick"):
    cfg = drive.Cfg(short, pro, M, low, False, par)
    return [returns_judge("C03/%s/%s, %s/direction" % (solver, geom(short, pro), mname(M, low, par)), world, solver, cfg, c03_goals, k_dir, tier)]


# ------------------------------------------------------------------ C07
def c07(world, solver, M, low, par, tier="quick"):
    """on every returning path each loop whose iterate is in the velocities has met a convergence
    test of the form |difference| <= tolerance; and loops end"""
    pre = "C07/%s/%s" % (solver, mname(M, low, par))
    obs = {"converged": [], "bounded": []}
    dl = time.time() + TIME[tier]
    for short, pro in ([(True, True), (False, True)] if tier == "quick" else GEOM):
        cfg = drive.Cfg(short, pro, M, low, False, par)
        ctx, outs, tr = drive.run(world, solver, cfg, max_paths=1500, deadline=dl, coarse=frozenset(), contracts_=drive.WITH_SOLVERS)
        unsup = next((str(o.value) for o in outs if o.kind == "unsupported"), "path limit" if tr else "")
        rets = [o for o in outs if o.kind == "return"]
        bad = []
        for o in rets:
            if contracted(o.value) or not isinstance(o.value, tuple):
                continue
            u = unconverged(ctx, o.value[:2], o.met)
            if u and not proof.infeasible(ctx, o):
                bad.append((o, u))
        name = pre + "/converged"
        if bad:
            o, u = bad[0]
            obs["converged"].append(Ob(name, FAILED, detail="the iterate of %s is returned without a convergence test on the path %s" % (
                ", ".join(u), path_text(o)), calls=candidates(ctx, solver, cfg, k_conv, [(e, m) for e, m, _ in o.lits], True)))
        elif unsup or not rets:
            obs["converged"].append(Ob(name, UNDECIDED, detail=unsup or "no returning path (vacuous)"))
        else:
            obs["converged"].append(Ob(name, PROVED, by="dependence of the velocities on tested iterates"))
        name = pre + "/bounded"
        wild = sorted({str(r["where"]) for o in outs for r in o.loops if r["kind"] == "while" and not r["variant"] and r["exit"] != "zero"})
        if wild:
            obs["bounded"].append(Ob(name, FAILED, detail="no bound on the iterations of the loop at " + ", ".join(wild), calls=[]))
        elif unsup:
            obs["bounded"].append(Ob(name, UNDECIDED, detail=unsup))
        else:
            obs["bounded"].append(Ob(name, PROVED, by="for loops over ranges; decreasing loop conditions"))
    return [pick(v) for v in obs.values()]


# ------------------------------------------------------------------ tasks
# solvers (and numbers of revolutions) whose paths the symbolic execution does not get through in time
OUT_OF_REACH = {("gooding1990", 1), ("battin1984", 0), ("mcelreath2025", 0), ("mcelreath2025", 1),
                ("der2011", 0), ("der2011", 1)}
SLOW_FIRST = sorted(drive.SOLVERS, key=lambda s: s not in ("jiang2016", "negrete2024", "delatorre2018", "gooding1990"))


def tasks(prop, tier="quick"):
    S = list(drive.SOLVERS)
    out = []
    if prop == "C04":
        out.append(("C04/valid", c04_valid))
        out += [("C04/" + s, c04, s) for s in S]
    elif prop == "C05":
        out += [("C05/" + s, c05, s) for s in drive.DIRECT]
    elif prop == "C06":
        out += [("C06/%s/%d" % (s, k), c06, s, k) for s in S for k in (1, -1)]
    elif prop == "C08":
        out.append(("C08/effects", c08))
    elif prop == "C09":
        out += [("C09/%s/signature" % s, c09_signature, s) for s in S]
        if WIP:
            out += [("C09/%s/%s" % (s, mname(*m)), c09, s) + m for s in S for m in mcfgs(s)]
    elif prop == "C14":
        out += [("C14/" + s, c14, s) for s in S]
    elif prop == "C07":
        out += [("C07/%s/%s" % (s, mname(*m)), c07, s) + m for s in SLOW_FIRST for m in mcfgs(s)
                if s not in ("battin1984", "der2011") and not (s == "gooding1990" and m[0])]
    elif prop in ("C01", "C03"):
        fn = c01 if prop == "C01" else c03
        out += [("%s/%s/%s %s" % (prop, s, geom(*g), mname(*m)), fn, s) + g + m for s in SLOW_FIRST for m in mcfgs(s) for g in GEOM
                if WIP or (s, min(m[0], 1)) not in OUT_OF_REACH]
    return out
