"""Runs a solver of /repo symbolically under a configuration of its flags."""
import time
from fractions import Fraction as Fr

from . import contracts
from . import expr as X
from . import ops
from .ctx import Collinear, Frame, default_sampler, logu
from .expr import NEG, POS, ZERO, add, is_num, mul, scale, sub
from .symex import Vec, World, explore

REPO_SRC = "/repo/src"
SOLVERS = {
    "gauss1809": "lamberthub.p_solvers.gauss", "battin1984": "lamberthub.p_solvers.battin",
    "jiang2016": "lamberthub.p_solvers.jiang", "pan2016": "lamberthub.p_solvers.pan",
    "gooding1990": "lamberthub.universal_solvers.gooding", "der2011": "lamberthub.universal_solvers.der",
    "thorne2004": "lamberthub.series_solvers.thorne", "avanzini2008": "lamberthub.ecc_solvers.avanzini",
    "arora2013": "lamberthub.universal_solvers.arora", "vallado2013": "lamberthub.universal_solvers.vallado",
    "izzo2015": "lamberthub.universal_solvers.izzo", "negrete2024": "lamberthub.universal_solvers.negrete",
    "mcelreath2025": "lamberthub.universal_solvers.mcelreath", "delatorre2018": "lamberthub.regularization.delatorre",
}
DIRECT = ["gauss1809", "battin1984", "jiang2016", "pan2016", "thorne2004", "avanzini2008", "vallado2013"]
MULTI = [s for s in SOLVERS if s not in DIRECT]


class Cfg:
    def __init__(self, short=True, prograde=True, M=0, low=True, full=False, parity=None):
        self.short, self.prograde, self.M, self.low, self.full, self.parity = short, prograde, M, low, full, parity

    def __repr__(self):
        return "%s transfer, %s, M%s, %s path%s" % (
            "short" if self.short else "long", "prograde" if self.prograde else "retrograde",
            "=0" if self.M == 0 else ">0" + ("" if self.parity is None else (" even" if self.parity == 0 else " odd")),
            "low" if self.low else "high", ", full_output" if self.full else "")


# contracts of the functions a solver calls, and of the other solvers it may hand the problem to
WITH_SOLVERS = dict(contracts.SOLVER)
WITH_SOLVERS.update({(m, s): contracts.solver(s) for s, m in SOLVERS.items()})


def make_ctx(cfg, collinear=None):
    X.reset()
    c = Frame(cfg.short, cfg.prograde) if collinear is None else Collinear(collinear[0], collinear[1], cfg.prograde)
    ops.set_ctx(c)
    c.tof = c.real("tof", POS, logu(1e-2, 1e3))
    c.atol = c.real("atol", POS, logu(1e-12, 1e-4))
    c.rtol = c.real("rtol", POS, logu(1e-14, 1e-6))
    c.maxiter = c.real("maxiter", POS, lambda rng, n, env: rng.integers(1, 100, n).astype(float), integer=True)
    c.base_fact(sub(c.maxiter, 1), POS | ZERO)
    if cfg.M == 0:
        c.M = Fr(0)
    else:
        k = c.real("k", POS, lambda rng, n, env: rng.integers(1, 4, n).astype(float), integer=True)
        c.base_fact(sub(k, 1), POS | ZERO)
        if cfg.parity is None:
            c.M = k
        elif cfg.parity == 0:
            c.M = scale(k, 2)
        else:
            c.M = sub(scale(k, 2), 1)
        c.base_fact(sub(c.M, 1), POS | ZERO)
    c.start_path()
    return c


def args_of(c, cfg):
    r1 = Vec([c.R1, Fr(0), Fr(0)], "r1")
    r2 = Vec([mul(c.R2, c.cth), mul(c.R2, c.sth), Fr(0)], "r2")
    return dict(mu=c.mu, r1=r1, r2=r2, tof=c.tof, M=c.M, is_prograde=cfg.prograde, is_low_path=cfg.low,
                maxiter=c.maxiter, atol=c.atol, rtol=c.rtol, full_output=cfg.full)


def run(world, solver, cfg, max_paths=600, peel=0, deadline=None, ctx=None, contracts_=None, coarse=False):
    c = ctx or make_ctx(cfg)
    f = world.func(SOLVERS[solver], solver)

    args = args_of(c, cfg)
    c.problem = {k: args[k] for k in ("mu", "r1", "r2", "tof", "M", "is_prograde", "is_low_path")}

    def call(it):
        return it.call(f, [], args_of(c, cfg))
    outs, trunc = explore(world, c, call, contracts_ or contracts.SOLVER, max_paths, peel, deadline, coarse=coarse)
    return c, outs, trunc


def velocity_terms(outs):
    out = []
    for o in outs:
        if o.kind == "return" and isinstance(o.value, tuple):
            for v in o.value[:2]:
                if isinstance(v, Vec):
                    out += [t for t in v.c if not is_num(t)]
    return out


def run_refined(world, solver, cfg, max_paths=600, peel=0, deadline=None, contracts_=None, extra=()):
    """explores with branching helpers summarised as uninterpreted functions, and opens
    those whose value reaches the velocities, until none is left"""
    precise = set(extra)
    c = make_ctx(cfg)
    for _ in range(12):
        c, outs, trunc = run(world, solver, cfg, max_paths, peel, deadline, c, contracts_, frozenset(precise))
        new = set()
        for n in X.topo(velocity_terms(outs)):
            if n.k == "fn" and n.a[0].startswith("u:"):
                nm = ".".join(n.a[0][2:].split(".")[:2])
                if nm not in precise:
                    new.add(nm)
        if not new or trunc:
            break
        precise |= new
    return c, outs, trunc, precise
