"""The deductive part of a check: generates the obligations of a property from the
current source of /repo, discharges them in a pool of processes and judges the
result against the list of those that are discharged on the baseline tree."""
import json
import multiprocessing as mp
import os
import resource
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASELINE = os.path.join(HERE, "obligations.json")
PROCS = 8
MEM = 3200 << 20

TASKS = {}


def tasks(prop):
    from . import goals_utils as U
    from .sym.expr import NEG, POS, ZERO
    out = []

    def add(label, fn, *args):
        out.append((label, fn, args))
    B = (True, False)
    if prop in ("C10", "C11", "C01"):
        add("linalg", U.linalg, prop)
    if prop == "C10":
        for s in B:
            for p in B:
                add("C10/%d%d" % (s, p), U.c10, s, p)
                add("C10/col%d%d" % (s, p), U.c10_collinear, 1 if s else -1, p, True)
                add("C10/colr%d%d" % (s, p), U.c10_collinear, 1 if s else -1, p, False)
    elif prop == "C11":
        for k in ("circular", "elliptic", "hyperbolic"):
            for m in ("inclined", "equatorial", "retrograde equatorial"):
                add("C11/coe2rv %s %s" % (k, m), U.c11_coe2rv, k, m)
                add("C11/rv2coe %s %s" % (k, m), U.c11_rv2coe, k, m)
        for a in range(3):
            add("C11/rot%d" % a, U.c11_rot, a)
    elif prop == "C12":
        for k in ("elliptic", "hyperbolic", "parabolic", "negative"):
            add("C12/" + k, U.c12, k, None)
    elif prop == "C13":
        for k in (2, 3):
            for m in (POS, NEG, ZERO):
                add("C13/%d%d" % (k, m), U.c13, k, m)
    try:
        from . import goals_solvers as S
    except ImportError:
        return out
    for t in S.tasks(prop):
        add(*t)
    return out


def run_task(job):
    label, fn, args, src, limit = job
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    from . import proof
    from .sym.symex import World
    t0 = time.time()
    try:
        w = World(src)
        obs = fn(w, *args)
        rows = [(o.name, o.status, o.by, o.detail, o.calls, sorted(w.entered)) for o in obs]
        err = ""
    except MemoryError:
        rows, err = [], "out of memory"
    except RecursionError:
        rows, err = [], "recursion"
    except Exception as e:  # noqa: BLE001
        rows, err = [], "%s: %s %s" % (type(e).__name__, e, traceback.format_exc(limit=-3))
    return label, rows, err, time.time() - t0, dict(proof.Z3_UNSAT)


def child(jobs, q):
    for j in jobs:
        q.put(run_task(j))


def generate(prop, tier, src="/repo/src", budget=600.0, only=None):
    """[(name, status, by, detail, calls)], errors, seconds"""
    ts = [t for t in tasks(prop) if only is None or only in t[0]]
    ctxm = mp.get_context("fork")
    deadline = time.time() + budget
    pending = list(ts)[::-1]
    running = []
    rows, errs, cpu, z3n, z3s, slow = [], [], 0.0, 0, 0.0, []
    while pending or running:
        while pending and len(running) < PROCS:
            label, fn, args = pending.pop()
            r, w = ctxm.Pipe(False)
            p = ctxm.Process(target=lambda w, j: (w.send(run_task(j)), w.close()), args=(w, (label, fn, args, src, budget)))
            p.start()
            w.close()
            running.append((label, p, r, time.time()))
        time.sleep(0.01)
        for it in list(running):
            label, p, r, t0 = it
            got = None
            if r.poll():
                try:
                    got = r.recv()
                except EOFError:
                    got = (label, [], "the worker ended early", time.time() - t0, {"n": 0, "s": 0.0})
            elif not p.is_alive() and not r.poll():
                got = (label, [], "the worker ended early", time.time() - t0, {"n": 0, "s": 0.0})
            elif time.time() > deadline:
                p.kill()
                got = (label, [], "time limit", time.time() - t0, {"n": 0, "s": 0.0})
            if got:
                running.remove(it)
                p.join(5)
                if p.is_alive():
                    p.kill()
                r.close()
                rows += got[1]
                cpu += got[3]
                slow.append((round(got[3], 1), label))
                z3n += got[4]["n"]
                z3s += got[4]["s"]
                if got[2]:
                    errs.append((label, got[2]))
    slow.sort(reverse=True)
    return rows, errs, {"cpu": cpu, "z3n": z3n, "z3s": z3s, "slow": slow[:5]}


def baseline():
    if os.path.exists(BASELINE):
        return json.load(open(BASELINE))
    return {}


def replay_calls(prop, row, seed):
    """runs the candidate calls of a failed obligation on the real code"""
    from . import bounded
    run = bounded.Run(prop, "quick", seed)
    for c in row[4][:40]:
        if c[0] == "group":
            run.group(*c[1:])
        else:
            run.add(*c)
    run.flush()
    return run


def run(prop, tier, seed, verbose=False):
    from .notes import TRUSTED, ASSUMED
    t0 = time.time()
    want = baseline().get(prop, [])
    rows, errs, st = generate(prop, tier)
    names = {}
    for r in rows:
        names.setdefault(r[0], []).append(r)
    viol, done, und, bad, known = [], [], [], [], []
    by = {}
    for n, rs in names.items():
        ss = [r[1] for r in rs]
        if all(s == "proved" for s in ss):
            done.append(n)
            for r in rs:
                for b in r[2].split(", "):
                    by[b] = by.get(b, 0) + 1
        elif "known finding" in ss:
            known.append(n)
        elif any(s in ("refuted", "failed") for s in ss):
            bad.append(n)
        else:
            und.append(n)
    for n in sorted(bad):
        r = [x for x in names[n] if x[1] in ("refuted", "failed")][0]
        hit = None
        if r[4]:
            b = replay_calls(prop, r, seed)
            if b.viol:
                hit = b.viol[0]
        if hit:
            viol.append({"what": "obligation %s: %s; on the real code: %s" % (n, r[3][:300], hit["what"]), "obligation": n, "verifier": r[3],
                         "replay": hit, "input": True})
        elif n in want:
            viol.append({"what": "obligation %s: %s" % (n, r[3][:600]), "obligation": n, "verifier": r[3], "status": r[1],
                         "tried": [str(c)[:300] for c in r[4][:5]], "input": False})
        else:
            und.append(n)
    missing = [n for n in want if n not in names]
    if verbose:
        for n in sorted(names):
            for r in names[n]:
                print("  %-9s %s [%s] %s" % (r[1], n, r[2], r[3][:300]))
        for e in errs:
            print("  error", e)
        print("  missing", missing)
        print("  slow", st["slow"])
    total = len(done) + len(und) + len(bad) + len(missing)
    total -= len([n for n in und if n in bad])
    fns = sorted({f for r in rows for f in (r[5] or ())})
    cov = {"obligations": total, "discharged": len(done),
           "checker_cmd": "python3-vt check.py %s --no-bounded -v" % prop,
           "trusted_base": TRUSTED, "obligations_by_back_end": by, "undecided": sorted(und + missing)[:60],
           "functions_under_contract": fns, "solver_seconds": round(st["z3s"], 2), "solver_calls": st["z3n"],
           "deductive_cpu_s": round(st["cpu"], 1), "deductive_wall_s": round(time.time() - t0, 1), "slowest": st["slow"],
           "samples": [{"obligation": n, "back_end": names[n][0][2]} for n in sorted(done)[:4]]}
    if known:
        cov["known_findings"] = known
    if errs:
        cov["not_generated"] = [("%s: %s" % e)[:200] for e in errs[:10]]
    level = "proof" if prop in COMPLETE and done and not und and not missing and not bad else "exploration"
    return {"violations": viol, "level": level, "coverage": cov, "assumptions": ASSUMED + ASSUMED_BY.get(prop, [])}


# properties whose obligations express the whole statement
COMPLETE = {"C04", "C08", "C10", "C12", "C13"}
ASSUMED_BY = {}


def write_baseline(props):
    """run on the unchanged tree: records which obligations are discharged there"""
    b = baseline()
    for p in props:
        rows, errs, st = generate(p, "quick")
        d = {}
        for r in rows:
            d.setdefault(r[0], []).append(r[1])
        b[p] = sorted(n for n, ss in d.items() if all(s == "proved" for s in ss))
        print(p, len(b[p]), "of", len(d), errs[:3], st)
        for n, ss in d.items():
            if n not in b[p]:
                print("   ", n, ss)
    json.dump(b, open(BASELINE, "w"), indent=0, sort_keys=True)
