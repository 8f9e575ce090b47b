"""Runs one check: the obligations of the property, then its run-time
contracts, writes the evidence and prints the verdict."""
import argparse
import json
import os
import time

from . import bounded

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                out.append(line[8:].strip())
    return out


def write_replay(prop, n, payload):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    payload = dict(payload, property=prop, how="python3-vt /verif/replay.py %s" % path)
    with open(path, "w") as f:
        json.dump(payload, f, indent=1, default=str)
    return path


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-deductive", action="store_true")
    ap.add_argument("--no-bounded", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    prop = a.property
    t0 = time.time()

    ded = None
    if not a.no_deductive:
        from . import obligations
        ded = obligations.run(prop, tier, seed, verbose=a.v)
    run = None
    if not a.no_bounded:
        run = bounded.sharded(prop, tier, seed)
        if tier == "thorough":
            jr = bounded.sharded(prop, "quick", seed + 1000, jit=True)
            run.viol += jr.viol
            run.evals += jr.evals

    viol = []
    if ded:
        viol += ded["violations"]
    if run:
        seen = set()
        for v in run.viol:
            fn = v["request"].get("fn") or v["request"]["group"][0]["fn"]
            if fn in seen:
                continue
            seen.add(fn)
            viol.append({"what": "run-time contract of %s on %s: %s" % (prop, fn, v["what"]), "replay": v, "input": True})

    lines = []
    for i, v in enumerate(viol):
        path = write_replay(prop, i, v)
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if v.get("input") else " no-failing-input-found"))
        print("# " + v["what"][:400])
    # with an input first: it is the strongest report
    lines.sort(key=lambda s: s.endswith("no-failing-input-found"))
    for s in lines:
        print(s)

    cov = {}
    level = "exploration"
    assumptions = []
    if ded:
        level = ded["level"]
        cov.update(ded["coverage"])
        assumptions = ded["assumptions"]
    if run:
        cov["evaluations"] = run.evals
        cov["distinct_nontrivial"] = sum(n for k, n in run.kinds.items() if k in ("ok", "group"))
        cov["rule"] = ("BOUNDED, not counted as proved: run-time contract of the property on seeded problems against an mpmath oracle; "
                       "non-trivial = the real code returned a value that was judged")
        cov["bounded_outcomes"] = run.kinds
        cov.setdefault("samples", [])
        cov["samples"] = (cov["samples"] + run.samples)[:8]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known_findings():
        if ("property=%s " % prop) in k + " ":
            print("KNOWN-FINDING: " + k)
    ok = not viol
    if ded:
        print("%s: %d obligations, %d discharged, %d undecided" % (prop, cov["obligations"], cov["discharged"], cov["obligations"] - cov["discharged"]))
    if run:
        print("%s: bounded run-time contracts: %d calls %s" % (prop, run.evals, run.kinds))
    print("%s %s in %.1fs" % (prop, "holds" if ok else "VIOLATED", time.time() - t0))
    return 0 if ok else 1
