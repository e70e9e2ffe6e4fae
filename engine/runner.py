"""Runs the cases of one property in parallel, prints verdicts, writes the evidence file."""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DIREPACK_REPO", "/repo")


def load(pid):
    mod = importlib.import_module("checks." + pid)
    return mod


def get_cases(pid, tier):
    mod = load(pid)
    return mod, mod.cases(tier)


def _work(arg):
    pid, tier, i, seed, cross = arg
    from . import harness
    try:
        mod, cs = get_cases(pid, tier)
        return harness.explore_case(cs[i], seed, cross)
    except BaseException as e:
        return dict(error=traceback.format_exc(), name="case %d" % i)


def _child(arg, conn):
    sys.stdout = open(os.devnull, "w")  # what the checked code prints
    try:
        r = _work(arg)
        conn.send_bytes(json.dumps(r, default=str).encode())
        conn.close()
    finally:
        sys.stdout.flush()
        os._exit(0)


def schedule(args, cases, jobs, verbose):
    """one forked process per case, at most `jobs` at a time, hard limit per case"""
    ctx = mp.get_context("fork")
    todo = list(zip(args, cases))[::-1]
    live = []
    res = []
    while todo or live:
        while todo and len(live) < jobs:
            a, c = todo.pop()
            r, w = ctx.Pipe(False)
            sys.stdout.flush()
            p = ctx.Process(target=_child, args=(a, w))
            p.start()
            w.close()
            live.append((p, r, c, time.time()))
        ready = mp.connection.wait([x[1] for x in live], timeout=1.0)
        for x in list(live):
            p, r, c, t = x
            out = None
            if r in ready:
                try:
                    out = json.loads(r.recv_bytes())
                except EOFError:
                    out = dead(c, "worker ended without an answer")
            elif time.time() - t > c.budget + 90:
                p.kill()
                out = dead(c, "hard time limit")
            if out is not None:
                p.join(5)
                r.close()
                live.remove(x)
                res.append(out)
                if verbose:
                    show(out)
    return res


def dead(c, why):
    z = dict.fromkeys(("paths", "infeasible", "obligations", "discharged", "trivial", "validated",
                       "skipped_validation", "mismatches", "fallback_samples", "cvc5", "unexplored", "branches",
                       "queries", "solver_s", "sat", "unsat", "unknown", "inputs", "boundary"), 0)
    z.update(name=c.name, bounds=c.bounds, violations=[], inconclusive=[why], unsupported=[why], functions=[],
             samples=[], complete=False, boxes={}, wall=0.0)
    return z


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def run_property(pid, tier, seed, jobs=None, only=None, verbose=False):
    t0 = time.time()
    import direpack  # noqa  (from /repo/src, before the fork)
    from . import harness  # noqa
    mod, cs = get_cases(pid, tier)
    idx = [i for i, c in enumerate(cs) if only is None or only in c.name]
    idx.sort(key=lambda i: -cs[i].budget)
    jobs = jobs or min(8, os.cpu_count() or 8, len(idx))
    args = [(pid, tier, i, seed, tier == "thorough") for i in idx]
    res = []
    if jobs == 1:
        for a in args:
            res.append(_work(a))
            if verbose:
                show(res[-1])
    else:
        res = schedule(args, [cs[a[2]] for a in args], jobs, verbose)
    res.sort(key=lambda r: r["name"])
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    kf = [f for f in known_findings() if f["property"] == pid]
    nviol = 0
    errors = [r for r in res if "error" in r]
    for r in errors:
        print("ERROR in %s: %s" % (r["name"], r["error"]), flush=True)
    res = [r for r in res if "error" not in r]
    printed = set()
    for r in res:
        for k, v in enumerate(r["violations"]):
            f = next((f for f in kf if f["case"] == v["case"] and f["label"] == v["label"]), None)
            if f is not None:
                if f["id"] not in printed:
                    printed.add(f["id"])
                    print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
                continue
            nviol += 1
            path = os.path.join(rdir, "%s-%s-%d.json" % (pid, v["case"].replace("/", "_").replace(" ", "_"), k))
            json.dump(dict(v, property=pid, tier=tier), open(path, "w"), indent=1)
            print("  %s [%s] %s: %s" % (v["case"], v["label"], v["how"], v["detail"][:300]))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    wall = time.time() - t0
    ev = evidence(pid, tier, seed, mod, res, nviol, wall)
    ev["coverage"]["errors"] = len(errors)
    ev["coverage"]["known_findings_seen"] = sorted(printed)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    c = ev["coverage"]
    print("%s %s: %d cases, %d paths, %d obligations (%d discharged, %d by evaluation), %d queries %.1fs solver, "
          "%d validated, %d inconclusive, %d unsupported, %.1fs wall%s" % (
              pid, tier, len(res), c["states"], c["obligations"], c["obligations_discharged"], c["trivial_checks"],
              c["queries"], c["solver_s"], c["traces_validated_against_impl"], len(c["inconclusive"]),
              len(c["unsupported"]), wall, "" if not nviol else "  ** %d violations" % nviol))
    if nviol:
        return 1
    if errors:
        return 3
    return 0


def show(r):
    if "error" in r:
        print(r["error"])
        return
    print("   %-44s paths=%d inf=%d obl=%d/%d triv=%d q=%d unk=%d val=%d/%d mism=%d viol=%d inc=%d uns=%d %s %.1fs" % (
        r["name"], r["paths"], r["infeasible"], r["discharged"], r["obligations"], r["trivial"], r["queries"],
        r["unknown"], r["validated"], r["skipped_validation"], r["mismatches"], len(r["violations"]),
        len(r["inconclusive"]), len(r["unsupported"]), "" if r["complete"] else "INCOMPLETE", r["wall"]), flush=True)
    for x in r["inconclusive"][:4]:
        print("        inconclusive:", x[:300])
    for x in r["unsupported"][:4]:
        print("        unsupported:", x[:300])


def evidence(pid, tier, seed, mod, res, nviol, wall):
    funcs = sorted(set(f for r in res for f in r["functions"]))
    S = lambda k: sum(r[k] for r in res)
    samples = [s for r in res for s in r["samples"][:1]][:8]
    cov = dict(
        states=S("paths"), transitions=S("branches"), traces_validated_against_impl=S("validated"), samples=samples,
        cases=[dict(name=r["name"], bounds=r["bounds"], symbolic_inputs=r["inputs"], paths=r["paths"],
                    infeasible_prefixes=r["infeasible"], obligations=r["obligations"], discharged=r["discharged"],
                    complete=r["complete"] and not r["unsupported"], unexplored_prefixes=r["unexplored"],
                    fallback_samples=r["fallback_samples"], wall_s=r["wall"]) for r in res],
        functions_encoded=funcs, obligations=S("obligations"), obligations_discharged=S("discharged"),
        trivial_checks=S("trivial"), queries=S("queries"), solver_s=round(S("solver_s"), 2), sat=S("sat"),
        unsat=S("unsat"), unknown=S("unknown"), cvc5_confirmed=S("cvc5"),
        exhaustive=bool(res) and all(r["complete"] and not r["unsupported"] and not r["inconclusive"] for r in res),
        inconclusive=[r["name"] + ": " + x for r in res for x in r["inconclusive"]][:40],
        unsupported=[r["name"] + ": " + x for r in res for x in r["unsupported"]][:40],
        fallback_samples=S("fallback_samples"), encoding_mismatches=S("mismatches"), rounding_boundary_witnesses=S("boundary"),
        rule="a state is one feasible path of the real code under symbolic inputs; a transition is one two-way "
             "feasible branch; every path is replayed once on the unpatched code at a model of its path condition",
        unreached=[r["name"] for r in res if r["paths"] == 0])
    return dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
                    "floats are idealised as real numbers; symbolic inputs range over the stated boxes",
                    "library calls (numpy, scipy, statsmodels, dcor, pandas) follow the engine's models, each path is "
                    "validated against the real libraries at one point"],
                wall_s=round(wall, 2), violations=nviol)


def replay(path):
    import direpack  # noqa
    from . import harness
    v = json.load(open(path))
    mod, cs = get_cases(v["property"], v.get("tier", "quick"))
    c = [c for c in cs if c.name == v["case"]][0]
    st, fails, E = harness.run_concrete(c, {k: Fraction(x) for k, x in v["values"].items()})
    print(st)
    for f in fails:
        print(f)
    return 1 if st in ("fail", "exc") else 0
