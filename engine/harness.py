"""The harness interface E.  One harness runs in two modes: symbolic (SymE) and concrete
(ConE, unpatched library code, plain floats) - the latter replays solver models."""
import math
import random
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction
import numpy as np
import pandas as pd
import z3
from .poly import *
from .sym import Sym, NAN, PINF, NINF
from .arr import SymArray, asym, raw, sa, NP, has_sym, allconst
from . import libs
from .libs import SymFrame, SymSeries, Patched
from .explore import *
from .explore import zrel, OPS, normpoly, _denpoly


class Skip(BaseException):
    """concrete run: an assumption of the harness does not hold for these values"""


class Fail(Exception):
    pass


PROVE_TOL = Fraction(1, 10 ** 6)
BIG_TOL = Fraction(1, 100)


def inside(r, lo, hi):
    """a random multiple of 1/16 in the box, or its middle"""
    a, b = math.ceil(lo * 16), math.floor(hi * 16)
    return Fraction(r.randint(a, b), 16) if a <= b else Fraction(lo + hi) / 2


class ConE:
    symbolic = False
    np = np

    def __init__(self, values, tol=2e-7, rng=None):
        self.values = values
        self.tol = tol
        self.rng = rng
        self.fails = []          # (label, detail, margin)
        self.checks = 0
        self.stubs = []
        self.used = {}

    def _val(self, name, lo, hi):
        v = self.values.get(name)
        if v is None:
            if self.rng is not None:
                v = inside(self.rng, lo, hi)
            else:
                v = Fraction(0)
                if not (lo <= 0 <= hi):
                    v = Fraction(lo + hi) / 2
            self.values[name] = v
        self.used[name] = v
        return float(v)

    def scalar(self, name, lo=-8, hi=8):
        v = self._val(name, lo, hi)
        if not (lo - 1e-9 <= v <= hi + 1e-9):
            raise Skip()
        return np.float64(v)

    def array(self, name, shape, lo=-8, hi=8):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape)
        for i in np.ndindex(shape):
            out[i] = self.scalar("%s_%s" % (name, "_".join(map(str, i))), lo, hi)
        return out

    def flag(self, name):
        return self.scalar(name, 0, 1) > 0.5

    def const(self, a):
        return np.array(a, dtype=float)

    def ints(self, a):
        """fixed integer data; the replay on the real code sees an integer array"""
        return np.array(a, dtype=int)

    def frame(self, a, columns=None):
        return pd.DataFrame(np.array(a, dtype=float), columns=columns)

    def series(self, a):
        return pd.Series(np.asarray(a, dtype=float).ravel())

    def float(self, x):
        return float(x)

    def assume(self, a, op, b):
        a, b = np.asarray(a, float), np.asarray(b, float)
        with np.errstate(all="ignore"):
            d = a - b
            ok = {"<": d < 0, "<=": d <= 1e-12, ">": d > 0, ">=": d >= -1e-12, "==": abs(d) <= 1e-9, "!=": abs(d) > 1e-12}[op]
        if not np.all(ok):
            raise Skip()

    def stop(self):
        raise Skip()

    def patch(self, stubs):
        return Patched(False, stubs)

    def _fail(self, label, detail, margin=1.0):
        self.fails.append((label, detail, margin))

    def _arr(self, a):
        return np.array(a, dtype=float)

    def eq(self, label, a, b, scale=1.0):
        self.checks += 1
        try:
            a, b = self._arr(a), self._arr(b)
        except Exception as e:
            return self._fail(label, "not numeric: %s" % e)
        if a.shape != b.shape:
            return self._fail(label, "shapes %s vs %s" % (a.shape, b.shape))
        na, nb = np.isnan(a), np.isnan(b)
        if (na != nb).any():
            return self._fail(label, "nan pattern differs: %s vs %s" % (a.tolist(), b.tolist()))
        ok = ~na
        with np.errstate(all="ignore"):
            d = np.where(a == b, 0, np.abs(a - b))[ok]
            m = np.maximum(np.abs(a), np.abs(b))[ok]
        if d.size:
            rel = d / (1 + np.where(np.isfinite(m), m, 1e300)) / scale
            if np.nanmax(np.where(np.isnan(rel), np.inf, rel)) > self.tol:
                self._fail(label, "%s != %s" % (a.tolist(), b.tolist()), float(np.max(rel)))

    def cmp(self, label, a, op, b):
        self.checks += 1
        a, b = self._arr(a), self._arr(b)
        a, b = np.broadcast_arrays(a, b)
        for x, y in zip(a.ravel(), b.ravel()):
            if math.isnan(x) or math.isnan(y):
                return self._fail(label, "nan in %r %s %r" % (x, op, y))
            t = self.tol * (1 + max(abs(x) if math.isfinite(x) else 0, abs(y) if math.isfinite(y) else 0))
            bad = {"<=": x - y, ">=": y - x, "<": x - y, ">": y - x}[op]
            if bad > t:
                return self._fail(label, "violated: %r %s %r" % (float(x), op, float(y)), bad / (t / self.tol))

    def le(self, label, a, b):
        self.cmp(label, a, "<=", b)

    def ge(self, label, a, b):
        self.cmp(label, a, ">=", b)

    def true(self, label, cond, detail=""):
        self.checks += 1
        if not bool(cond):
            self._fail(label, detail or "condition is false")

    def raises(self, label, exc, f, *a, **k):
        self.checks += 1
        try:
            r = f(*a, **k)
        except exc:
            return
        except Exception as e:
            return self._fail(label, "raised %s: %s" % (type(e).__name__, e))
        self._fail(label, "no exception, returned %s" % (type(r).__name__,))


class SymE:
    symbolic = True
    np = NP

    def __init__(self, run, ex):
        self.run = run
        self.ex = ex
        self.obl = []            # (label, kind, Sym or bool, detail)
        self.checks = 0
        self.trivial = 0
        self.stubs = []

    # ---- inputs
    def scalar(self, name, lo=-8, hi=8):
        v = Sym.var(name, nonneg=(lo >= 0))
        if name not in self.run.box:
            self.run.box[name] = (lo, hi)
            i = CTX.var(name).idx
            mono = 1 << (BITS * i)
            if name not in self.run.witness:
                r = self.ex.rng
                self.run.witness[name] = inside(r, lo, hi)
                self.run.env = None
            self.run.add({mono: ONE, 0: Fraction(-lo).limit_denominator(10**9)} if lo else {mono: ONE}, {0, 1})
            self.run.add({mono: ONE, 0: Fraction(-hi).limit_denominator(10**9)} if hi else {mono: ONE}, {-1, 0})
        return v

    def array(self, name, shape, lo=-8, hi=8):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, object)
        for i in np.ndindex(shape):
            out[i] = self.scalar("%s_%s" % (name, "_".join(map(str, i))), lo, hi)
        return sa(out)

    def flag(self, name):
        return bool(self.scalar(name, 0, 1) > Fraction(1, 2))

    def const(self, a):
        return asym(np.array(a, dtype=float))

    ints = const

    def frame(self, a, columns=None):
        return SymFrame(asym(a).copy(), columns=columns)

    def series(self, a):
        return SymSeries(asym(a).copy().reshape(-1))

    def assume(self, a, op, b):
        A, B = np.broadcast_arrays(raw(a), raw(b))
        for x, y in zip(A.ravel(), B.ravel()):
            if x.sp or y.sp:
                if not x._cmp(y, op):
                    raise Infeasible()
                continue
            self.run.assume(x - y, op)

    def stop(self):
        raise Infeasible()

    def patch(self, stubs):
        return Patched(False, stubs)

    # ---- obligations
    def eq(self, label, a, b, scale=1.0):
        self.checks += 1
        try:
            a, b = asym(a), asym(b)
        except TypeError as e:
            return self.obl.append((label, "bool", False, "not numeric %s" % e))
        if a.shape != b.shape:
            return self.obl.append((label, "bool", False, "shapes %s vs %s" % (a.shape, b.shape)))
        for x, y in zip(raw(a).ravel(), raw(b).ravel()):
            if x.sp or y.sp:
                if x.sp != y.sp:
                    self.obl.append((label, "bool", False, "%r vs %r" % (x, y)))
                continue
            d = x - y
            if d.c is not None:
                if abs(d.c) > PROVE_TOL * Fraction(scale) * (1 + abs(x.c) if x.c is not None else 1):
                    self.obl.append((label, "bool", False, "%r vs %r" % (x, y)))
                elif d.c == 0 and x.c is None and len(x.num) < 400:
                    self.obl.append((label, "eq0", (x, y), scale))
                else:
                    self.trivial += 1
                continue
            self.obl.append((label, "eq", d, scale))

    def cmp(self, label, a, op, b):
        self.checks += 1
        A, B = np.broadcast_arrays(raw(a), raw(b))
        for x, y in zip(A.ravel(), B.ravel()):
            if x.isnan() or y.isnan():
                self.obl.append((label, "bool", False, "nan"))
                continue
            if x.sp or y.sp:
                if not x._cmp(y, op):
                    self.obl.append((label, "bool", False, "%r %s %r" % (x, op, y)))
                continue
            d = (x - y) if op in ("<=", "<") else (y - x)
            if d.c is not None:
                if d.c > PROVE_TOL:
                    self.obl.append((label, "bool", False, "%r %s %r" % (x, op, y)))
                else:
                    self.trivial += 1
                continue
            self.obl.append((label, "le", d, 1.0))

    def le(self, label, a, b):
        self.cmp(label, a, "<=", b)

    def ge(self, label, a, b):
        self.cmp(label, a, ">=", b)

    def true(self, label, cond, detail=""):
        self.checks += 1
        if not bool(cond):
            self.obl.append((label, "bool", False, detail or "condition is false"))
        else:
            self.trivial += 1

    def raises(self, label, exc, f, *a, **k):
        self.checks += 1
        try:
            r = f(*a, **k)
        except exc:
            self.trivial += 1
            return
        except Unsupported:
            raise
        except Exception as e:
            return self.obl.append((label, "bool", False, "raised %s: %s" % (type(e).__name__, e)))
        self.obl.append((label, "bool", False, "no exception"))


class Case:
    def __init__(self, name, fn, bounds="", budget=100.0, max_paths=3000, stubs=None, feas_ms=1500,
                 prove_ms=10000, fallback=12, **params):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.budget = budget
        self.max_paths = max_paths
        self.params = params
        self.feas_ms = feas_ms
        self.prove_ms = prove_ms
        self.fallback = fallback


def run_concrete(case, values, tol=2e-7, rng=None):
    """-> (status, fails, E)  status: ok|fail|skip|exc"""
    E = ConE(dict(values), tol, rng)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                case.fn(E, **case.params)
    except Skip:
        # obligations evaluated before the assumption failed still count
        return "skip", [], E
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = "%s:%d" % (tb[-1].filename.split("/")[-1], tb[-1].lineno) if tb else "?"
        E._fail("exception", "%s: %s at %s" % (type(e).__name__, str(e)[:200], loc))
        return "exc", E.fails, E
    return ("fail" if E.fails else "ok"), E.fails, E


class Result:
    pass


def _trace_functions(store):
    def prof(frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if "/direpack/" in f:
                store.add(f.split("/direpack/", 1)[1][:-3].replace("/", ".") + ":" + frame.f_code.co_qualname)
    return prof


def explore_case(case, seed=1, cross=False):
    """explore all paths of one case; returns a plain dict"""
    t0 = time.time()
    CTX.reset()
    ex = Explorer(case, seed, case.max_paths, case.budget, case.feas_ms, case.prove_ms)
    ex.push([], {})
    out = dict(name=case.name, bounds=case.bounds, paths=0, infeasible=0, obligations=0, discharged=0,
               trivial=0, validated=0, skipped_validation=0, mismatches=0, violations=[], inconclusive=[],
               unsupported=[], fallback_samples=0, functions=[], samples=[], complete=True, boxes={}, cvc5=0, boundary=0)
    funcs = set()
    seen_fail = set()
    first = True

    def alarm(sig, frm):
        raise PathLimit()

    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, case.budget + 20, 5)
    rng = random.Random(seed * 7919 + 13)
    try:
        while ex.work:
            if out["paths"] >= case.max_paths or time.time() > ex.t_end:
                out["complete"] = False
                break
            prefix, wit = ex.work.pop()
            run = Run(ex, prefix, dict(wit))
            CTX.run = run
            E = SymE(run, ex)
            err = None
            try:
                with Patched(True):
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        if first:
                            sys.setprofile(_trace_functions(funcs))
                        try:
                            case.fn(E, **case.params)
                        finally:
                            sys.setprofile(None)
            except Infeasible:
                out["infeasible"] += 1
                continue
            except PathLimit:
                out["complete"] = False
                break
            except Unsupported as e:
                err = ("unsupported", str(e))
            except RecursionError as e:
                err = ("unsupported", "recursion")
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                loc = " ".join("%s:%d" % (t.filename.split("/")[-1], t.lineno) for t in tb[-3:])
                err = ("exception", "%s: %s at %s" % (type(e).__name__, str(e)[:200], loc))
            finally:
                CTX.run = None
            out["paths"] += 1
            first = False
            out["boxes"].update({k: v for k, v in run.box.items()})
            CTX.run = run
            try:
                handle_path(case, ex, run, E, err, out, rng, seen_fail, cross)
            except PathLimit:
                out["complete"] = False
                break
            except Infeasible:
                pass
            finally:
                CTX.run = None
            if out["violations"] and len(out["violations"]) >= 3:
                break
    except PathLimit:
        out["complete"] = False
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        CTX.run = None
    if out["unsupported"] or not out["complete"] or out["inconclusive"]:
        fallback(case, ex, out, rng, seen_fail)
    st = ex.stats
    out["unexplored"] = len(ex.work)
    out.update(branches=ex.branches, queries=st.queries, solver_s=round(st.solver_s, 3), sat=st.sat, unsat=st.unsat,
               unknown=st.unknown, functions=sorted(funcs), wall=round(time.time() - t0, 2),
               inputs=len(out["boxes"]))
    return out


def report(out, seen, case, label, detail, values, how):
    key = label
    if key in seen:
        return
    seen.add(key)
    out["violations"].append(dict(case=case.name, label=label, detail=str(detail)[:600], how=how,
                                  values={k: str(Fraction(v)) for k, v in values.items()}))


def try_replay(case, values, out, seen, label=None, how="", boxes=None):
    """replay a model on the real code; True when a failure is reproduced"""
    st, fails, CE = run_concrete(case, values)
    if st in ("fail", "exc"):
        for lb, dt, mg in fails:
            if label is None or lb == label or lb == "exception":
                report(out, seen, case, lb, dt, CE.used or values, how)
                return True
        lb, dt, mg = fails[0]
        report(out, seen, case, lb, dt, CE.used or values, how)
        return True
    return False


def handle_path(case, ex, run, E, err, out, rng, seen, cross):
    wit = dict(run.witness)
    # ---- validation of the encoding (and of the real code) at a point of this path
    st, fails, CE = run_concrete(case, wit)
    out["trivial"] += E.trivial
    if err is None:
        if st == "skip":
            out["skipped_validation"] += 1
        else:
            out["validated"] += 1
    if len(out["samples"]) < 2:
        out["samples"].append(dict(case=case.name, path=out["paths"], decisions=len(run.trace),
                                   constraints=len(run.cons), obligations=len(E.obl) + E.trivial,
                                   witness={k: str(v) for k, v in list(wit.items())[:12]}))
    if err is not None:
        kind, msg = err
        if st in ("fail", "exc"):
            if robust_fail(case, wit, fails, rng, out):
                report(out, seen, case, fails[0][0], fails[0][1], CE.used or wit, "path witness (%s: %s)" % (kind, msg))
                return
        if len(out["unsupported"]) < 6:
            out["unsupported"].append("%s: %s" % (kind, msg))
        else:
            out["unsupported"][-1] = "%s: %s (and more)" % (kind, msg)
        return
    solver_fail = False
    # ---- decided by evaluation along this path (branching did the case split)
    for label, kind, d, det in [o for o in E.obl if o[1] == "bool"]:
        out["obligations"] += 1
        if label in seen:
            continue
        r, m = run.query([], ex.prove_ms)
        if r == "unsat":
            out["discharged"] += 1
            continue
        if sliver(run, ex):
            out["boundary"] += 1
            continue
        cands = ([run.mix(m)] if m else []) + [wit]
        for c in cands:
            if try_replay(case, c, out, seen, label, "solver model of the failing path: %s" % (det,)):
                solver_fail = True
                break
        else:
            out["inconclusive"].append("%s: counterexample does not reproduce (%s) %s" % (label, det, fmt(cands[0])))
    # ---- equalities whose two sides have the same normal form: solver confirms
    same = [o for o in E.obl if o[1] == "eq0"]
    if same:
        out["obligations"] += len(same)
        zs, zt, idx = [], [], set()
        for _, _, (x, y), _ in same:
            (n1, d1), (n2, d2) = x.parts(), y.parts()
            a, b = ex.z.poly(n1), ex.z.poly(n2)
            for f, k in d2.items():
                a = a * z3.Product([ex.z.poly(CTX.factors[f])] * k)
            for f, k in d1.items():
                b = b * z3.Product([ex.z.poly(CTX.factors[f])] * k)
            if a.eq(b):
                b = ex.z.poly(n2) * 1 if not d1 else b
            zs.append(a != b)
            zt += [a - b > PROVE_TOL, b - a > PROVE_TOL]
            idx.update(pvars(n1))
            idx.update(pvars(n2))
            for f in list(d1) + list(d2):
                idx.update(pvars(CTX.factors[f]))
        r = "unknown"
        if not out.get("_lin"):
            r, m = ex.solver.check([z3.Or(zs) if len(zs) > 1 else zs[0]], 1200, idx=idx)
        if r == "sat":
            # irrational constants are rounded at 1e-120: equality within the box, up to the tolerance
            r, m = ex.solver.check(run.cons + [z3.Or(zt)], 2500, idx=idx)
        if r == "unknown":
            r = linear_same(ex, run, same)
            if r == "unsat":
                out["_lin"] = True
        if r == "unsat":
            out["discharged"] += len(same)
        elif r == "unknown":
            out["trivial"] += len(same)
            out["obligations"] -= len(same)
        else:
            out["inconclusive"].append("%s: solver rejects the normal form" % same[0][0])
    # ---- numeric obligations, batched
    num = [o for o in E.obl if o[1] in ("eq", "le") and o[0] not in seen]
    out["obligations"] += len([o for o in E.obl if o[1] in ("eq", "le")])
    if num:
        r, m, bad = prove(run, ex, num, PROVE_TOL, ex.prove_ms)
        if r == "unsat":
            out["discharged"] += len(num)
            if cross:
                cv = cvc5_check(run, ex, num)
                if cv == "unsat":
                    out["cvc5"] += 1
                elif cv == "sat":
                    out["inconclusive"].append("cvc5 disagrees on the batch of path %d" % out["paths"])
        else:
            # one by one
            for o in num:
                if o[0] in seen:
                    continue
                r, m, bad = prove(run, ex, [o], PROVE_TOL, ex.prove_ms)
                if r == "unsat":
                    out["discharged"] += 1
                    continue
                if r == "unknown":
                    cv = cvc5_check(run, ex, [o], 20)
                    if cv == "unsat":
                        out["discharged"] += 1
                        continue
                if sliver(run, ex):
                    out["boundary"] += 1
                    continue
                rep = False
                r2, m2, _ = prove(run, ex, [o], BIG_TOL, ex.prove_ms)
                for mm in (m2, m):
                    if mm and try_replay(case, run.mix(mm), out, seen, o[0], "solver counterexample"):
                        rep = True
                        break
                if rep:
                    solver_fail = True
                    continue
                if r == "sat":
                    out["inconclusive"].append("%s: counterexample does not reproduce %s" % (o[0], fmt(run.mix(m2 or m))))
                else:
                    out["inconclusive"].append("%s: solver gave up (%s)" % (o[0], r))
    if not solver_fail and st in ("fail", "exc"):
        out["mismatches"] += 1
        if robust_fail(case, wit, fails, rng, out):
            report(out, seen, case, fails[0][0], fails[0][1], CE.used or wit, "path witness on the real code")
        else:
            # the solver proved the path; the point itself sits on a boundary where rounding decides
            out["boundary"] += 1


def sliver(run, ex):
    """the path exists only within a relative 1e-11 of its strict conditions: two expressions that are equal but for the
    rounding of their constants fall on either side of a threshold.  Exact ties (equalities) are not slivers."""
    r = getattr(run, "_sliver", None)
    if r is None:
        cons = []
        for P, S in run.cons:
            if S == {1} or S == {-1}:
                d = max(abs(c) for c in P.values()) * Fraction(1, 10 ** 11)
                P = dict(P)
                P[0] = P.get(0, Fraction(0)) - (d if S == {1} else -d)
            cons.append((P, S))
        r = run._sliver = ex.solver.check(cons, 4000)[0] == "unsat"
    return r


def linear_same(ex, run, same):
    """both sides cross-multiplied and expanded; monomials become free variables within their range (defined
    quantities such as roots within 1e40), so that rounded irrational constants leave a linear query"""
    cons, goal = [], []
    names = {}
    for _, _, (x, y), _ in same:
        (n1, d1), (n2, d2) = x.parts(), y.parts()
        try:
            D = padd(pmul(n1, _denpoly(d2)), pmul(n2, _denpoly(d1)), -1)
        except TooBig:
            return "unknown"
        if len(D) > 3000:
            return "unknown"
        terms = []
        for m, c in D.items():
            if m not in names:
                b = Fraction(1)
                for i, e in mono_exps(m):
                    v = CTX.vars[i]
                    b *= (max(abs(Fraction(q)) for q in run.box[v.name]) if v.kind == "in" else Fraction(10) ** 40) ** e
                names[m] = z3.Real("mono%d" % len(names))
                cons += [names[m] <= z3.Q(b.numerator, b.denominator), names[m] >= -z3.Q(b.numerator, b.denominator)]
            terms.append(z3.Q(c.numerator, c.denominator) * names[m])
        e = z3.Sum(terms) if terms else z3.RealVal(0)
        goal.append(z3.Or(e > PROVE_TOL, e < -PROVE_TOL))
    s = z3.Solver()
    s.set("timeout", 4000)
    s.add(cons)
    s.add(z3.Or(goal) if len(goal) > 1 else goal[0])
    t0 = time.time()
    r = str(s.check())
    ex.stats.queries += 1
    ex.stats.solver_s += time.time() - t0
    setattr(ex.stats, r, getattr(ex.stats, r) + 1)
    return "unsat" if r == "unsat" else "unknown"


def fmt(m):
    return {k: float(v) for k, v in list(m.items())[:16]} if m else m


def robust_fail(case, wit, fails, rng, out, margin=1e-4):
    """a failure seen only in floating point counts if it is large and survives jitter"""
    big = [f for f in fails if f[2] > margin]
    if not big:
        return False
    label = big[0][0]
    n = bad = 0
    for _ in range(8):
        w = {k: Fraction(v) + Fraction(rng.randint(-1000, 1000), 10 ** 8) for k, v in wit.items()}
        st, f2, _E = run_concrete(case, w)
        out["fallback_samples"] += 1
        if st == "skip":
            continue
        n += 1
        if st in ("fail", "exc") and any(x[0] == label and x[2] > margin for x in f2):
            bad += 1
        if n >= 3:
            break
    if n == 0:
        # the inputs cannot be jittered (exact assumptions): repeat exactly
        st, f2, _E = run_concrete(case, wit)
        return st in ("fail", "exc")
    return bad * 2 > n


def fallback(case, ex, out, rng, seen):
    """no symbolic verdict for some path: concrete points only, recorded as such"""
    n = 0
    for t in range(case.fallback * 5):
        if n >= case.fallback:
            break
        st, fails, CE = run_concrete(case, {}, rng=rng)
        if st == "skip":
            continue
        n += 1
        out["fallback_samples"] += 1
        if st in ("fail", "exc") and robust_fail(case, CE.used, fails, rng, out):
            report(out, seen, case, fails[0][0], fails[0][1], CE.used, "concretised fallback")
            break


def viol_exprs(run, ex, num, tol):
    zs = []
    idx = set()
    extra = []
    for label, kind, d, scale in num:
        N, D = d.parts()
        t = tol * Fraction(scale)
        if not D:
            e = ex.z.poly(N)
            idx.update(pvars(N))
            if kind == "eq":
                zs.append(z3.Or(e > t, e < -t))
            else:
                zs.append(e > t)
            continue
        # d = N/D: sign handled by N*D vs t*D^2
        R = {0: ONE}
        sign = 1
        for f, k in D.items():
            F = CTX.factors[f]
            if k % 2 and run.den_sign(F) == 0:
                sign = None
            elif k % 2:
                sign = sign * run.den_sign(F) if sign is not None else None
            R = pmul(R, ppow(F, k))
        n, dd = ex.z.poly(N), ex.z.poly(R)
        idx.update(pvars(N))
        idx.update(pvars(R))
        if sign is None:
            pos = z3.Or(z3.And(dd > 0, n > t * dd), z3.And(dd < 0, n < t * dd))
            neg = z3.Or(z3.And(dd > 0, n < -t * dd), z3.And(dd < 0, n > -t * dd))
        elif sign > 0:
            pos, neg = n > t * dd, n < -t * dd
        else:
            pos, neg = n < t * dd, n > -t * dd
        if kind == "eq":
            zs.append(z3.Or(pos, neg))
        else:
            zs.append(pos)
    return zs, idx


def prove(run, ex, num, tol, ms):
    zs, idx = viol_exprs(run, ex, num, tol)
    e = z3.Or(zs) if len(zs) > 1 else zs[0]
    r, m = ex.solver.check(run.cons + [e], ms, idx=idx)
    return r, m, None


def cvc5_check(run, ex, num, secs=10):
    """cross-check an obligation with cvc5 through SMT-LIB"""
    try:
        import cvc5
    except Exception:
        return "unavailable"
    zs, idx = viol_exprs(run, ex, num, PROVE_TOL)
    s = z3.Solver()
    vs = set(idx)
    for P, S in run.cons:
        s.add(zrel(ex.z.poly(P), S))
        vs.update(pvars(P))
    s.add(z3.Or(zs) if len(zs) > 1 else zs[0])
    for e in ex.solver.defs(vs):
        s.add(e)
    txt = s.to_smt2()
    t0 = time.time()
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(int(secs * 1000)))
        slv.setOption("nl-cov", "true")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic QF_NRA)\n" + txt.replace("(set-logic", ";(set-logic"), "q")
        smg = p.getSymbolManager()
        res = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, smg)
            if o.strip() in ("sat", "unsat", "unknown"):
                res = o.strip()
            elif "error" in o:
                res = "unknown"
                break
    except Exception:
        res = "unknown"
    ex.stats.solver_s += time.time() - t0
    ex.stats.queries += 1
    ex.stats.cvc5 += 1
    return res
