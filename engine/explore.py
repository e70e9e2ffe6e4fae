"""Path exploration: depth first over solver-feasible branch decisions, with re-execution
of the real code per path, and discharge of the property assertions by SMT queries."""
import time
import math
import random
from fractions import Fraction
import z3
from .poly import *
from .sym import Sym, NAN, PINF, NINF, tofrac

OPS = {"<": {-1}, "<=": {-1, 0}, ">": {1}, ">=": {0, 1}, "==": {0}, "!=": {-1, 1}}
NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
ALL = frozenset((-1, 0, 1))


class PathLimit(BaseException):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.sat = 0
        self.unsat = 0
        self.cvc5 = 0
        self.maxq = 0.0


def num_eval(P, env):
    """float value and magnitude of a polynomial"""
    s = 0.0
    a = 0.0
    for m, c in P.items():
        t = float(c)
        for i, e in mono_exps(m):
            t *= env[i] ** e
        s += t
        a += abs(t)
    return s, a


class Env:
    """float values of all variables from the input values"""

    def __init__(self, inputs):
        self.inputs = inputs      # name -> number
        self.memo = {}

    def __getitem__(self, i):
        v = self.memo.get(i)
        if v is None:
            var = CTX.vars[i]
            if var.kind == "in":
                v = self.inputs.get(var.name)
                if v is None:
                    raise KeyError(var.name)
                v = float(v)
            elif var.kind == "root":
                s, a = num_eval(var.P, self)
                v = max(s, 0.0) ** (1.0 / var.q)
            else:
                x = self.sym(var.arg)
                try:
                    v = {"tanh": math.tanh, "exp": math.exp, "log": math.log}[var.fn](x)
                except (ValueError, OverflowError):
                    v = float("nan")
            self.memo[i] = v
        return v

    def sym(self, x):
        if x.sp:
            return float(x.sp)
        if x.c is not None:
            return float(x.c)
        s, a = num_eval(x.num, self)
        for f, e in x.den.items():
            t, _ = num_eval(CTX.factors[f], self)
            if t == 0:
                return float("nan")
            s /= t ** e
        return s


class Z:
    """z3 translation, one per case"""

    def __init__(self):
        self.v = {}
        self.pc = {}

    def var(self, i):
        r = self.v.get(i)
        if r is None:
            r = z3.Real("v%d" % i)
            self.v[i] = r
        return r

    def poly(self, P):
        k = pkey(P)
        r = self.pc.get(k)
        if r is not None:
            return r
        terms = []
        for m, c in P.items():
            fac = []
            for i, e in mono_exps(m):
                fac += [self.var(i)] * e
            if not fac:
                terms.append(z3.RealVal(c))
            elif c == 1:
                terms.append(z3.Product(fac) if len(fac) > 1 else fac[0])
            else:
                terms.append(z3.Product([z3.RealVal(c)] + fac))
        r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        self.pc[k] = r
        return r


def zrel(e, S):
    S = frozenset(S)
    if S == {1}:
        return e > 0
    if S == {-1}:
        return e < 0
    if S == {0}:
        return e == 0
    if S == {0, 1}:
        return e >= 0
    if S == {-1, 0}:
        return e <= 0
    if S == {-1, 1}:
        return e != 0
    if not S:
        return z3.BoolVal(False)
    return z3.BoolVal(True)


def closure(idx):
    """transitive definitions of variables"""
    seen = set()
    todo = list(idx)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        v = CTX.vars[i]
        if v.kind == "root":
            todo += pvars(v.P)
        elif v.kind == "fn":
            n, d = v.arg.parts()
            todo += pvars(n)
            for f in d:
                todo += pvars(CTX.factors[f])
    return seen


def normpoly(P):
    """scale to leading coefficient 1: returns (poly, sign)"""
    m, c = lead(P)
    if c == 1:
        return P, 1
    return pscale(P, 1 / c), (1 if c > 0 else -1)


class Solver:
    def __init__(self, stats, z):
        self.stats = stats
        self.z = z

    def defs(self, idx):
        out = []
        fns = []
        for i in closure(idx):
            v = CTX.vars[i]
            x = self.z.var(i)
            if v.kind == "root":
                out.append(x >= 0)
                out.append(z3.Product([x] * v.q) == self.z.poly(v.P))
            elif v.kind == "fn":
                fns.append(v)
            elif v.nonneg:
                out.append(x >= 0)
        # axioms of opaque functions
        for v in fns:
            n, d = v.arg.parts()
            N = self.z.poly(n)
            x = self.z.var(v.idx)
            D = None
            if d:
                D = self.z.poly(_denpoly(d))
            a = N if D is None else z3.Real("arg%d" % v.idx)
            if D is not None:
                out.append(a * D == N)
                out.append(D != 0)
            if v.fn == "tanh":
                out += [x < 1, x > -1, z3.Implies(a > 0, z3.And(x > 0, x < a)),
                        z3.Implies(a < 0, z3.And(x < 0, x > a)), z3.Implies(a == 0, x == 0)]
            elif v.fn == "exp":
                out += [x > 0, x >= 1 + a, z3.Implies(a < 0, x < 1)]
            elif v.fn == "log":
                out += [x <= a - 1]
            for w in fns:
                if w.idx < v.idx and w.fn == v.fn:
                    n2, d2 = w.arg.parts()
                    if not d and not d2:
                        b = self.z.poly(n2)
                        y = self.z.var(w.idx)
                        out += [z3.Implies(a < b, x < y), z3.Implies(a > b, x > y), z3.Implies(a == b, x == y)]
        return out

    def check(self, cons, timeout_ms, want_model=False, idx=()):
        """cons: list of (poly, signset) or z3 expr with var idx.  -> ('sat',model)|('unsat',None)|('unknown',None)"""
        exprs = []
        vs = set(idx)
        deg = 1
        for c in cons:
            if isinstance(c, tuple):
                P, S = c
                exprs.append(zrel(self.z.poly(P), S))
                vs.update(pvars(P))
                deg = max(deg, pdegree(P))
            else:
                exprs.append(c)
                deg = 2
        exprs += self.defs(vs)
        linear = deg <= 1 and all(CTX.vars[i].kind == "in" for i in vs)
        t0 = time.time()
        res = "unknown"
        model = None
        tacs = ["default"] if linear else ["nlsat", "default"]
        for k, tac in enumerate(tacs):
            if tac == "default":
                s = z3.Solver()
                s.set("timeout", int(timeout_ms))
            else:
                s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "simplify", "qfnra-nlsat").solver() \
                    if False else z3.SolverFor("QF_NRA")
                s.set("timeout", int(timeout_ms))
            for e in exprs:
                s.add(e)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.sat:
                res = "sat"
                model = self.model(s.model(), vs)
                break
            if r == z3.unsat:
                res = "unsat"
                break
        dt = time.time() - t0
        st = self.stats
        st.queries += 1
        st.solver_s += dt
        st.maxq = max(st.maxq, dt)
        setattr(st, res, getattr(st, res) + 1)
        return res, model

    def model(self, m, vs):
        out = {}
        for i in closure(vs):
            v = CTX.vars[i]
            if v.kind != "in":
                continue
            val = m.eval(self.z.var(i), model_completion=True)
            out[v.name] = z3num(val)
        return out


def z3num(val):
    if z3.is_rational_value(val):
        return Fraction(val.numerator_as_long(), val.denominator_as_long())
    if z3.is_algebraic_value(val):
        a = val.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def _denpoly(d):
    R = {0: ONE}
    for f, e in d.items():
        R = pmul(R, ppow(CTX.factors[f], e))
    return R


class Obligation(Exception):
    pass


class Run:
    """one execution of the harness along one path"""

    def __init__(self, ex, prefix, witness):
        self.ex = ex
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.cons = []            # (poly, signset) accumulated
        self.facts = {}           # key -> (poly, signset)
        self.witness = witness
        self.env = None
        self.box = {}             # var name -> (lo, hi)
        self.fresh_decisions = 0

    def values(self):
        if self.env is None:
            self.env = Env(self.witness)
        return self.env

    # -- facts
    def known(self, P):
        f = self.facts.get(pkey(P))
        S = f if f is not None else ALL
        if f is None:
            s = psyntactic_sign(P)
            if s is not None:
                S = frozenset(s)
        return S

    def add(self, P, S):
        k = pkey(P)
        old = self.known(P)
        new = frozenset(S) & old
        self.facts[k] = new
        self.cons.append((P, new))
        if not new:
            raise Infeasible()

    def signed(self, d):
        """polynomial with the same sign as d"""
        N, D = d.parts()
        for f, e in D.items():
            if e % 2:
                F = CTX.factors[f]
                s = self.den_sign(F)
                if s == 1:
                    continue
                if s == -1:
                    N = {m: -c for m, c in N.items()}
                else:
                    N = pmul(N, F)
        return N

    def den_sign(self, F):
        P, sg = normpoly(F)
        S = self.known(P) - {0}
        if len(S) == 1:
            return next(iter(S)) * sg
        # try to learn it once
        k = ("ds", pkey(P))
        if k in self.facts:
            return self.facts[k]
        r = 0
        ent = self._replay("D")
        if ent is not None:
            r = ent
        else:
            a, _ = self.query([(P, {-1})], self.ex.feas_ms)
            if a == "unsat":
                r = 1
            else:
                b, _ = self.query([(P, {1})], self.ex.feas_ms)
                if b == "unsat":
                    r = -1
            self.trace.append(("D", r))
            self.pos += 1
        if r:
            self.facts[pkey(P)] = frozenset(S & {r}) if S & {r} else S
            self.cons.append((P, frozenset({r})))
            r = r * sg
        self.facts[k] = r
        return r

    def _replay(self, kind):
        if self.pos < len(self.prefix):
            k, v = self.prefix[self.pos]
            if k != kind:
                raise RuntimeError("non-deterministic re-execution (%s/%s)" % (k, kind))
            self.pos += 1
            self.trace.append((k, v))
            return v
        return None

    def query(self, extra, ms):
        r = self.ex.solver.check(self.cons + extra, ms)
        if r[0] == "unknown":  # an undecided branch is explored anyway: do not wait as long for the next one
            self.ex.feas_ms = max(200, int(0.75 * self.ex.feas_ms))
        return r

    def decide(self, d, op):
        P = self.signed(d)
        if not P:
            return 0 in OPS[op]
        P, sg = normpoly(P)
        T = OPS[op] if sg > 0 else {-s for s in OPS[op]}
        S = self.known(P)
        if len(P) == 1 and 0 in P:
            return 1 in T
        if S <= T:
            return True
        if not (S & T):
            return False
        ent = self._replay("B")
        if ent is not None:
            self.add(P, (S & T) if ent else (S - T))
            return ent
        # fresh decision
        self.ex.tick()
        w = None
        try:
            v, a = num_eval(P, self.values())
            if not math.isnan(v):
                if abs(v) > 1e-7 * a + 1e-12:
                    s = 1 if v > 0 else -1
                    if s in S:
                        w = s in T
        except (KeyError, OverflowError, ZeroDivisionError):
            pass
        if w is None:
            r1, m1 = self.query([(P, S & T)], self.ex.feas_ms)
            r0, m0 = self.query([(P, S - T)], self.ex.feas_ms)
            if r1 == "unsat" and r0 == "unsat":
                raise Infeasible()
            if r1 == "unsat":
                val = False
                mm = m0
            elif r0 == "unsat":
                val = True
                mm = m1
            else:
                val = r1 == "sat" or r0 != "sat"
                alt, mm = (m0, m1) if val else (m1, m0)
                self.ex.push(self.trace + [("B", not val)], self.mix(alt))
                self.ex.branches += 1
            if mm is not None:
                self.witness = self.mix(mm)
                self.env = None
        else:
            val = w
            other = (S - T) if w else (S & T)
            r, m = self.query([(P, other)], self.ex.feas_ms)
            if r != "unsat":
                self.ex.push(self.trace + [("B", not val)], self.mix(m))
                self.ex.branches += 1
        self.trace.append(("B", val))
        self.pos += 1
        self.add(P, (S & T) if val else (S - T))
        return val

    def mix(self, m):
        w = dict(self.witness)
        if m:
            w.update(m)
        return w

    def assume(self, d, op):
        """add d op 0 to the path without forking"""
        if d.isconst():
            if not d._cmp(Sym(c=Fraction(0)), op):
                raise Infeasible()
            return
        P = self.signed(d)
        if not P:
            if 0 in OPS[op]:
                return
            raise Infeasible()
        P, sg = normpoly(P)
        if len(P) == 1 and 0 in P:
            if sg in OPS[op]:
                return
            raise Infeasible()
        T = OPS[op] if sg > 0 else {-s for s in OPS[op]}
        S = self.known(P)
        if S <= T:
            return
        ent = self._replay("A")
        if ent is not None:
            if ent == "unsat":
                raise Infeasible()
            self.add(P, S & T)
            return
        ok = False
        try:
            v, a = num_eval(P, self.values())
            if abs(v) > 1e-9 * a and (1 if v > 0 else -1) in (S & T):
                ok = True
        except (KeyError, OverflowError, ZeroDivisionError):
            pass
        r = "ok"
        if not ok:
            r, m = self.query([(P, S & T)], self.ex.feas_ms)
            if m is not None:
                self.witness = self.mix(m)
                self.env = None
        self.trace.append(("A", r))
        self.pos += 1
        if r == "unsat":
            raise Infeasible()
        self.add(P, S & T)


class Explorer:
    def __init__(self, case, seed=1, max_paths=2000, budget_s=120.0, feas_ms=1500, prove_ms=8000):
        self.case = case
        self.stats = Stats()
        self.z = Z()
        self.solver = Solver(self.stats, self.z)
        self.work = []
        self.branches = 0
        self.max_paths = max_paths
        self.t_end = time.time() + budget_s
        self.feas_ms = feas_ms
        self.prove_ms = prove_ms
        self.rng = random.Random(seed)

    def push(self, prefix, witness):
        self.work.append((prefix, witness))

    def tick(self):
        if time.time() > self.t_end:
            raise PathLimit()
