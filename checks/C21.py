"""minimize_ipopt: IPOPT gets the problem as posed, and the caller gets IPOPT's answer."""
import importlib
import sys
import types
import numpy
from checks.common import *
from engine.harness import Case

ASSUMPTIONS = ["cyipopt is a stand-in that evaluates the problem at up to three points in any order and may return any answer; scipy's approx_fprime is the forward difference",
               "objective and constraints are quadratics with free coefficients, up to 3 variables and 3 constraints"]


class FakeProblem:
    """cyipopt.Problem: records what it is given; solve runs the harness's script"""
    made = []
    script = None

    def __init__(self, n, m, problem_obj=None, lb=None, ub=None, cl=None, cu=None, **k):
        self.n, self.m, self.obj, self.lb, self.ub, self.cl, self.cu = n, m, problem_obj, lb, ub, cl, cu
        self.options = {}
        FakeProblem.made.append(self)

    def add_option(self, k, v):
        k = k.decode() if isinstance(k, bytes) else k
        if k == "nonsense":
            raise TypeError("Error while assigning an option")
        self.options[k] = v.decode() if isinstance(v, bytes) else v

    addOption = add_option

    def solve(self, x0, *a, **k):
        return FakeProblem.script(self, x0)


def wrapper():
    """the wrapper module, with the stand-in as cyipopt"""
    w = importlib.import_module("direpack.ipopt_temp.ipopt_wrapper")
    if getattr(sys.modules.get("cyipopt"), "Problem", None) is not FakeProblem:
        fake = types.ModuleType("cyipopt")
        fake.Problem = FakeProblem
        sys.modules["cyipopt"] = fake
        importlib.reload(w)
    return w


W = wrapper()


def fprime(x, f, eps, *args):
    x = x.reshape(-1)
    f0 = f(x, *args)
    out = []
    for i in range(len(x)):
        z = x.copy()
        z[i] = z[i] + eps
        out.append((f(z, *args) - f0) / eps)
    return x * 0 + out


def run(E, script, *a, **k):
    import scipy.optimize
    FakeProblem.made = []
    FakeProblem.script = script
    with E.patch([(scipy.optimize, "approx_fprime", fprime)]):
        return W.minimize_ipopt(*a, **k)


def quad(E, name, n):
    """value and gradient of a quadratic with free coefficients"""
    a = E.array(name + "a", n, -3, 3)
    b = E.array(name + "b", n, -3, 3)
    c = E.scalar(name + "c", -3, 3)

    def f(x):
        return c + vsum([a[i] * x[i] + b[i] * x[i] * x[i] + (x[i] * x[i - 1] if i else 0) for i in range(n)])

    def g(x):
        return [a[i] + 2 * b[i] * x[i] + (x[i - 1] if i else 0) + (x[i + 1] if i + 1 < n else 0) for i in range(n)]
    return f, g


PTS = [[0.5, -1.25, 0.75], [-0.25, 0.5, 1.5], [1.0, 0.0, -0.5]]


def info(E, status=0, val=0.0):
    return {"status": status, "status_msg": b"said so", "obj_val": val, "g": None}


def near(E, lab, got, want):
    """derivatives by finite differences are derivatives up to the step"""
    got, want = list(got), list(want)
    E.true(lab + ": size", len(got) == len(want), "%d, %d" % (len(got), len(want)))
    for a, b in zip(got, want):
        E.le(lab, a - b, 1e-5)
        E.ge(lab, a - b, -1e-5)


def h_pose(E, n, cons, jac, con_jac, args=False, kwargs=False, box=None, scalar=False, order=(0, 1, 0), asdict=False):
    """objective, gradient, constraints and Jacobian at every point the solver asks for, in any order"""
    f, g = quad(E, "f", n)
    extra = (2.0,) if args else ()
    kw = {"shift": 0.5} if kwargs else {}
    plus = lambda a, k: (a[0] if a else 0.0) + k.get("shift", 0.0)
    seen = []

    def fun(x, *a, **k):
        seen.append((a, k))
        v = f(x) + plus(a, k)
        return (v, E.np.array(g(x))) if jac is True else v

    def dfun(x, *a, **k):
        seen.append((a, k))
        return E.np.array(g(x))
    spec = []
    defs = []
    for k, (typ, m, ca) in enumerate(cons):
        qs = [quad(E, "g%d%d" % (k, j), n) for j in range(m)]

        def cf(x, *a, qs=qs, m=m):
            v = [q[0](x) + (a[0] if a else 0.0) for q in qs]
            return E.np.array(v) if m > 1 else v[0]

        def cj(x, *a, qs=qs):
            return E.np.array([q[1](x) for q in qs])
        d = {"type": typ, "fun": cf}
        if con_jac:
            d["jac"] = cj
        if ca:
            d["args"] = (1.5,)
        spec.append((typ, m, qs, 1.5 if ca else 0.0))
        defs.append(d)
    keys0 = [sorted(d) for d in defs]
    x0 = 0.75 if scalar else E.const(PTS[0][:n])
    ans = E.array("ans", n, -5, 5)
    val = E.scalar("val", -5, 5)

    def script(p, z0):
        E.true("the number of variables", p.n == n)
        E.eq("the start", z0, [0.75] if scalar else PTS[0][:n])
        M = sum(s[1] for s in spec)
        E.true("the number of constraints", p.m == M, str(p.m))
        cl, cu = [], []
        for typ, m, _, _ in spec:
            cl += [0.0] * m
            cu += [0.0 if typ == "eq" else 1e19] * m
        E.true("constraint bounds", len(p.cl) == M and len(p.cu) == M)
        for i in range(M):
            E.eq("lower constraint bound", p.cl[i], cl[i])
            if cu[i]:
                E.ge("upper constraint bound", p.cu[i], cu[i])
            else:
                E.eq("upper constraint bound", p.cu[i], cu[i])
        if box:
            E.eq("lower bounds", E.np.array(list(p.lb)), [b[0] for b in box])
            E.eq("upper bounds", E.np.array(list(p.ub)), [b[1] for b in box])
        else:
            E.true("no bounds", p.lb is None and p.ub is None)
        for k in order:
            x = E.const(PTS[k][:n])
            E.eq("objective", p.obj.objective(x.copy()), f(x) + plus(extra, kw))
            near(E, "gradient", p.obj.gradient(x.copy()), g(x))
            if spec:
                E.eq("constraints", p.obj.constraints(x.copy()), [q[0](x) + s for _, _, qs, s in spec for q in qs])
                J = p.obj.jacobian(x.copy())
                want = [q[1](x) for _, _, qs, _ in spec for q in qs]
                E.true("rows of the Jacobian", tuple(J.shape) == (M, n), str(J.shape))
                for i in range(min(M, J.shape[0])):
                    near(E, "Jacobian", [J[i, j] for j in range(J.shape[1])], want[i])
        k = order[-1]
        x = E.const(PTS[(k + 1) % 3][:n])
        near(E, "gradient before objective", p.obj.gradient(x.copy()), g(x))
        E.eq("objective after gradient", p.obj.objective(x.copy()), f(x) + plus(extra, kw))
        return ans.copy(), info(E, 0, val)
    k = {}
    if jac:
        k["jac"] = True if jac is True else dfun
    if box:
        k["bounds"] = box
    if spec:
        k["constraints"] = defs[0] if asdict else tuple(defs)
    if kwargs:
        k["kwargs"] = dict(kw)
    r = run(E, script, fun, x0, args=extra, **k)
    for a, q in seen:
        E.true("the caller's arguments are passed to the objective", a == extra and q == kw, "%s %s" % (a, q))
    E.eq("the answer", r.x, ans[0] if scalar else ans)
    E.eq("its value", r.fun, val)
    E.true("success", r.success == True and r.status == 0)
    E.true("the constraints are the caller's", [sorted(d) for d in defs] == keys0)
    if not scalar:
        E.eq("the start is the caller's", x0, PTS[0][:n])


def simple(E):
    f, g = quad(E, "f", 2)
    return lambda x, *a: f(x)


def h_points(E, n, jac, order):
    """free points, equal or as close as may be: every answer belongs to the point asked about"""
    x = [E.array("x", n, -2, 2), E.array("z", n, -2, 2)]
    a, b = [1.5, -0.75, 0.5][:n], [0.5, 1.25, -1.0][:n]

    def f(t):
        return vsum([a[i] * t[i] + b[i] * t[i] * t[i] for i in range(n)])

    def g(t):
        return [a[i] + 2 * b[i] * t[i] for i in range(n)]

    def fun(t):
        return (f(t), E.np.array(g(t))) if jac is True else f(t)

    def script(p, z0):
        for w, k in order:
            t = x[k]
            if w == "f":
                E.eq("objective", p.obj.objective(t.copy()), f(t))
            elif w == "g":
                near(E, "gradient", p.obj.gradient(t.copy()), g(t))
            elif w == "c":
                E.eq("constraints", p.obj.constraints(t.copy()), [t[0] * t[0] - 1])
            else:
                J = p.obj.jacobian(t.copy())
                near(E, "Jacobian", [J[0, j] for j in range(n)], [2 * t[0]] + [0] * (n - 1))
        return x[0].copy(), info(E)
    con = ({"type": "eq", "fun": lambda t: t[0] * t[0] - 1, "jac": lambda t: E.np.array([[2 * t[0]] + [0] * (n - 1)])},)
    run(E, script, fun, E.const(PTS[0][:n]), constraints=con, jac=True if jac is True else (lambda t: E.np.array(g(t))) if jac else None)


CLOSE = [[0.5, -1.25], [0.5 + 2.0 ** -20, -1.25], [0.5 + 2.0 ** -20, -1.25 - 2.0 ** -30], [0.5, -1.25 + 2.0 ** -20]]


def h_close(E, jac, con_jac):
    """points next to each other are different points"""
    f, g = quad(E, "f", 2)
    q, dq = quad(E, "q", 2)

    def fun(t):
        return (f(t), E.np.array(g(t))) if jac is True else f(t)

    def script(p, z0):
        for x in CLOSE + CLOSE[:1]:
            x = E.const(x)
            E.eq("objective", p.obj.objective(x.copy()), f(x))
            near(E, "gradient", p.obj.gradient(x.copy()), g(x))
            E.eq("constraints", p.obj.constraints(x.copy()), [q(x)])
            J = p.obj.jacobian(x.copy())
            near(E, "Jacobian", [J[0, j] for j in range(2)], dq(x))
        return E.const([0.0, 0.0]), info(E)
    con = {"type": "eq", "fun": q}
    if con_jac:
        con["jac"] = lambda t: E.np.array([dq(t)])
    run(E, script, fun, E.const(PTS[0][:2]), constraints=(con,), jac=True if jac is True else (lambda t: E.np.array(g(t))) if jac else None)


def h_status(E, status):
    """the result says what IPOPT said"""
    ans = E.array("ans", 2, -5, 5)
    val = E.scalar("val", -5, 5)
    r = run(E, lambda p, z: (ans.copy(), info(E, status, val)), simple(E), E.const([0.5, 0.25]))
    E.true("status", r.status == status and bool(r.success) == (status == 0))
    E.true("message", r.message in (b"said so", "said so"))
    E.eq("x", r.x, ans)
    E.eq("fun", r.fun, val)
    E.true("info", r.info["status"] == status)


def h_options(E, opts, tol, want, gone=()):
    """options reach IPOPT under its own names; the caller's dictionary is not changed"""
    mine = dict(opts) if opts is not None else None
    r = run(E, lambda p, z: (E.const([0.0, 0.0]), info(E)), simple(E), E.const([0.5, 0.25]), options=mine, tol=tol)
    got = FakeProblem.made[-1].options
    for k, v in want.items():
        E.true("option " + k, k in got and got[k] == v, str(got))
    for k in gone:
        E.true("no option " + k, k not in got, str(got))
    E.true("the caller's options are not changed", mine == opts, str(mine))


def h_again(E, opts):
    """a second call with the same options dictionary and another tolerance uses that tolerance"""
    mine = dict(opts)
    t1, t2 = E.scalar("t1", 1e-6, 1), E.scalar("t2", 1e-6, 1)
    for t in (t1, t2):
        run(E, lambda p, z: (E.const([0.0, 0.0]), info(E)), simple(E), E.const([0.5, 0.25]), options=mine, tol=t)
        E.eq("tolerance of this call", FakeProblem.made[-1].options["tol"], t)
    E.true("the caller's options are not changed", mine == opts, str(mine))


def h_refuse(E, what):
    nop = lambda p, z: (E.const([0.0, 0.0]), info(E))
    x0 = E.const([0.5, 0.25])
    f = simple(E)
    if what == "type":
        E.raises("unknown constraint type", ValueError, lambda: run(E, nop, f, x0, constraints=({"type": "le", "fun": lambda x: x[0]},)))
    if what == "hess":
        E.raises("Hessians are refused", NotImplementedError, lambda: run(E, nop, f, x0, hess=lambda x: None))
    if what == "option":
        E.raises("unknown options are refused", TypeError, lambda: run(E, nop, f, x0, options={"nonsense": 3}))
    if what == "jac":
        E.raises("jac is a function or a flag", NotImplementedError, lambda: run(E, nop, f, x0, jac="2-point"))


def h_central(E, n, m, args=False):
    """the approximate Jacobians are derivatives, one row per function value and one column per variable"""
    mod = importlib.import_module("direpack.ipopt_temp.jacobian")
    qs = [quad(E, "q%d" % j, n) for j in range(m)]
    calls = []

    def f(x, *a):
        calls.append(1)
        v = [q[0](x) + (a[0] if a else 0.0) for q in qs]
        return E.np.array(v) if m > 1 else v[0]
    x = E.const(PTS[1][:n])
    ex = (1.5,) if args else ()
    with E.patch([]):
        for c in (mod.FunctionWithApproxJacobian, mod.FunctionWithApproxJacobianCentral):
            F = c(f, epsilon=1e-6, verbose=False)
            for rep in range(2):
                E.eq("value", F(x.copy(), *ex), [q[0](x) + (1.5 if args else 0.0) for q in qs] if m > 1 else qs[0][0](x) + (1.5 if args else 0.0))
                J = F.jac(x.copy(), *ex)
                E.true("shape", tuple(J.shape) == (m, n), str(J.shape))
                for i in range(m):
                    for j in range(n):
                        E.le("derivative %d of value %d" % (j, i), J[i, j] - qs[i][1](x)[j], 1e-4)
                        E.ge("derivative %d of value %d" % (j, i), J[i, j] - qs[i][1](x)[j], -1e-4)


def h_estimator(E, who):
    """sudire and ppdire use IPOPT's answer and leave their settings alone"""
    X = E.const(rng_matrix(6, 2, 31))
    y = E.const([v[0] for v in rng_matrix(6, 1, 32)])
    ans = E.array("ans", 2, 0.25, 3)
    opts = {"max_iter": 7, "tol": 0.001}
    if who == "sudire":
        from direpack.sudire.sudire import sudire
        m = sudire("dcov-sdr", n_components=1, optimizer_options=dict(opts), center_data=False, scale_data=False, verbose=False)
    else:
        from direpack.ppdire.ppdire import ppdire
        from direpack.dicomo.dicomo import dicomo
        m = ppdire(projection_index=dicomo, pi_arguments={"mode": "var"}, n_components=1, optimizer="IPOPT", optimizer_options=dict(opts), center_data=False, scale_data=False, verbose=False)

    def script(p, z):
        for k, v in opts.items():
            E.true("option " + k, p.options.get(k) == v, str(p.options))
        return ans.copy(), info(E)
    FakeProblem.made = []
    FakeProblem.script = script
    with E.patch([]):
        m.fit(X, y) if who == "sudire" else m.fit(X)
    E.true("the settings are left alone", m.get_params()["optimizer_options"] == opts, str(m.get_params()["optimizer_options"]))
    E.true("IPOPT was called", len(FakeProblem.made) >= 1)


def cases(tier):
    T = tier == "thorough"
    out = []
    K = dict(eq=("eq", 1, False), eqm=("eq", 2, False), eqa=("eq", 1, True), ineq=("ineq", 1, False), ineqm=("ineq", 2, True))
    B = [(-1.0, 1.0), (-2.0, 0.5), (0.0, 3.0)]
    sets = [(), ("eq",), ("ineq",), ("eqm",), ("ineqm",), ("eq", "ineq"), ("ineqm", "eqa"), ("eqm", "ineq")]
    for n in (1, 2, 3):
        for s in sets:
            for jac in (None, "fun", True):
                for cj in ((False, True) if s else (False,)):
                    if n != 2 and (jac == "fun") != cj and not T:
                        continue
                    out.append(Case("pose-%d-%s-%s-%s" % (n, "".join(s) or "free", jac, cj), h_pose, "%d variables, any quadratic objective and constraints, any answer" % n,
                                    n=n, cons=[K[k] for k in s], jac=jac, con_jac=cj, box=B[:n] if n == 2 or s else None, asdict=len(s) == 1 and n == 2))
    for jac in (None, "fun", True):
        out.append(Case("args-%s" % jac, h_pose, "2 variables, extra arguments", n=2, cons=[K["eqa"], K["ineq"]], jac=jac, con_jac=False, args=True))
        out.append(Case("kwargs-%s" % jac, h_pose, "2 variables, extra keyword arguments", n=2, cons=[K["ineq"]], jac=jac, con_jac=False, args=True, kwargs=True))
        for k, o in enumerate([(0, 0, 1), (1, 2, 1, 2), (2, 1, 0, 2)]):
            out.append(Case("order-%s-%d" % (jac, k), h_pose, "2 variables, points visited in the order %s" % (o,), n=2, cons=[K["eqm"]], jac=jac, con_jac=False, order=o))
    for n in (1, 2):
        for jac in (None, "fun", True):
            for o in (("f0", "g0", "f1", "g1", "c1", "J1"), ("f0", "c0", "f1", "c1", "g1", "J1", "f0"), ("g0", "J0", "g1", "J1", "f1", "c1", "g0")):
                out.append(Case("points-%d-%s-%s" % (n, jac, "".join(o)), h_points, "two free points in [-2,2]^%d" % n, n=n, jac=jac, order=[(t[0], int(t[1])) for t in o]))
    for jac in (None, "fun", True):
        for cj in (False, True):
            out.append(Case("close-%s-%s" % (jac, cj), h_close, "any quadratics, points closer than 1e-5", jac=jac, con_jac=cj))
    out.append(Case("scalar", h_pose, "a scalar start", n=1, cons=[], jac="fun", con_jac=False, scalar=True, order=(1, 2)))
    for s in (0, 1, 2, -1, -2):
        out.append(Case("status-%d" % s, h_status, "any answer", status=s))
    ad, lm = "adaptive", "limited-memory"
    for k, (o, t, w, gone) in enumerate([
            (None, None, dict(print_level=0, tol=1e-8, mu_strategy=ad, hessian_approximation=lm), ()),
            ({}, 0.25, dict(print_level=0, tol=0.25), ()),
            ({"maxiter": 17}, None, dict(max_iter=17), ("maxiter",)),
            ({"max_iter": 18}, None, dict(max_iter=18), ()),
            ({"disp": 5}, None, dict(print_level=5), ("disp",)),
            ({"disp": 3, "maxiter": 4, "tol": 0.5}, 0.25, dict(print_level=3, max_iter=4, tol=0.5), ("disp", "maxiter")),
            ({b"maxiter": 9}, None, dict(max_iter=9), ("maxiter",)),
            ({"mu_strategy": "monotone", "print_level": 2}, None, dict(mu_strategy="monotone", print_level=2), ()),
            ({"hessian_approximation": "exact", "linear_solver": "mumps"}, None, dict(hessian_approximation="exact", linear_solver="mumps"), ())]):
        out.append(Case("options-%d" % k, h_options, "options %s, tol %s" % (o, t), opts=o, tol=t, want=w, gone=gone))
    for k, o in enumerate([{}, {"max_iter": 5}, {"maxiter": 6, "disp": 1}]):
        out.append(Case("again-%d" % k, h_again, "any two tolerances", opts=o))
    for w in ("type", "hess", "option", "jac"):
        out.append(Case("refuse-" + w, h_refuse, "", what=w))
    for n, m in ((1, 1), (2, 1), (2, 2), (3, 2)):
        for a in (False, True):
            out.append(Case("jacobian-%d-%d-%s" % (n, m, a), h_central, "any %d quadratics of %d variables" % (m, n), n=n, m=m, args=a))
    for who in ("sudire", "ppdire"):
        out.append(Case("estimator-" + who, h_estimator, "6x2 fixed data, any answer of IPOPT", who=who))
    return out
