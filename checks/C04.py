"""multivariate location: spatial (L1) median and k-step LTS; tau scale."""
import types
import scipy.optimize as spo
import scipy.stats as sps
from checks.common import *
from engine.harness import Case

ASSUMPTIONS = ["the numerical optimiser is replaced by a stand-in that may return any point: what the optimiser is "
               "given (objective, gradient, start, data) and what is done with its answer is decided, not whether "
               "SLSQP converges"]


def norm(E, v):
    return sqrt(E, vsum([x * x for x in v]))


def stub_min(E, rec, answer):
    def minimize(fun, x0, args=(), method=None, jac=None, tol=None, options=None, **k):
        if not isinstance(args, tuple):
            args = (args,)
        rec.append(types.SimpleNamespace(fun=fun, x0=x0, args=args, jac=jac, method=method, tol=tol, options=options))
        return types.SimpleNamespace(x=answer, fun=0.0, success=True)
    return minimize


def h_l1(E, n, p, cells=None, nan=()):
    """objective = sum of distances to the cases, jacobian = its gradient, start = column medians, answer returned"""
    from direpack.preprocessing import _preproc_utilities as u
    X = E.array("x", (n, p)) if cells is None else mix(E, "x", n, p, 11, cells)
    for i, j in nan:
        X[i, j] = float("nan")
    a, r = E.array("a", p), E.array("r", p)
    rec = []
    X0 = X.copy()
    with E.patch([(spo, "minimize", stub_min(E, rec, r))]):
        got = u.l1median(X, trimming=0)
    E.eq("the optimiser's answer is the estimate", got, r)
    E.true("one optimisation", len(rec) == 1)
    c = rec[0]
    ok = lambda v: [x for x in v if not bool(E.np.isnan(x))]
    E.eq("start", c.x0, colw(X0, lambda v: vmed(ok(v))))
    rows = [[X0[i, j] - a[j] if (i, j) not in nan else 0.0 for j in range(p)] for i in range(n)]
    d = [norm(E, v) for v in rows]
    E.eq("objective", c.fun(a, *c.args), vsum(d))
    if c.jac is not None:
        E.true("jacobian callable", callable(c.jac))
        d1 = unit(d)
        g = c.jac(a, *c.args)
        E.eq("gradient", g, [-vsum([rows[i][j] / d1[i] for i in range(n)]) for j in range(p)])
    E.eq("input untouched", X, X0)


def h_l1uni(E, n):
    from direpack.preprocessing import _preproc_utilities as u
    X = E.array("x", (n, 1))
    E.eq("one column: the median", u.l1median(X), colw(X, vmed))


def h_l1opt(E):
    """optimiser settings and starting value are the caller's"""
    from direpack.preprocessing import _preproc_utilities as u
    X = E.array("x", (3, 2))
    r, s = E.array("r", 2), E.array("s", 2)
    rec = []
    with E.patch([(spo, "minimize", stub_min(E, rec, r))]):
        u.l1median(X, method="BFGS", tol=0.125, options={"maxiter": 7})
        got = u.l1median(X, x0=s)
    E.true("settings", (rec[0].method, rec[0].tol, rec[0].options) == ("BFGS", 0.125, {"maxiter": 7}), str(rec[0]))
    E.eq("starting value", rec[1].x0, s)
    E.eq("answer", got, r)


def h_lts(E, n, p, maxit, cells=None, nan=(), start=None):
    """k-step LTS from any starting point: repeatedly the mean of the half of the cases nearest to the last estimate"""
    from direpack.preprocessing import _preproc_utilities as u
    X = E.array("x", (n, p)) if cells is None else mix(E, "x", n, p, 13, cells)
    for i, j in nan:
        X[i, j] = float("nan")
    r = E.array("r", p) if start is None else E.const(start)
    X0 = X.copy()
    rec = []
    with E.patch([(spo, "minimize", stub_min(E, rec, r))]):
        got = u.kstepLTS(X, maxit=maxit, trimming=0)
    m = list(r) if p > 1 else colw(X0, vmed)
    h = (n + 1) // 2
    for it in range(maxit):
        d = [vsum([(X0[i, j] - m[j]) * (X0[i, j] - m[j]) for j in range(p) if (i, j) not in nan]) for i in range(n)]
        cut = sorted(d)[h - 1]
        sub = [i for i in range(n) if d[i] <= cut]
        m2 = [vmean([X0[i, j] for i in sub if (i, j) not in nan]) for j in range(p)]
        big = abs(m[0] - m2[0])
        for j in range(1, p):
            t = abs(m[j] - m2[j])
            big = t if t > big else big
        m = m2
        if not (big > 1e-10):
            break
    E.eq("k-step LTS", got, m)
    E.eq("input untouched", X, X0)


def es2(c2):
    b = c2 * sps.norm.ppf(0.75)
    return 2 * ((1 - b ** 2) * sps.norm.cdf(b) - b * sps.norm.pdf(b) + b ** 2) - 1


def tau(E, v, c1, c2, cons):
    n = len(v)
    med = vmed(v)
    s0 = vmed([abs(x - med) for x in v])
    if c1 > 0:
        w = []
        for x in v:
            t = 1 - ((x - med) / (s0 * c1)) * ((x - med) / (s0 * c1))
            w.append(t * t if t > 0 else 0.0 * t)
        mu = vsum([a * b for a, b in zip(w, v)]) / vsum(w)
    else:
        mu = med
    rho = []
    for x in v:
        t = (x - mu) / s0
        t = t * t
        rho.append(t if t <= c2 ** 2 else c2 ** 2 + 0 * t)
    den = {False: n, True: n * es2(c2), "finiteSample": (n - 2) * es2(c2)}[cons]
    return s0 * sqrt(E, vsum(rho) / den)


def h_tau(E, n, p, c1=4.5, c2=3, cons=True, cells=None):
    from direpack.preprocessing import _preproc_utilities as u
    if cells is None:
        a, b = E.scalar("a", -4, 4), E.scalar("b", -8, 8)
        E.assume(a, "!=", 0)
        X = E.np.array([[a * x + b for x in row] for row in rng_matrix(n, p, 41 + n)])
    else:
        X = mix(E, "x", n, p, 19, cells)
    X0 = X.copy()
    med = colw(X0, vmed)
    for j in range(p):
        v = [abs(X0[i, j] - med[j]) for i in range(n)]
        E.assume(vmed(v), ">", 0.0625)
    got = u.scaleTau2(X, c1=c1, c2=c2, consistency=cons)
    E.eq("tau scale of every column", got, [tau(E, [X0[i, j] for i in range(n)], c1, c2, cons) for j in range(p)])
    E.eq("input untouched", X, X0)


def cases(tier):
    T = tier == "thorough"
    out = []
    out.append(Case("l1-3x2", h_l1, "3x2 symbolic, any point", n=3, p=2))
    out.append(Case("l1-2x3", h_l1, "2x3 symbolic, any point", n=2, p=3))
    out.append(Case("l1-8x4", h_l1, "fixed 8x4, 2 symbolic cells", n=8, p=4, cells=[(7, 3)]))
    out.append(Case("l1-nan-3x2", h_l1, "3x2, one missing cell", n=3, p=2, nan=[(1, 0)]))
    out.append(Case("l1-nan-4x3", h_l1, "fixed 4x3, two missing cells", n=4, p=3, cells=[(0, 0)], nan=[(1, 0), (2, 2)]))
    out.append(Case("l1-30x3", h_l1, "fixed 30x3, 1 symbolic cell", n=30, p=3, cells=[(7, 1)]))
    out.append(Case("l1-6x8", h_l1, "fixed 6x8, 1 symbolic cell", n=6, p=8, cells=[(2, 6)]))
    out.append(Case("lts-large", h_lts, "fixed 40x3, one symbolic cell, fixed start", n=40, p=3, maxit=10, cells=[(3, 1)], start=[0.1] * 3, budget=60))
    out.append(Case("lts-wide", h_lts, "fixed 9x7, one symbolic cell, fixed start", n=9, p=7, maxit=10, cells=[(3, 1)], start=[0.1] * 7, budget=60))
    out.append(Case("tau-60x1", h_tau, "fixed 60x1 in any units", n=60, p=1, budget=60))
    out.append(Case("l1-options", h_l1opt, "settings"))
    for n in (2, 3, 4):
        out.append(Case("l1-uni-%d" % n, h_l1uni, "n=%d" % n, n=n))
    for n, p, k in [(3, 1, 1), (3, 1, 3), (4, 1, 1)]:
        out.append(Case("lts-%dx%d-%d" % (n, p, k), h_lts, "%dx%d symbolic, any start, %d iterations" % (n, p, k), n=n,
                        p=p, maxit=k, budget=60))
    for n, p, k, cells in [(5, 2, 1, []), (6, 2, 2, []), (5, 3, 1, []), (8, 2, 3, []), (3, 2, 1, [(0, 0)]), (9, 1, 5, [(4, 0)])]:
        out.append(Case("lts-fixed-%dx%d-%d" % (n, p, k), h_lts,
                        "fixed %dx%d, any start in [-8,8]^%d, %d symbolic cells, %d iterations" % (n, p, p, len(cells), k),
                        n=n, p=p, maxit=k, cells=cells, budget=60 if not T else 300))
    for n, p, k, cells in [(7, 3, 5, [(3, 1)]), (11, 4, 5, [(10, 0)])]:
        out.append(Case("lts-cell-%dx%d-%d" % (n, p, k), h_lts, "fixed data, one symbolic cell, fixed start", n=n, p=p,
                        maxit=k, cells=cells, start=[0.1] * p, budget=60))
    out.append(Case("lts-nan", h_lts, "fixed 6x2 with missing cells, any start", n=6, p=2, maxit=2, cells=[],
                    nan=[(1, 0), (3, 1)], budget=60))
    for n, kw in [(5, {}), (6, dict(cons=False)), (9, dict(cons="finiteSample")), (7, dict(c1=0)), (8, dict(c1=2.0, c2=1.5)), (20, dict(c2=0.5))]:
        out.append(Case("tau-%dx1-%s" % (n, "-".join("%s=%s" % x for x in kw.items())), h_tau, "fixed %dx1 in any units a x + b, mad>1/16" % n,
                        n=n, p=1, budget=60, **kw))
    out.append(Case("tau-9x1", h_tau, "fixed 9x1, 1 symbolic cell", n=9, p=1, cells=[(4, 0)], budget=40))
    out.append(Case("tau-10x1", h_tau, "fixed 10x1, 1 symbolic cell", n=10, p=1, cells=[(2, 0)], cons="finiteSample", budget=40))
    out.append(Case("tau-columns-7x2", h_tau, "fixed 7x2 in any units a x + b", n=7, p=2, budget=30))
    return out
