"""rm: M regression - one linear model in original units, the weighting scheme and the case weights."""
import numpy
from checks.common import *
from checks.C07 import REF
from engine.harness import Case

ASSUMPTIONS = ["fixed data (n<=7, p<=3) with symbolic cells, or any answer of the least squares solver in the stated box; "
               "the median distance, the scales and the median absolute residual are bounded away from zero where the code divides by them"]
FUNS = ("Hampel", "Huber", "Fair")


def cutoffs(p, mode, probs=(0.95, 0.975, 0.999)):
    from scipy.stats import norm, chi2
    cy = [float(norm.ppf(q)) for q in probs]
    cx = [float(chi2.ppf(q, p)) for q in probs] if mode == "specific" else cy
    return cx, cy


def zscale(E, X, y, centre, scale):
    n, p = X.shape
    m, s = LOC(E, X, centre), SCA(E, X, scale)
    yy = y.reshape((-1, 1))
    my, sy = LOC(E, yy, centre), SCA(E, yy, scale)
    u, uy = unit(s), unit(sy)
    return ([[(X[i, j] - m[j]) / u[j] for j in range(p)] for i in range(n)], [(y[i] - my[0]) / uy[0] for i in range(n)], m, s, my, sy)


def start_weights(E, Z, v, y, fun, centre, scale, cx, cy):
    n = len(Z)
    d = [sqrt(E, vsum([a * a for a in r])) for r in Z]
    md = vmed(d)
    wx = [REF[fun](a / md, *cx) for a in d]
    if (centre, scale) == ("median", "mad"):
        u = [abs(a) for a in v]
    else:
        m = vmed(y)
        s = vmed([abs(a - m) for a in y])
        u = [abs(a - m) / (1.4826 * s) for a in y]
    wy = [REF[fun](a, *cy) for a in u]
    return wx, wy


def floor(w):
    return [1e-06 if a < 1e-06 else a for a in w]


def next_weights(E, Z, v, b, wx, fun, cy):
    r = [abs(v[i] - dot(Z[i], b)) for i in range(len(v))]
    nz = [a for a in r if a != 0]
    s = vmed(r if len(nz) * 2 > len(r) or not nz else nz)
    E.assume(s, ">", 0.015625)
    return [REF[fun](a / (1.4826 * s), *cy) for a in r]


def model(E, m, X, y, X0, y0, centre, scale, prep, new=True):
    """the fitted attributes form one linear model in the original units"""
    np = E.np
    n, p = X0.shape
    Z, v, mx, sx, my, sy = prep
    B, b = m.coef_, m.coef_scaled_
    E.true("shape of coef_", B.shape == (p, 1), str(B.shape))
    ux, uy = unit(sx), unit(sy)
    E.eq("coef_ in original units", B, [[b[j, 0] * uy[0] / ux[j]] for j in range(p)])
    lin = [vsum([X0[i, j] * B[j, 0] for j in range(p)]) for i in range(n)]
    est = vmean if centre == "mean" else vmed
    E.eq("intercept_", m.intercept_, est([y0[i] - lin[i] for i in range(n)]))
    if scale != "None":
        E.eq("intercept_scaled_", m.intercept_scaled_, est([v[i] - vsum([Z[i][j] * b[j, 0] for j in range(p)]) for i in range(n)]))
    fit = [a + m.intercept_ for a in lin]
    E.eq("fitted_", np.array(m.fitted_).reshape(-1), fit)
    E.eq("residuals_", np.array(m.residuals_).reshape(-1), [y0[i] - fit[i] for i in range(n)])
    E.eq("predict on the training data", np.array(m.predict(X)).reshape(-1), fit)
    E.eq("x_loc_", m.x_loc_, mx)
    E.eq("x_sca_", m.x_sca_, sx)
    E.eq("y_loc_", m.y_loc_, my)
    E.eq("y_sca_", m.y_sca_, sy)
    if new:
        Q = E.array("z", (2, p), -4, 4)
        want = [[vsum([Q[i, j] * B[j, 0] for j in range(p)]) + m.intercept_] for i in range(2)]
        E.eq("predict new", m.predict(Q), want)
        E.eq("predict a frame", m.predict(E.frame(Q)), want)
        E.eq("predict one row", m.predict(Q[0]), want[:1])


def weights(E, m, wx, wy):
    """case weights: the product of both, cases below 1e-6 left out, everything within [0,1]"""
    n = len(wx)
    out = [a * c < 1e-06 for a, c in zip(wx, wy)]
    E.eq("x_caseweights_", E.np.array(m.x_caseweights_).reshape(-1), [0.0 if out[i] else wx[i] for i in range(n)])
    E.eq("y_caseweights_", E.np.array(m.y_caseweights_).reshape(-1), [0.0 if out[i] else wy[i] for i in range(n)])
    E.eq("caseweights_", E.np.array(m.caseweights_).reshape(-1), [0.0 if out[i] else wx[i] * wy[i] for i in range(n)])
    E.ge("case weights >= 0", m.caseweights_, 0.0)
    E.le("case weights <= 1", m.caseweights_, 1.0)


def make(E, n, p, xc, yc, seed, lo, hi, spread=2.0):
    X = mix(E, "x", n, p, seed, list(xc), lo, hi)
    r = rng_matrix(n, 1, seed + 1, spread)
    y = E.const([a[0] for a in r])
    s = E.array("y", len(yc), lo, hi)
    for k, i in enumerate(yc):
        y[i] = s[k]
    return X, y


class Solver:
    """stands for numpy's least squares: returns prepared answers, keeps the problems it was given"""

    def __init__(self, answers):
        self.answers, self.calls = answers, []

    def __call__(self, a, b, rcond=None):
        k = len(self.calls)
        self.calls.append((a, b))
        return self.answers[min(k, len(self.answers) - 1)], None, a.shape[1], None


def h_any(E, n, p, fun, centre, scale, mode, its, sym, seed=5, outlier=None, tol=0.01, exact=(), far=((), ())):
    """whatever the solver answers: the next weights, the final weights and the model follow from it"""
    from direpack.sprm.rm import rm
    np = E.np
    X, y = make(E, n, p, (), (), seed, -4, 4)
    if outlier is not None:
        y[outlier] = 40.0
        X[(outlier + 2) % n, 0] = -90.0
    for i in far[0]:
        X[i, 0] = 60.0 + 8 * i
    for i in far[1]:
        y[i] = 50.0 + 4 * i
    for i in exact:
        # these cases lie on the first answer of the solver
        X[i, 0] = [0.5, -1.0, 2.0, -0.5][i % 4]
        X[i, 1] = [1.0, 2.0, -1.0, -2.0][i % 4]
        y[i] = 0.5 * X[i, 0] - 0.25 * X[i, 1]
    X0, y0 = X.copy(), y.copy()
    ans = []
    for k in range(its):
        b = E.const(([0.5, -0.25, 0.75] if k % 2 == 0 else [-0.5, 1.0, 0.25])[:p])
        for j in sym[k] if k < len(sym) else ():
            b[j] = E.scalar("b%d_%d" % (k, j), -2, 2)
        ans.append(b)
    prep = zscale(E, X0, y0, centre, scale)
    Z, v = prep[0], prep[1]
    cx, cy = cutoffs(p, mode)
    yl = [y0[i] for i in range(n)]
    wx, wy = start_weights(E, Z, v, yl, fun, centre, scale, cx, cy)
    for k in range(its):
        next_weights(E, Z, v, lst(ans[k]), wx, fun, cy)
    sol = Solver(ans)
    m = rm(fun=fun, centre=centre, scale=scale, start_cutoff_mode=mode, maxit=its, tol=tol, verbose=False)
    with E.patch([(numpy.linalg, "lstsq", sol)]):
        m.fit(X, y)
    if sol.calls:
        w = floor([a * c for a, c in zip(wx, wy)])
        old = 1e-5
        last = None
        for k, (A, c) in enumerate(sol.calls):
            q = [sqrt(E, a) for a in w]
            E.eq("weighted X of step %d" % (k + 1), A, [[Z[i][j] * q[i] for j in range(p)] for i in range(n)])
            E.eq("weighted y of step %d" % (k + 1), np.array(c).reshape(-1), [v[i] * q[i] for i in range(n)])
            b = lst(ans[min(k, its - 1)])
            wy = next_weights(E, Z, v, b, wx, fun, cy)
            w = floor([a * d for a, d in zip(wx, wy)])
            new = dot(b, b)
            dead = len([1 for a, d in zip(wx, wy) if a * d < 1e-06])
            if dead >= n / 2:
                E.true("no step after half of the cases are out", k == len(sol.calls) - 1)
                break
            conv = abs(new - old) / old
            more = k < len(sol.calls) - 1
            if more:
                E.ge("continues only while not converged", conv, tol)
            elif k + 1 < its:
                E.le("stops early only when converged", conv, tol)
            old = new
        weights(E, m, wx, wy)
        E.eq("coef_scaled_", m.coef_scaled_, [[a] for a in b])
    model(E, m, X, y, X0, y0, centre, scale, prep, new=not any(sym))
    E.eq("X untouched", X, X0)
    E.eq("y untouched", y, y0)


def h_real(E, n, p, fun, centre, scale, mode, maxit=1, xc=(), yc=(), seed=5, lo=-4, hi=4, kind="vec", outlier=None, const=None, tol=0.01):
    """real least squares; after one step the coefficients solve the weighted problem with the starting weights"""
    from direpack.sprm.rm import rm
    X, y = make(E, n, p, xc, yc, seed, lo, hi)
    if outlier is not None:
        y[outlier] = -30.0
    if const is not None:
        X[:, const] = 1.5
    X0, y0 = X.copy(), y.copy()
    prep = zscale(E, X0, y0, centre, scale)
    Z, v = prep[0], prep[1]
    cx, cy = cutoffs(p, mode)
    yl = [y0[i] for i in range(n)]
    if centre + scale != "medianmad":
        E.assume(vmed([abs(a - vmed(yl)) for a in yl]), ">", 0.0625)
    a, c = (X, y) if kind == "vec" else (X, y.reshape((-1, 1))) if kind == "col" else (E.frame(X), E.series(y)) if kind == "series" \
        else (E.frame(X), E.frame(y.reshape((-1, 1))))
    m = rm(fun=fun, centre=centre, scale=scale, start_cutoff_mode=mode, maxit=maxit, tol=tol, verbose=False).fit(a, c)
    wx, wy = start_weights(E, Z, v, yl, fun, centre, scale, cx, cy)
    b = [m.coef_scaled_[j, 0] for j in range(p)]
    if maxit == 1:
        w = floor([s * t for s, t in zip(wx, wy)])
        res = [v[i] - dot(Z[i], b) for i in range(n)]
        for j in range(p):
            E.eq("weighted normal equations", vsum([w[i] * Z[i][j] * res[i] for i in range(n)]), 0.0)
    if const is not None:
        E.eq("constant column has no coefficient", m.coef_[const, 0], 0.0)
    if not (xc or yc):
        r = [abs(v[i] - dot(Z[i], b)) for i in range(n)]
        weights(E, m, wx, [REF[fun](t / (1.4826 * vmed(r)), *cy) for t in r])
    model(E, m, a, c, X0, y0, centre, scale, prep, new=len(xc) + len(yc) <= 1)
    E.eq("X untouched", X, X0)
    E.eq("y untouched", y, y0)


def h_units(E, n, p, fun, centre, scale, maxit, seed=5):
    """predictions carry the units of y and do not depend on those of X"""
    from direpack.sprm.rm import rm
    X, y = make(E, n, p, (), (), seed, -4, 4)
    k = dict(fun=fun, centre=centre, scale=scale, maxit=maxit, verbose=False)
    m0 = rm(**k).fit(X, y)
    a, c = E.scalar("a", 0.25, 4), E.scalar("c", -4, 4)
    if E.flag("neg"):
        a = -a
    X2 = X.copy()
    y2 = y * a + c
    d = E.scalar("d", 0.25, 4)
    e = E.scalar("e", -4, 4)
    j = p - 1
    X2[:, j] = X[:, j] * d + e
    m = rm(**k).fit(X2, y2)
    E.eq("fitted_ follows the units", m.fitted_, [m0.fitted_[i] * a + c for i in range(n)])
    E.eq("case weights do not depend on units", m.caseweights_, m0.caseweights_)
    E.eq("coef_ follows the units", m.coef_, [[m0.coef_[i, 0] * a / (d if i == j else 1.0)] for i in range(p)])


def h_params(E, what):
    from direpack.sprm.rm import rm
    from direpack.utils.utils import MyException
    X, y = make(E, 5, 2, [(0, 0)], [1], 3, -4, 4)
    if what == "cols":
        X, y = make(E, 5, 2, (), (), 3, -4, 4)
        m = rm(verbose=False).fit(X, y)
        for q in (1, 3):
            E.raises("predict refuses %d columns" % q, ValueError, m.predict, E.array("z%d" % q, (3, q)))
    elif what == "rows":
        E.raises("refuses other number of cases", MyException, rm(verbose=False).fit, X, y[:4])
    elif what == "fun":
        E.raises("refuses unknown weight function", MyException, rm(fun="Tukey", verbose=False).fit, X, y)
    elif what == "prob":
        for q in (0.0, -0.5, 1.5):
            E.raises("refuses probp1=%s" % q, MyException, rm(fun="Huber", probp1=q, verbose=False).fit, X, y)
        for t in [(0.95, 0.9, 0.99), (0.9, 0.99, 0.95), (0.9, 0.95, 1.1), (0.95, 0.95, 0.99)]:
            E.raises("refuses cut-offs %s" % (t,), MyException,
                     rm(fun="Hampel", probp1=t[0], probp2=t[1], probp3=t[2], verbose=False).fit, X, y)
    elif what == "nocopy":
        X, y = make(E, 5, 2, (), (1,), 3, 0.5, 0.75)
        m0 = rm(verbose=False, maxit=1, centre="mean").fit(X, y)
        m = rm(verbose=False, maxit=1, centre="mean", copy=False).fit(X, y)
        Z = E.array("z", (2, 2))
        E.eq("copy=False gives the same predictions", m.predict(Z), m0.predict(Z))
    elif what == "refit":
        X, y = make(E, 5, 2, (), (1,), 3, 0.5, 0.75)
        X2, y2 = make(E, 6, 2, (), (), 9, -4, 4)
        m0 = rm(verbose=False, maxit=1, centre="mean").fit(X, y)
        m = rm(verbose=False, maxit=1, centre="mean").fit(X2, y2)
        m.predict(X2)
        m.fit(X, y)
        for at in ("coef_", "intercept_", "fitted_", "residuals_", "caseweights_", "x_caseweights_", "y_caseweights_"):
            E.eq("refit forgets: " + at, getattr(m, at), getattr(m0, at))


def cases(tier):
    T = tier == "thorough"
    out = []
    conf = [("median", "mad"), ("mean", "std"), ("median", "None"), ("mean", "None"), ("mean", "mad")]
    b = 400 if T else 25
    for fun in FUNS:
        for i, (centre, scale) in enumerate(conf):
            for mode in ("specific", "other"):
                nm = "%s-%s-%s-%s" % (fun, centre, scale, mode)
                k = dict(fun=fun, centre=centre, scale=scale, mode=mode)
                full = T or fun == "Hampel" and mode == "specific" or (mode == "other" and i == 0)
                if full or mode == "specific":
                    out.append(Case("any1-" + nm, h_any, "n=5 p=2, one solver answer with one free entry in [-2,2]", budget=b, n=5, p=2, its=1, sym=[[0]], **k))
                if full:
                    out.append(Case("out2-" + nm, h_any, "n=6 p=2 with outliers, two steps, second answer with a free entry", budget=b, n=6, p=2, its=2,
                                    sym=[[], [1]], outlier=3, seed=7, **k))
                    out.append(Case("real-" + nm, h_real, "n=6 p=2, one free y, real solver", budget=b, n=6, p=2, yc=[2],
                                    lo=-4 if T else 0.5, hi=4 if T else (1.0 if centre == "mean" else 0.625), **k))
                if T:
                    out.append(Case("any11-" + nm, h_any, "n=5 p=2, answer with two free entries", budget=900, n=5, p=2, its=1, sym=[[0, 1]], **k))
                    out.append(Case("any3-" + nm, h_any, "n=7 p=3, three steps, free entries", budget=900, n=7, p=3, its=3, sym=[[], [0], [2]], seed=8, **k))
                out.append(Case("full-" + nm, h_real, "n=7 p=3 fixed data, run to convergence, free new cases", budget=b, n=7, p=3, maxit=100, seed=8, **k))
                out.append(Case("fullout-" + nm, h_real, "n=7 p=2 fixed data with an outlier, run to convergence", budget=b, n=7, p=2, maxit=100, seed=8,
                                outlier=4, **k))
    for fun in FUNS:
        for n, ex in [(6, (0, 2, 3)), (6, (0, 2)), (5, (0, 2, 3)), (8, (0, 1, 2, 3, 5))]:
            out.append(Case("exact-%s-%d-%d" % (fun, n, len(ex)), h_any, "n=%d p=2, %d cases fitted exactly" % (n, len(ex)), budget=b, n=n, p=2, its=2, sym=[[], [0]] if n == 5 else [],
                            fun=fun, centre="None", scale="None", mode="other", exact=ex))
        for centre, scale in conf[:2]:
            out.append(Case("rates-%s-%s" % (fun, centre), h_any, "n=5 p=2, five steps, third answer free", budget=b, n=5, p=2, its=5, sym=[] if fun == "Fair" else [[], [], [0]], fun=fun,
                            centre=centre, scale=scale, mode="specific"))
    for n, fx, fy in [(8, (0, 1), (2, 3)), (8, (0, 1), (2,)), (9, (0, 1), (2, 3)), (9, (0, 1, 4), (2, 3)), (10, (0, 1, 4), (2, 3))]:
        for centre, scale in (("median", "mad"), ("median", "None")):
            out.append(Case("far-%d-%d%d-%s" % (n, len(fx), len(fy), scale), h_any, "n=%d p=2, %d cases far in X, %d in y, three steps" % (n, len(fx), len(fy)), budget=b, n=n, p=2,
                            its=3, sym=[], fun="Hampel", centre=centre, scale=scale, mode="other", far=(fx, fy)))
    for kind in ("col", "frame", "series"):
        out.append(Case("kind-" + kind, h_real, "n=6 p=2 one free y", budget=60, n=6, p=2, yc=[2], fun="Huber", centre="mean", scale="std", mode="specific",
                        kind=kind, lo=0.5, hi=0.75))
    for scale in ("mad", "std", "None"):
        out.append(Case("const-" + scale, h_real, "n=6 p=3, a constant column, one free y", budget=60, n=6, p=3, yc=[2], lo=0.5, hi=0.75, fun="Huber",
                        centre="mean", scale=scale, mode="specific", const=1))
    out.append(Case("x1", h_real, "n=5 p=2 one free X cell", budget=400 if T else 30, n=5, p=2, xc=[(1, 0)], fun="Huber", centre="mean", scale="std", mode="specific",
                    lo=0.5, hi=1))
    for fun in FUNS:
        for centre, scale in conf:
            if scale == "None":
                continue
            out.append(Case("units-%s-%s-%s" % (fun, centre, scale), h_units, "n=6 p=2 fixed data, free units a,c of y and d,e of a column", budget=60, n=6, p=2,
                            fun=fun, centre=centre, scale=scale, maxit=1 if not T else 2))
    for w in ("cols", "rows", "fun", "prob", "nocopy", "refit"):
        out.append(Case("check-" + w, h_params, "n=5 p=2", budget=60, what=w))
    return out
