"""ppdire: for every answer of the optimiser, the decomposition, the regression and the predictions belong together."""
import types
import scipy.optimize as spo
from checks.common import *
from engine.harness import Case

ASSUMPTIONS = ["the optimiser (scipy minimize, differential_evolution, IPOPT), rm and QuantReg are stand-ins that may return any "
               "value in the stated range; fixed data (n<=7, p<=4) with symbolic answers, symbolic probe points and new cases",
               "no component with a score vector of (near) zero length: t't > 1/64"]


class Index:
    """a projection index in the format ppdire expects: third moment, plus cross moment when y is there"""

    def __init__(self, c=2.0):
        self.c = c

    def fit(self, x, **k):
        v = lst(x.reshape(-1))
        Index.last = v
        s = self.c * vmean([a * a * a for a in v])
        if "y" in k and k["y"] is not None:
            w = lst(k["y"].reshape(-1))
            s = s + vmean([a * b for a, b in zip(v, w)])
        return s

    @staticmethod
    def value(v, w, c=2.0):
        s = c * vmean([a * a * a for a in v])
        if w is not None:
            s = s + vmean([a * b for a, b in zip(v, w)])
        return s


class Optimiser:
    """returns the prepared answers in turn and evaluates objective and constraints at a probe point"""

    def __init__(self, E, answers, probe):
        self.E, self.answers, self.probe, self.calls = E, list(answers), probe, []

    def _do(self, fun, args, cons, method):
        a = self.probe
        k = len(self.calls)
        rec = types.SimpleNamespace(method=method, value=fun(a, *args), cons=[])
        for c in cons:
            if isinstance(c, dict):
                rec.cons.append((c["type"], c["fun"](a)))
            else:
                rec.cons.append(("eq" if c.lb == c.ub == 0 else "?", c.fun(a)))
        self.calls.append(rec)
        x = self.answers[k]
        return types.SimpleNamespace(x=x.copy(), fun=fun(x, *args), success=True)

    def minimize(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None,
                 options=None, **k):
        return self._do(fun, args, constraints if isinstance(constraints, (list, tuple)) else [constraints], method)

    def evolve(self, fun, bounds, args=(), constraints=(), **k):
        self.bounds = bounds
        return self._do(fun, args, constraints if isinstance(constraints, (list, tuple)) else [constraints], "de")


def answers(E, p, h, sym):
    """unit-free directions, the entries listed in sym are symbolic"""
    base = [[1.0, 0.5, -0.75, 0.25, -0.5], [-0.5, 1.0, 0.25, 0.75, 0.5], [0.25, -0.5, 1.0, 0.5, -0.75], [0.75, 0.25, 0.5, -1.0, 0.25], [-0.25, 0.5, 0.5, 0.25, 1.0]]
    out = []
    for i in range(h):
        v = E.const(base[i][:p])
        for j in sym[i] if i < len(sym) else ():
            v[j] = E.scalar("w%d_%d" % (i, j), -2, 2)
        out.append(v)
    return out


def stubs(E, opt):
    import direpack.ipopt_temp.ipopt_wrapper as iw
    return [(spo, "minimize", lambda *a, **k: opt.minimize(*a, **k)),
            (spo, "differential_evolution", lambda *a, **k: opt.evolve(*a, **k)),
            (iw, "minimize_ipopt", lambda *a, **k: opt.minimize(*a, **k))]


def decompose(E, Z, ws):
    """T, P, W of successive deflation along the directions ws (reference)"""
    W, T, P, Es = [], [], [], []
    n, p = len(Z), len(Z[0])
    D = [list(r) for r in Z]
    for w in ws:
        nw = sqrt(E, vsum([a * a for a in w]))
        w = [a / nw for a in w]
        t = [dot(r, w) for r in D]
        tt = dot(t, t)
        E.assume(tt, ">", 1 / 64)
        pl = [vsum([D[i][j] * t[i] for i in range(n)]) / tt for j in range(p)]
        W.append(w), T.append(t), P.append(pl), Es.append(D)
        D = [[D[i][j] - t[i] * pl[j] for j in range(p)] for i in range(n)]
    return W, T, P, Es


def h_fit(E, n, p, h, sym, center="mean", scale=True, centre_data=True, two=True, method="SLSQP", kind="array", regopt="OLS", square=False, seed=3,
          new=True, trimming=0, history=False, fitkw=None):
    from direpack.ppdire.ppdire import ppdire
    np = E.np
    X = E.const(rng_matrix(n, p, seed))
    y = E.const([r[0] for r in rng_matrix(n, 1, seed + 1)])
    X0, y0 = X.copy(), y.copy()
    ws = answers(E, p, h, sym)
    for w in ws:
        E.assume(vsum([w[j] * w[j] for j in range(p)]), ">", 1 / 16)
    probe = E.array("a", p, -2, 2)
    sc = ("std" if center == "mean" else "mad") if scale else "None"
    if centre_data:
        mx, sx = LOC(E, X, center, trimming), unit(SCA(E, X, sc, trimming))
        my, sy = LOC(E, y.reshape((-1, 1)), center, trimming), unit(SCA(E, y.reshape((-1, 1)), sc, trimming))
    else:
        mx, sx, my, sy = [0.0] * p, [1.0] * p, [0.0], [1.0]
    Z = [[(X[i, j] - mx[j]) / sx[j] for j in range(p)] for i in range(n)]
    v = [(y[i] - my[0]) / sy[0] for i in range(n)]
    W, T, P, Es = decompose(E, Z, [[w[j] for j in range(p)] for w in ws])
    opt = Optimiser(E, ws, probe)
    inner = []
    rec, told = [], []

    class Rm:
        def __init__(self, *a, **k):
            names = ("fun", "probp1", "probp2", "probp3", "centre", "scale", "start_cutoff_mode", "verbose", "maxit", "tol", "copy")
            told.append({**dict(zip(names, a)), **k})

        def fit(self, t, yy):
            rec.append((t.copy(), yy.copy()))
            self.coef_ = E.np.array([[inner[len(rec) - 1]]])
            return self

    class Qr:
        def __init__(self, yy, t, *a, **k):
            self.d = (t.copy(), yy.copy())

        def fit(self, q=0.5, **k):
            rec.append(self.d)
            told.append(q)
            return types.SimpleNamespace(params=E.np.array([inner[len(rec) - 1]]))

    st = stubs(E, opt)
    if regopt == "robust":
        import sys
        st.append((sys.modules["direpack.sprm.rm"], "rm", Rm))
        inner = [E.scalar("c%d" % i, -3, 3) for i in range(h)]
    elif regopt == "quantile":
        import statsmodels.regression.quantile_regression as q
        st.append((q, "QuantReg", Qr))
        inner = [E.scalar("c%d" % i, -3, 3) for i in range(h)]
    m = ppdire(projection_index=Index, pi_arguments={"c": 2.0}, n_components=h, optimizer=method, center=center, center_data=centre_data,
               scale_data=scale, regopt=regopt, square_pi=square, verbose=False, trimming=trimming)
    a = X if kind == "array" else E.frame(X)
    b = y if kind in ("array", "kw") else (E.series(y) if kind == "series" else E.frame(y.reshape((-1, 1))))
    with E.patch(st):
        if history:
            X2, y2 = E.const(rng_matrix(n + 2, p + 1, seed + 8)), E.const([r[0] for r in rng_matrix(n + 2, 1, seed + 9)])
            old, oldprobe = opt.answers, opt.probe
            opt.answers, opt.probe = answers(E, p + 1, h, []), E.const([0.5] * (p + 1))
            m.fit(X2, y2)
            m.predict(X2)
            m.transform(X2)
            opt.answers, opt.probe = old, oldprobe
            del opt.calls[:]
        if not two:
            m.fit(a)
        elif fitkw:
            m.fit(a, b, **fitkw)
        elif kind == "kw":
            m.fit(a, y=b)
        else:
            m.fit(a, b)
    E.true("one optimisation per component", len(opt.calls) == h, str(len(opt.calls)))
    for i, c in enumerate(opt.calls):
        av = [probe[j] for j in range(p)]
        E.eq("objective is minus the index of the projection", c.value, -Index.value([dot(r, av) for r in Es[i]], v if two else None))
        E.true("unit norm constraint is passed on", len(c.cons) >= 1 and c.cons[0][0] == "eq")
        E.eq("constraint", c.cons[0][1], sqrt(E, vsum([q * q for q in av])) - 1)
        if method not in ("IPOPT", "differential_evolution"):
            E.true("method", c.method == method)
    col = lambda A, k: [A[i, k] for i in range(A.shape[0])]
    R = m.x_rotations_
    for i in range(h):
        E.eq("weights are the unit answer", col(m.x_weights_, i), W[i])
        E.eq("scores", col(m.x_scores_, i), T[i])
        E.eq("loadings", col(m.x_loadings_, i), P[i])
        for k in range(i):
            E.eq("orthogonal scores", dot(col(m.x_scores_, i), col(m.x_scores_, k)), 0.0)
        E.eq("x_ev_", m.x_ev_[i, 0] * vsum([dot(r, r) for r in Z]), 100 * dot(T[i], T[i]) * dot(P[i], P[i]))
        pi = Index.value(T[i], v if two else None)
        E.eq("Maxobjf_", m.Maxobjf_[i, 0], pi)
        if two:
            E.eq("crit_values_", m.crit_values_[i, 0], pi * pi if square else pi)
    E.eq("x_loc_", m.x_loc_, mx)
    E.eq("x_sca_", m.x_sca_, sx)
    E.eq("transform(training) is x_scores_", m.transform(a), tr(T))
    if new:
        Q = E.array("z", (2, p), -4, 4)
        want = mm([[(Q[i, j] - mx[j]) / sx[j] for j in range(p)] for i in range(2)], lst(R))
        E.eq("transform new", m.transform(Q), want)
        E.eq("transform a frame", m.transform(E.frame(Q)), want)
    if two:
        C = m.y_loadings_
        E.eq("y_loc_", m.y_loc_, my if centre_data else 0.0)
        E.eq("y_sca_", m.y_sca_, sy if centre_data else 1.0)
        for i in range(h):
            if regopt == "OLS":
                E.eq("inner relation", C[i, 0] * dot(T[i], T[i]), dot(T[i], v))
            else:
                E.eq("inner relation", C[i, 0], inner[i])
                E.eq("regression of the scaled response", rec[i][1].reshape(-1), v)
                E.eq("regression on the scores", rec[i][0].reshape(-1), T[i])
        if regopt == "quantile":
            E.true("quantile asked for", told == [(fitkw or {}).get("quantile", 0.5)] * h, str(told))
        elif regopt == "robust":
            want = dict(dict(fun="Hampel", probp1=0.95, probp2=0.975, probp3=0.99, centre=center, scale=sc), **(fitkw or {}))
            E.true("settings of the robust regression", len(told) == h and all(all(q.get(a) == b for a, b in want.items()) for q in told), str(told))
        B = [vsum([R[j, k] * C[k, 0] for k in range(h)]) for j in range(p)]
        E.eq("scaled coefficients", col(m.coef_scaled_, h - 1), B)
        for q in range(h - 1):
            Bq = [vsum([R[j, k] * C[k, 0] for k in range(q + 1)]) for j in range(p)]
            E.eq("scaled coefficients of the model with fewer components", col(m.coef_scaled_, q), Bq)
            E.eq("coefficients of the model with fewer components", col(m.coef_, q), [Bq[j] * sy[0] / sx[j] for j in range(p)])
        E.eq("scaled fit is the sum over components", [dot(r, B) for r in Z], [vsum([T[k][i] * C[k, 0] for k in range(h)]) for i in range(n)])
        Bo = [B[j] * sy[0] / sx[j] for j in range(p)]
        E.eq("coefficients in original units", col(m.coef_, h - 1), Bo)
        lin = [vsum([X0[i, j] * Bo[j] for j in range(p)]) for i in range(n)]
        res = [y0[i] - lin[i] for i in range(n)]
        b0 = vtrim(res, trimming) if center == "mean" else vmed(res)
        E.eq("intercept_", m.intercept_ if getattr(m.intercept_, "ndim", 0) == 0 else m.intercept_.reshape(-1)[0], b0)
        if sc != "None":
            rs = [v[i] - dot(Z[i], B) for i in range(n)]
            E.eq("intercept_scaled_", m.intercept_scaled_, vmean(rs) if center == "mean" else vmed(rs))
        fit = [q + b0 for q in lin]
        E.eq("fitted_", m.fitted_, [[q] for q in fit])
        E.eq("residuals_", m.residuals_, [[y0[i] - fit[i]] for i in range(n)])
        E.eq("predict(training) is fitted_", m.predict(a), fit)
        if new:
            want = [vsum([Q[i, j] * Bo[j] for j in range(p)]) + b0 for i in range(2)]
            E.eq("predict new", m.predict(Q), want)
            E.eq("predict a frame", m.predict(E.frame(Q)), want)
            E.eq("predict one row", m.predict(Q[0:1]), want[:1])
    E.eq("X untouched", X, X0)
    E.eq("y untouched", y, y0)


def h_white(E, n, p, h, sym, seed, two):
    """whitened data: the optimiser sees data with identity second moments, and the model still refers to the original columns"""
    from direpack.ppdire.ppdire import ppdire
    X = E.const(rng_matrix(n, p, seed))
    y = E.const([r[0] for r in rng_matrix(n, 1, seed + 1)])
    ws = answers(E, p, h, sym)
    for w in ws:
        E.assume(vsum([w[j] * w[j] for j in range(p)]), ">", 1 / 16)
    seen = []

    class Keep(Optimiser):
        def minimize(self, fun, x0, args=(), **k):
            cols = []
            for j in range(p):
                fun(E.const([1.0 if i == j else 0.0 for i in range(p)]), *args)
                cols.append(list(Index.last))
            seen.append([[cols[j][i] for j in range(p)] for i in range(n)])
            return Optimiser.minimize(self, fun, x0, args=args, **k)
    opt = Keep(E, ws, E.array("a", p, -2, 2))
    m = ppdire(projection_index=Index, pi_arguments={"c": 2.0}, n_components=h, whiten_data=True, verbose=False)
    with E.patch(stubs(E, opt)):
        m.fit(X, y) if two else m.fit(X)
    mx = colw(X, vmean)
    Xc = [[X[i, j] - mx[j] for j in range(p)] for i in range(n)]
    Z = seen[0]
    for a in range(p):
        for b in range(p):
            E.eq("whitened data", vsum([Z[i][a] * Z[i][b] for i in range(n)]), float(p) if a == b else 0.0)
    W, T, P, Es = decompose(E, Z, [[w[j] for j in range(p)] for w in ws])
    E.eq("scores", m.x_scores_, tr(T))
    E.eq("transform(training) is x_scores_", m.transform(X), tr(T))
    E.eq("scores are centred data times rotations", mm(Xc, lst(m.x_rotations_)), tr(T))
    Q = E.array("z", (1, p), -4, 4)
    E.eq("transform new", m.transform(Q), mm([[Q[0, j] - mx[j] for j in range(p)]], lst(m.x_rotations_)))
    s = p ** 0.5
    E.eq("weights refer to the original columns", [s * q for q in mm(Xc, lst(m.x_weights_))[0]], [dot(Z[0], W[k]) for k in range(h)])
    if two:
        fit = m.predict(X)
        E.eq("fitted_ is predict(training)", m.fitted_.reshape(-1), fit)
        my = vmean([y[i] for i in range(n)])
        C = [dot(t, [y[i] - my for i in range(n)]) / dot(t, t) for t in T]
        E.eq("prediction from the scores", fit, [my + vsum([C[k] * T[k][i] for k in range(h)]) for i in range(n)])


def h_args(E, method, two, n, p, h, sym, user):
    """what the caller names in fit and in the settings reaches every evaluation of the index and the optimiser"""
    from direpack.ppdire.ppdire import ppdire
    X = E.const(rng_matrix(n, p, 3))
    y = E.const([r[0] for r in rng_matrix(n, 1, 4)])
    ws = answers(E, p, h, sym)
    for w in ws:
        E.assume(vsum([w[j] * w[j] for j in range(p)]), ">", 1 / 16)
    al = E.scalar("al", 0, 3)
    cf = E.array("cf", p, -1, 1)
    told = []

    class Told(Index):
        def fit(self, x, **k):
            told.append(k)
            return Index.fit(self, x, **k)
    extra = {"type": "ineq", "fun": lambda x: dot(lst(x.reshape(-1)), [cf[j] for j in range(p)])}
    asked = dict(dmetric="cityblock", biascorr=True, mixing=True)
    for kw in (asked, {}):
        del told[:]
        opt = Optimiser(E, ws, E.array("a", p, -2, 2))
        m = ppdire(projection_index=Told, pi_arguments={"c": 2.0}, n_components=h, optimizer=method, alpha=al, optimizer_constraints=extra if user else None, verbose=False)
        with E.patch(stubs(E, opt)):
            m.fit(*((X, y) if two else (X,)), **kw)
        E.true("the index is evaluated", len(told) > 0)
        E.true("distance metric", all(k.get("dmetric", "euclidean") == kw.get("dmetric", "euclidean") for k in told), str([k.get("dmetric") for k in told][:3]))
        E.true("bias correction", all(k.get("biascorr", False) is kw.get("biascorr", False) for k in told), str([k.get("biascorr") for k in told][:3]))
        for k in told[:3] + told[-1:]:
            E.eq("alpha", k.get("alpha"), al)
            E.true("response passed on", ("y" in k and k["y"] is not None) == two)
        for c in opt.calls:
            E.true("norm constraint", sum(1 for t, _ in c.cons if t == "eq") == 1, str([t for t, _ in c.cons]))
            ineq = [v for t, v in c.cons if t == "ineq"]
            E.true("the caller's constraint", len(ineq) == (1 if user else 0), str([t for t, _ in c.cons]))
            if user:
                E.eq("value of the caller's constraint", ineq[0], dot([opt.probe[j] for j in range(p)], [cf[j] for j in range(p)]))
        if kw:
            M = m.mixing_
            W = m.x_weights_
            E.true("shape of the mixing matrix", M.shape == (h, p), str(M.shape))
            E.eq("mixing matrix: left inverse", mm(lst(M), lst(W)), [[1.0 if i == j else 0.0 for j in range(h)] for i in range(h)])
            WM = mm(lst(W), lst(M))
            E.eq("mixing matrix: of least norm", WM, tr(WM))


def h_override(E, n, p, two):
    """h names the number of components of one call"""
    from direpack.ppdire.ppdire import ppdire
    X = E.const(rng_matrix(n, p, 3))
    y = E.const([r[0] for r in rng_matrix(n, 1, 4)])
    ws = answers(E, p, 2, [[], [1]])
    for w in ws:
        E.assume(vsum([w[j] * w[j] for j in range(p)]), ">", 1 / 16)
    Q = E.array("z", (2, p), -4, 4)
    names = ("x_weights_", "x_loadings_", "x_rotations_", "x_scores_", "x_ev_", "crit_values_", "Maxobjf_") + (("coef_", "intercept_", "fitted_", "y_loadings_") if two else ())

    def run(m, **k):
        with E.patch(stubs(E, Optimiser(E, ws, E.const([0.5] * p)))):
            m.fit(*((X, y) if two else (X,)), **k)
        return [getattr(m, a) for a in names] + [m.transform(Q)] + ([m.predict(Q)] if two else [])
    new = lambda h: ppdire(projection_index=Index, pi_arguments={"c": 2.0}, n_components=h, verbose=False)
    m = new(1)
    for h, k in ((2, {"h": 2}), (1, {}), (2, {"h": 2}), (1, {"h": 1})):
        got, ref = run(m, **k), run(new(h))
        E.true("n_components is a setting", m.n_components == 1 and m.get_params()["n_components"] == 1, str(m.n_components))
        for a, g, r in zip(names + ("transform", "predict"), got, ref):
            E.true("shape of %s" % a, getattr(g, "shape", ()) == getattr(r, "shape", ()), str((getattr(g, "shape", ()), getattr(r, "shape", ()))))
            E.eq(a, g, r)


def h_refuse(E, p, q):
    from direpack.ppdire.ppdire import ppdire
    X = E.const(rng_matrix(6, p, 3))
    y = E.const([r[0] for r in rng_matrix(6, 1, 4)])
    opt = Optimiser(E, answers(E, p, 1, [[0]]), E.array("a", p, -2, 2))
    m = ppdire(projection_index=Index, n_components=1, verbose=False)
    with E.patch(stubs(E, opt)):
        m.fit(X, y)
    Z = E.array("z", (3, q))
    E.raises("predict refuses", ValueError, m.predict, Z)
    E.raises("transform refuses", ValueError, m.transform, Z)


def h_compress(E, n, p, h, sym, seed):
    """flat data compressed internally: coefficients and predictions refer to the original columns"""
    from direpack.ppdire.ppdire import ppdire
    X = E.const(rng_matrix(n, p, seed))
    y = E.const([r[0] for r in rng_matrix(n, 1, seed + 1)])
    X0 = X.copy()
    k = min(n, p)
    ws = answers(E, k, h, sym)
    for w in ws:
        E.assume(vsum([w[j] * w[j] for j in range(k)]), ">", 1 / 16)
    opt = Optimiser(E, ws, E.array("a", k, -2, 2))
    m = ppdire(projection_index=Index, n_components=h, compression=True, verbose=False)
    with E.patch(stubs(E, opt)):
        m.fit(X, y)
    E.true("one coefficient per original column", m.coef_.shape == (p, h), str(m.coef_.shape))
    E.true("one rotation per original column", m.x_rotations_.shape == (p, h), str(m.x_rotations_.shape))
    B = [m.coef_[j, h - 1] for j in range(p)]
    lin = [vsum([X0[i, j] * B[j] for j in range(p)]) for i in range(n)]
    b0 = vmean([y[i] - lin[i] for i in range(n)])
    E.eq("intercept_", m.intercept_.reshape(-1)[0], b0)
    E.eq("fitted_", m.fitted_, [[q + b0] for q in lin])
    E.eq("residuals_", m.residuals_, [[y[i] - lin[i] - b0] for i in range(n)])
    E.eq("predict(training)", m.predict(X), [q + b0 for q in lin])
    # fitted values are those of the decomposition of the compressed data: intercept + scores times C
    T, C = m.x_scores_, m.y_loadings_
    sy = vstd(E, [y[i] for i in range(n)])
    my = vmean([y[i] for i in range(n)])
    E.eq("fit is the sum over components", [q + b0 for q in lin], [my + sy * vsum([T[i, a] * C[a, 0] for a in range(h)]) for i in range(n)])


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        bd = "fixed data n=%d p=%d, h=%d, symbolic direction entries %s, symbolic probe and new cases in [-4,4]" % (k["n"], k["p"], k["h"], k["sym"])
        out.append(Case(name, h_fit, bd, budget=600 if T else 80, **k))
    for center in ("mean", "median"):
        for scale in (True, False):
            nm = "%s-%s" % (center, "scale" if scale else "noscale")
            add("p2-h1-" + nm, n=5, p=2, h=1, sym=[[0]], center=center, scale=scale)
            add("p3-h1-" + nm, n=5, p=3, h=1, sym=[[0, 1]] if T else [[1]], center=center, scale=scale, new=T)
            add("p3-h2-" + nm, n=5, p=3, h=2, sym=[[0], [1]] if T else [[], [1]], center=center, scale=scale, new=T)
            add("p3-h2-one-" + nm, n=5, p=3, h=2, sym=[[], [2]], center=center, scale=scale, new=T, two=False)
    add("nocentre", n=5, p=2, h=1, sym=[[1]], centre_data=False, scale=False)
    add("nocentre-one", n=5, p=2, h=1, sym=[[1]], centre_data=False, scale=False, two=False)
    add("p4-h3", n=7, p=4, h=3, sym=[[], [], [3]], new=False)
    add("fixed-p4-h3", n=7, p=4, h=3, sym=[], center="median")
    add("square", n=5, p=2, h=1, sym=[[0]], square=True, new=False)
    add("trimmed", n=7, p=2, h=1, sym=[[0]], trimming=0.2, new=False, scale=False)
    for meth in ("COBYLA", "IPOPT", "differential_evolution"):
        add("opt-" + meth, n=5, p=3, h=2, sym=[[], [0]], method=meth, new=False)
    for kind in ("frame", "series", "kw"):
        add("kind-" + kind, n=5, p=3, h=2, sym=[[], [0]], kind=kind, new=True)
    for reg in ("robust", "quantile"):
        add("reg-" + reg, n=5, p=3, h=2, sym=[[], []], regopt=reg, new=False)
        add("reg-median-" + reg, n=5, p=2, h=1, sym=[[0]], regopt=reg, new=False, center="median")
    add("quantile-0.9", n=5, p=3, h=2, sym=[[], []], regopt="quantile", new=False, fitkw={"quantile": 0.9})
    add("robust-Huber", n=5, p=3, h=2, sym=[[], []], regopt="robust", new=False, fitkw={"fun": "Huber", "probp1": 0.9})
    add("robust-Hampel", n=5, p=2, h=1, sym=[[0]], regopt="robust", new=False, center="median", scale=False,
        fitkw={"probp1": 0.8, "probp2": 0.9, "probp3": 0.95})
    add("fixed-p5-h5", n=9, p=5, h=5, sym=[])
    add("fixed-p5-h4-noscale", n=8, p=5, h=4, sym=[], center="median", scale=False)
    add("fixed-p5-h4-one", n=8, p=5, h=4, sym=[], two=False)
    add("long-trimmed", n=25, p=2, h=2, sym=[], trimming=0.04)
    add("again", n=5, p=3, h=2, sym=[[], [0]], history=True)
    add("again-one", n=5, p=3, h=2, sym=[[], [0]], history=True, two=False)
    add("again-median", n=5, p=2, h=1, sym=[[0]], history=True, center="median")
    for two in (True, False):
        out.append(Case("white-p3-h2-%s" % two, h_white, "fixed data n=6 p=3 h=2, one symbolic entry", budget=600 if T else 80, n=6, p=3, h=2, sym=[[], [1]], seed=3,
                        two=two))
        out.append(Case("white-p2-h1-%s" % two, h_white, "fixed data n=5 p=2 h=1", budget=600 if T else 80, n=5, p=2, h=1, sym=[[0]], seed=3, two=two))
    out.append(Case("compress", h_compress, "fixed flat data n=4 p=6 h=2", budget=600 if T else 80, n=4, p=6, h=2, sym=[[], [1]], seed=3))
    for two in (True, False):
        for meth in ("SLSQP", "COBYLA", "IPOPT", "differential_evolution"):
            for user in (True, False) if meth != "differential_evolution" else (False,):
                out.append(Case("args-%s-%s-%s" % (meth, two, user), h_args, "fixed data n=5 p=3 h=2, free alpha, probe point and constraint", budget=600 if T else 80,
                                method=meth, two=two, n=5, p=3, h=2, sym=[[], [1]] if T else [], user=user))
        out.append(Case("override-%s" % two, h_override, "fixed data n=5 p=3, one symbolic entry, free new cases", budget=600 if T else 80, n=5, p=3, two=two))
    for p, q in [(3, 2), (2, 3)]:
        out.append(Case("columns-%d-%d" % (p, q), h_refuse, "trained on %d, asked for %d" % (p, q), p=p, q=q))
    return out
