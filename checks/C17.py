"""sprm: one sparse linear model on the retained columns, the reweighting scheme, case weights and scores."""
import warnings
import sklearn.metrics
from checks.common import *
from checks.C07 import REF
from checks.C16 import zscale, floor, make, FUNS
from engine.harness import Case

ASSUMPTIONS = ["fixed data (n<=8, p<=4) with symbolic new cases, one symbolic y entry, or any answer of the inner PLS step; medians the code "
               "divides by are bounded away from zero"]


def med(v):
    return vmed(list(v))


def cut(m, ax):
    if ax == "x":
        return m.probctx_, m.hampelbx_, m.hampelrx_
    return m.probcty_, getattr(m, "hampelby_", None), m.hampelry_


def cuty(fun):
    from scipy.stats import norm
    return [float(norm.ppf(q)) for q in (0.95, 0.975, 0.999)]


def cutx(df, probs=(0.95, 0.975, 0.999)):
    from scipy.stats import chi2
    return [float(chi2.ppf(q, df)) for q in probs]


def dist(E, T, centre, scale):
    """distances from the centre, relative to their median"""
    A = E.np.array(T)
    p = A.shape[1]
    m, s = LOC(E, A, centre), unit(SCA(E, A, scale if scale != "None" else "mad"))
    d = [sqrt(E, vsum([((r[j] - m[j]) / s[j]) * ((r[j] - m[j]) / s[j]) for j in range(p)])) for r in T]
    q = vmed(d)
    E.assume(q, ">", 0.0009765625)
    return [a / q for a in d]


def model(E, m, a, X0, y0, centre, scale, keep, prep, new=True):
    np = E.np
    n, P = X0.shape
    Z, v, mx, sx, my, sy = prep
    p = len(keep)
    B, b = m.coef_, m.coef_scaled_
    E.true("shape of coef_", B.shape == (p, 1), str(B.shape))
    E.true("retained columns", [int(k) for k in m.non_zero_scale_vars_] == list(keep), str(m.non_zero_scale_vars_))
    uy = unit(sy)
    E.eq("coef_ in original units", B, [[b[k, 0] * uy[0] / sx[j]] for k, j in enumerate(keep)])
    lin = [vsum([X0[i, j] * B[k, 0] for k, j in enumerate(keep)]) for i in range(n)]
    est = {"mean": vmean, "None": lambda r: 0.0}.get(centre, vmed)
    b0 = est([y0[i] - lin[i] for i in range(n)])
    E.eq("intercept_", np.array(m.intercept_).reshape(-1), [b0])
    if scale != "None" and centre != "None":
        E.eq("intercept_scaled_", m.intercept_scaled_, est([v[i] - vsum([Z[i][j] * b[k, 0] for k, j in enumerate(keep)]) for i in range(n)]))
    fit = [t + b0 for t in lin]
    E.eq("fitted_", np.array(m.fitted_).reshape(-1), fit)
    E.eq("residuals_", np.array(m.residuals_).reshape(-1), [y0[i] - fit[i] for i in range(n)])
    E.eq("predict on the training data", np.array(m.predict(a)).reshape(-1), fit)
    R = lst(m.x_Rweights_)
    Zk = [[r[j] for j in keep] for r in Z]
    E.eq("x_scores_ are scaled data times R", m.x_scores_, mm(Zk, R))
    E.eq("transform(training) is x_scores_", m.transform(a), mm(Zk, R))
    E.eq("x_loc_", m.x_loc_, mx)
    E.eq("x_sca_", m.x_sca_, sx)
    E.eq("y_loc_", m.y_loc_, my)
    E.eq("y_sca_", m.y_sca_, sy)
    if new:
        Q = E.array("z", (2, P), -4, 4)
        want = [[vsum([Q[i, j] * B[k, 0] for k, j in enumerate(keep)]) + b0] for i in range(2)]
        E.eq("predict new", m.predict(Q), want)
        E.eq("predict a frame", m.predict(E.frame(Q)), want)
        E.eq("predict one row", m.predict(Q[0]), want[:1])
        sc = mm([[(Q[i, j] - mx[j]) / sx[j] for j in keep] for i in range(2)], R)
        E.eq("transform new", m.transform(Q), sc)
        E.eq("transform a frame", m.transform(E.frame(Q)), sc)


class Pls:
    """stands for snipls: keeps the problems it was given, answers with the prepared results"""
    answers, calls, conf = [], [], []

    def __init__(self, eta=0.5, n_components=1, verbose=True, columns=False, centre="mean", scale="None", copy=True):
        Pls.conf.append((eta, n_components, centre, scale))

    def fit(self, X, y):
        k = len(Pls.calls)
        Pls.calls.append((X.copy(), y.copy()))
        self.__dict__.update(Pls.answers[min(k, len(Pls.answers) - 1)])
        return self


def answer(E, n, p, h, k, sym):
    r = rng_matrix(n, h, 31 + k)
    T = E.const(r)
    F = E.const([u[0] for u in rng_matrix(n, 1, 41 + k)])
    B = E.const(rng_matrix(p, 1, 51 + k))
    if "t" in sym:
        T[1, 0] = E.scalar("t%d" % k, -48, 48)
    if "f" in sym:
        F[2] = E.scalar("f%d" % k, -2, 2)
    if "b" in sym:
        B[0, 0] = E.scalar("b%d" % k, -2, 2)
    R = E.const(rng_matrix(p, h, 61 + k))
    return dict(x_scores_=T, fitted_=F, coef_=B, x_loadings_=E.const(rng_matrix(p, h, 71 + k)), x_weights_=E.const(rng_matrix(p, h, 81 + k)),
                x_Rweights_=R, C_=E.const(rng_matrix(h, 1, 91 + k)), colret_=list(range(p)), x_ev_=E.const([[50.0]] * h), y_ev_=E.const([[40.0]] * h))


def start(E, Zk, v, y, fun, centre, scale, mode, init):
    """starting weights; the projection on principal components is computed on the fixed X"""
    import numpy as rnp
    n, p = len(Zk), len(Zk[0])
    if init == "pcapp":
        A = rnp.array([[float(c) for c in r] for r in Zk])
        U, S, _ = rnp.linalg.svd(A)
        e = S * S / sum(S * S)
        q = min(n, p)
        bs = [sum(1.0 / k for k in range(j, q + 1)) / q for j in range(1, q + 1)]
        rel = next(i for i in range(q) if e[i] - bs[i] <= 0)
        rel = max(rel, 1)
        Us = E.const(U[:, :rel].tolist())
        m, s = LOC(E, Us, centre), unit(SCA(E, Us, scale))
        D = [[(Us[i, j] - m[j]) / s[j] for j in range(rel)] for i in range(n)]
    else:
        rel, D = p, Zk
    d = [sqrt(E, vsum([c * c for c in r])) for r in D]
    md = vmed(d)
    cx = cutx(rel) if mode == "specific" else cuty(fun)
    wx = [REF[fun](c / md, *cx) for c in d]
    if (centre, scale) == ("median", "mad"):
        u = [abs(c) for c in v]
        wy = [REF[fun](c, *cuty(fun)) for c in u]
    else:
        wy = None   # starting residuals carry their sign there: left open
    return wx, wy, cx


def h_any(E, n, p, h, fun, centre, scale, mode, init, its, sym, seed=5, outlier=False, tol=0.01, exact=(), far=((), ())):
    from direpack.sprm.sprm import sprm
    import sys
    sn = sys.modules["direpack.sprm.snipls"]
    np = E.np
    X, y = make(E, n, p, (), (), seed, -4, 4)
    if outlier:
        y[3] = 40.0
        X[0, 0] = -90.0
    X0, y0 = X.copy(), y.copy()
    prep = zscale(E, X0, y0, centre, scale)
    Z, v = prep[0], prep[1]
    Pls.answers = [answer(E, n, p, h, k, sym[k] if k < len(sym) else "") for k in range(its)]
    for i in exact:
        Pls.answers[0]["fitted_"][i] = v[i]
    for i in far[0]:
        Pls.answers[0]["x_scores_"][i, 0] = 200.0 + 16 * i
    for i in far[1]:
        Pls.answers[0]["fitted_"][i] = 150.0 + 8 * i
    Pls.calls, Pls.conf = [], []
    with E.patch([(sn, "snipls", Pls)]):
        m = sprm(n_components=h, eta=0.25, fun=fun, centre=centre, scale=scale, verbose=False, maxit=its, tol=tol, start_cutoff_mode=mode,
                 start_X_init=init).fit(X, y)
    if Pls.calls:
        E.true("inner PLS settings", all(c[0] == 0.25 and c[1] == h for c in Pls.conf), str(Pls.conf))
        wx, wy, cx = start(E, Z, v, lst(y0), fun, centre, scale, mode, init)
        w = None if wy is None else floor([a * c for a, c in zip(wx, wy)])
        old = 1e-5
        for k, (A, c) in enumerate(Pls.calls):
            if w is None:   # first step with signed residuals: take the weights from the call
                w = []
                for i in range(n):
                    j = max(range(p), key=lambda t: abs(float(Z[i][t])))
                    w.append(A[i, j] / Z[i][j] * (A[i, j] / Z[i][j]))
            q = [sqrt(E, a) for a in w]
            E.eq("weighted X of step %d" % (k + 1), A, [[Z[i][j] * q[i] for j in range(p)] for i in range(n)])
            E.eq("weighted y of step %d" % (k + 1), np.array(c).reshape(-1), [v[i] * q[i] for i in range(n)])
            ans = Pls.answers[min(k, its - 1)]
            r = [abs(v[i] - ans["fitted_"][i]) for i in range(n)]
            nz = [t for t in r if t != 0]
            s = vmed(r if 2 * len(nz) > n or not nz else nz)
            E.assume(s, ">", 0.015625)
            wy = [REF[fun](t / (1.4826 * s), *cuty(fun)) for t in r]
            D = dist(E, [[ans["x_scores_"][i, j] / q[i] for j in range(h)] for i in range(n)], centre, scale)
            cc = cutx(h) if fun == "Hampel" else cx
            wt = [REF[fun](t, *cc) for t in D]
            w = floor([a * d for a, d in zip(wt, wy)])
            dead = [i for i in range(n) if wt[i] * wy[i] < 1e-06]
            b = lst(ans["coef_"])
            new = vsum([t[0] * t[0] for t in b])
            if len(dead) >= n / 2:
                E.true("no step after half of the cases are out", k == len(Pls.calls) - 1)
                break
            conv = abs(new - old) / old
            if k < len(Pls.calls) - 1:
                E.ge("continues only while not converged", conv, tol)
            elif k + 1 < its:
                E.le("stops early only when converged", conv, tol)
            old = new
        z = lambda u: [0.0 if i in dead else u[i] for i in range(n)]
        E.eq("x_caseweights_", np.array(m.x_caseweights_).reshape(-1), z(wt))
        E.eq("y_caseweights_", np.array(m.y_caseweights_).reshape(-1), z(wy))
        E.eq("caseweights_", np.array(m.caseweights_).reshape(-1), z([a * d for a, d in zip(wt, wy)]))
        E.eq("coef_scaled_", m.coef_scaled_, ans["coef_"])
        for at in ("x_loadings_", "x_weights_", "x_Rweights_", "C_"):
            E.eq(at, getattr(m, at), ans[at])
    E.ge("case weights >= 0", m.caseweights_, 0.0)
    E.le("case weights <= 1", m.caseweights_, 1.0)
    model(E, m, X, X0, y0, centre, scale, list(range(p)), prep, new=not any(sym))
    E.eq("X untouched", X, X0)
    E.eq("y untouched", y, y0)


def quiet(f, *a):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a)


def h_real(E, n, p, h, eta, fun, centre, scale, mode="specific", init="pcapp", maxit=8, yc=(), seed=5, lo=-4, hi=4, kind="vec", const=(),
           outlier=False, ysame=0):
    from direpack.sprm.sprm import sprm
    from direpack.sprm.snipls import snipls
    np = E.np
    X, y = make(E, n, p, (), yc, seed, lo, hi)
    if outlier:
        y[3] = 30.0
        X[0, 0] = -40.0
    for k, j in enumerate(const):
        X[:, j] = 1.5 - k
        if k == 1:
            X[0, j] = 9.0   # not constant, but its mad is zero
    for i in range(ysame):
        y[i] = 0.5
    X0, y0 = X.copy(), y.copy()
    prep = zscale(E, X0, y0, centre, scale)
    Z, v = prep[0], prep[1]
    sx = prep[3]
    keep = [j for j in range(p) if not sx[j] < 1e-5]
    a, c = (X, y) if kind == "vec" else (X, y.reshape((-1, 1))) if kind == "col" else (E.frame(X), E.series(y)) if kind == "series" \
        else (E.frame(X), E.frame(y.reshape((-1, 1))))
    m = sprm(n_components=h, eta=eta, fun=fun, centre=centre, scale=scale, verbose=False, maxit=maxit, start_cutoff_mode=mode, start_X_init=init)
    quiet(m.fit, a, c)
    model(E, m, a, X0, y0, centre, scale, keep, prep, new=len(yc) == 0)
    E.ge("case weights >= 0", m.caseweights_, 0.0)
    E.le("case weights <= 1", m.caseweights_, 1.0)
    ret = [int(k) for k in m.colret_]
    for k in range(len(keep)):
        if k not in ret:
            E.eq("no coefficient outside the retained columns", m.coef_[k, 0], 0.0)
    if maxit == 1 and (centre, scale) == ("median", "mad"):
        Zk = [[r[j] for j in keep] for r in Z]
        wx, wy, _ = start(E, Zk, v, lst(y0), fun, centre, scale, mode, init)
        q = [sqrt(E, t) for t in floor([s * t for s, t in zip(wx, wy)])]
        ref = snipls(eta=eta, n_components=h, verbose=False).fit(np.array([[t * q[i] for t in Zk[i]] for i in range(n)]),
                                                                np.array([v[i] * q[i] for i in range(n)]))
        E.eq("coefficients of PLS on the weighted data", m.coef_scaled_, ref.coef_)
    w = m.weightnewx(X)
    E.true("one weight per new case", np.array(w).shape == (n,), str(np.array(w).shape))
    E.ge("weights of new cases >= 0", w, 0.0)
    E.le("weights of new cases <= 1", w, 1.0)
    E.eq("X untouched", X, X0)
    E.eq("y untouched", y, y0)


def h_units(E, n, p, h, eta, fun, centre, scale, init, maxit=1, seed=5):
    from direpack.sprm.sprm import sprm
    X, y = make(E, n, p, (), (), seed, -4, 4)
    k = dict(n_components=h, eta=eta, fun=fun, centre=centre, scale=scale, maxit=maxit, verbose=False, start_X_init=init)
    m0 = sprm(**k).fit(X, y)
    a, c = E.scalar("a", 0.25, 4), E.scalar("c", -4, 4)
    d, e = E.scalar("d", 0.25, 4), E.scalar("e", -4, 4)
    j = p - 1
    X2 = X.copy()
    X2[:, j] = X[:, j] * d + e
    m = sprm(**k).fit(X2, y * a + c)
    E.eq("fitted_ follows the units", m.fitted_, [[m0.fitted_[i, 0] * a + c] for i in range(n)])
    E.eq("case weights do not depend on units", m.caseweights_, m0.caseweights_)
    E.eq("coef_ follows the units", m.coef_, [[m0.coef_[i, 0] * a / (d if i == j else 1.0)] for i in range(p)])
    E.eq("scores do not depend on units", m.x_scores_, m0.x_scores_)


def r2(yt, yp, sample_weight=None, **k):
    """the coefficient of determination (sklearn's r2_score does not take symbolic values)"""
    yt, yp = lst(yt.reshape(-1)), lst(yp.reshape(-1))
    w = [1.0] * len(yt) if sample_weight is None else lst(sample_weight.reshape(-1))
    mu = vsum([a * b for a, b in zip(w, yt)]) / vsum(w)
    return 1 - vsum([a * (b - c) * (b - c) for a, b, c in zip(w, yt, yp)]) / vsum([a * (b - mu) * (b - mu) for a, b in zip(w, yt)])


def h_params(E, what):
    from direpack.sprm.sprm import sprm
    from direpack.utils.utils import MyException
    X, y = make(E, 6, 3, [(0, 0)], [1], 3, -4, 4)
    bad = lambda lab, X=X, y=y, **k: E.raises("refuses " + lab, MyException, sprm(verbose=False, **k).fit, X, y)
    if what == "cols":
        X, y = make(E, 6, 3, (), (), 3, -4, 4)
        m = sprm(n_components=1, verbose=False).fit(X, y)
        for q in (2, 4):
            Q = E.array("z%d" % q, (3, q))
            for f in ("predict", "transform", "weightnewx"):
                E.raises("%s refuses %d columns" % (f, q), ValueError, getattr(m, f), Q)
        E.raises("valscore refuses 2 columns", ValueError, m.valscore, E.array("q", (3, 2)), E.array("yq", 3), "normal")
        E.raises("valscore refuses unknown flag", ValueError, m.valscore, X, y, "other")
    elif what == "params":
        bad("other number of cases", y=y[:5])
        bad("unknown weight function", fun="Tukey")
        bad("too many components", n_components=4)
        bad("zero components", n_components=0)
        bad("eta=1", eta=1.0)
        bad("eta<0", eta=-0.25)
        bad("probp1=0", fun="Huber", probp1=0.0)
        bad("probp1>1", fun="Fair", probp1=1.5)
        for t in [(0.95, 0.9, 0.99), (0.9, 0.99, 0.95), (0.9, 0.95, 1.1), (0.95, 0.95, 0.99)]:
            bad("cut-offs %s" % (t,), probp1=t[0], probp2=t[1], probp3=t[2])
        bad("names without a frame", columns=True)
    elif what == "score":
        X, y = make(E, 6, 3, (), (), 3, -4, 4)
        m = sprm(n_components=1, verbose=False, maxit=1).fit(X, y)
        yn = E.array("yn", 6, -2, 2)
        P = [m.predict(X)[i, 0] for i in range(6)]
        for how in ("normal", "weighted"):
            w = [1.0] * 6 if how == "normal" else lst(E.np.array(m.caseweights_).reshape(-1))
            sw = vsum(w)
            my = vsum([w[i] * yn[i] for i in range(6)]) / sw
            tot = vsum([w[i] * (yn[i] - my) * (yn[i] - my) for i in range(6)])
            E.assume(tot, ">", 0.0625)
            rss = vsum([w[i] * (yn[i] - P[i]) * (yn[i] - P[i]) for i in range(6)])
            with E.patch([(sklearn.metrics, "r2_score", r2)]):
                E.eq("valscore " + how, m.valscore(X, yn, how), 1 - rss / tot)
    elif what == "nocopy":
        X, y = make(E, 6, 3, (), (), 3, -4, 4)
        k = dict(n_components=2, verbose=False)
        m0, m = sprm(**k).fit(X, y), sprm(copy=False, **k).fit(X, y)
        Q = E.array("z", (2, 3))
        E.eq("copy=False gives the same predictions", m.predict(Q), m0.predict(Q))
        E.eq("copy=False gives the same scores", m.transform(Q), m0.transform(Q))
        E.eq("and the same new weights", m.weightnewx(X), m0.weightnewx(X))
    elif what == "refit":
        k = dict(n_components=2, eta=0.4, verbose=False)
        X, y = make(E, 7, 3, (), (), 3, -4, 4)
        Xc, yc = make(E, 8, 4, (), (), 9, -4, 4)
        Xc[:, 2] = 3.0
        m0 = sprm(columns=True, **k).fit(E.frame(X, columns=["a", "b", "c"]), y)
        m = sprm(columns=True, **k)
        quiet(m.fit, E.frame(Xc, columns=["p", "q", "r", "s"]), yc)
        m.weightnewx(Xc)
        m.fit(E.frame(X, columns=["a", "b", "c"]), y)
        for at in ("coef_", "intercept_", "fitted_", "residuals_", "caseweights_", "x_scores_", "non_zero_scale_vars_"):
            E.eq("refit forgets: " + at, getattr(m, at), getattr(m0, at))
        E.true("refit forgets the names", [str(t) for t in m.colret_] == [str(t) for t in m0.colret_], str((m.colret_, m0.colret_)))
        Q = E.array("z", (2, 3))
        E.eq("same predictions", m.predict(Q), m0.predict(Q))
    elif what == "names":
        X, y = make(E, 8, 4, (), (), 9, -4, 4)
        X[:, 1] = 3.0
        names = ["aa", "bb", "cc", "dd"]
        k = dict(n_components=1, eta=0.7, verbose=False)
        m0, m1, m2 = sprm(**k), sprm(columns=list(names), **k), sprm(columns=True, **k)
        quiet(m0.fit, X, y)
        quiet(m1.fit, X, y)
        quiet(m2.fit, E.frame(X, columns=names), y)
        left = [names[j] for j in (0, 2, 3)]
        want = [left[int(j)] for j in m0.colret_]
        E.true("names given as a list", [str(t) for t in m1.colret_] == want, str((m1.colret_, want)))
        E.true("names of the frame", [str(t) for t in m2.colret_] == want, str((m2.colret_, want)))
        Q = E.array("z", (1, 4))
        E.eq("same predictions", m1.predict(Q), m0.predict(Q))
        E.eq("same predictions from a frame", m2.predict(Q), m0.predict(Q))


def cases(tier):
    T = tier == "thorough"
    out = []
    conf = [("median", "mad"), ("mean", "std"), ("mean", "mad"), ("median", "std"), ("mean", "None"), ("None", "None")]
    b = 400 if T else 25
    for fun in FUNS:
        for i, (centre, scale) in enumerate(conf):
            for init in ("pcapp", "all"):
                if scale == "None" and init == "pcapp" and centre == "None" and not T:
                    continue
                for mode in ("specific", "other"):
                    if not T and mode == "other" and i > 0:
                        continue
                    nm = "%s-%s-%s-%s-%s" % (fun, centre, scale, init, mode)
                    k = dict(fun=fun, centre=centre, scale=scale, mode=mode, init=init)
                    full = T or (mode == "specific" and (fun == "Hampel" or i == 1 or (i == 0 and init == "all" and fun == "Huber")))
                    if full:
                        out.append(Case("fb-" + nm, h_any, "n=5 p=2 h=1, any fitted value and coefficient of the inner PLS in [-2,2]", budget=b, n=5, p=2,
                                        h=1, its=1, sym=["fb"], **k))
                    if T or (full and i < 2 and fun == "Hampel"):
                        out.append(Case("t-" + nm, h_any, "n=5 p=2 h=1, any score entry of the inner PLS in [-48,48]", budget=b, n=5, p=2, h=1, its=1,
                                        sym=["t"], **k))
                    if full:
                        out.append(Case("out2-" + nm, h_any, "n=6 p=3 h=2 with outliers, two steps, free fitted value in the second", budget=b, n=6, p=3, h=2,
                                        its=2, sym=["", "f"], seed=7, outlier=True, **k))
                        out.append(Case("conv3-" + nm, h_any, "n=6 p=2 h=1, three steps, free coefficient in the second", budget=b, n=6, p=2, h=1,
                                        its=3, sym=["", "b"], seed=7, tol=0.5, **k))
                    for h, eta in [(1, 0.6), (2, 0.3), (3, 0.0)]:
                        if T or (i + h) % 3 == 0 or mode == "other":
                            out.append(Case("real-%d-" % h + nm, h_real, "n=8 p=4 fixed data, up to 8 steps, free new cases", budget=b, n=8, p=4, h=h, eta=eta,
                                            seed=8, **k))
                    out.append(Case("realout-" + nm, h_real, "n=8 p=3 fixed data with outliers", budget=b, n=8, p=3, h=2, eta=0.2, seed=8, outlier=True, **k))
    for fun in FUNS:
        for centre, scale in [("mean", "std"), ("median", "mad")]:
            k = dict(fun=fun, centre=centre, scale=scale, budget=b)
            out.append(Case("const-%s-%s" % (fun, centre), h_real, "n=8 p=4, a constant column and one whose mad is zero, free new cases", n=8, p=4, h=2,
                            eta=0.2, seed=8, const=(1, 3) if scale == "mad" else (1,), **k))
            if T:
                out.append(Case("y1-%s-%s" % (fun, centre), h_real, "n=6 p=2 one free y, one step", n=6, p=2, h=1, eta=0.3, maxit=1, yc=[2],
                                lo=0.5, hi=0.75, init="all", **k))
            for init in ("pcapp", "all"):
                out.append(Case("units-%s-%s-%s" % (fun, centre, init), h_units, "n=6 p=2 fixed data; free units", n=6, p=2, h=1, eta=0.3, init=init, **k))
    for fun in FUNS:
        k = dict(fun=fun, centre="mean", scale="None", mode="other", init="all", budget=b)
        for n, ex in [(6, (0, 2, 3)), (6, (0, 2)), (5, (0, 2, 3)), (8, (0, 1, 2, 3, 5))]:
            out.append(Case("exact-%s-%d-%d" % (fun, n, len(ex)), h_any, "n=%d p=2 h=1, %d cases fitted exactly" % (n, len(ex)), n=n, p=2, h=1, its=2, sym=[], exact=ex, **k))
        out.append(Case("rates-" + fun, h_any, "n=6 p=2 h=1, six steps, fixed answers", n=6, p=2, h=1, its=6, sym=[], tol=0.125, **k))
        k.update(centre="median", scale="mad")
        for n, fx, fy in [(8, (0, 1), (2, 3)), (8, (0, 1), (2,)), (9, (0, 1), (2, 3)), (9, (0, 1, 4), (2, 3)), (10, (0, 1, 4), (2, 3))]:
            out.append(Case("far-%s-%d-%d%d" % (fun, n, len(fx), len(fy)), h_any, "n=%d, %d cases far in the scores, %d in the residuals" % (n, len(fx), len(fy)), n=n, p=3, h=2,
                            its=3, sym=[], far=(fx, fy), **k))
    for n, p, h in [(5, 8, 2), (4, 6, 2)]:
        for init in ("pcapp", "all"):
            out.append(Case("wide-%d-%d-%s" % (n, p, init), h_real, "n=%d p=%d h=%d, more columns than cases" % (n, p, h), budget=b, n=n, p=p, h=h, eta=0.3, fun="Huber",
                            centre="mean", scale="std", init=init))
    out.append(Case("ysame", h_real, "n=9 p=3, y has zero mad", budget=60, n=9, p=3, h=1, eta=0.2, fun="Huber", centre="median", scale="mad", ysame=6))
    for kind in ("col", "frame", "series"):
        out.append(Case("kind-" + kind, h_real, "n=8 p=3 fixed data", budget=60, n=8, p=3, h=2, eta=0.3, fun="Huber", centre="median", scale="mad", kind=kind))
    for w in ("cols", "params", "score", "nocopy", "refit", "names"):
        out.append(Case("check-" + w, h_params, "n<=8 p<=4", budget=60, what=w))
    return out
