"""VersatileScaler: fit / transform / predict / fit_transform law."""
import types
from checks.common import *
from engine.harness import Case

ASSUMPTIONS = ["data entries range over [-8,8]; n<=5 rows, p<=3 columns; l1median/kstepLTS/scaleTau2 estimates are "
               "covered through the callable route (any estimator, symbolic estimate)"]


def ref(X, m, s):
    s = unit(list(s))
    return [[(X[i, j] - m[j]) / s[j] for j in range(X.shape[1])] for i in range(X.shape[0])]


def h_train(E, n, p, center, scale, trimming=0):
    """what is stored at fit and what comes out for the training data"""
    from direpack.preprocessing.robcent import VersatileScaler, versatile_scale
    X = E.array("x", (n, p))
    X0 = X.copy()
    m, s = LOC(E, X, center, trimming), SCA(E, X, scale, trimming)
    vs = VersatileScaler(center=center, scale=scale, trimming=trimming)
    Xs = vs.fit_transform(X)
    R = ref(X0, m, s)
    E.eq("center_", vs.center_, m)
    E.eq("scale_", vs.scale_, s)
    E.eq("col_loc_", vs.col_loc_, m)
    E.eq("col_sca_", vs.col_sca_, s)
    E.eq("fit_transform", Xs, R)
    E.eq("datas_", vs.datas_, R)
    E.eq("input untouched", X, X0)
    vs2 = VersatileScaler(center=center, scale=scale, trimming=trimming)
    vs2.fit(X)
    E.eq("fit then transform", vs2.transform(X), R)
    E.eq("versatile_scale", versatile_scale(X, center=center, scale=scale, trimming=trimming), R)


def h_big(E, n, p, cells, center, scale, trimming=0, lo=-8, hi=8):
    """larger data: fixed numbers with a few symbolic cells; new data symbolic"""
    from direpack.preprocessing.robcent import VersatileScaler
    X = mix(E, "x", n, p, 17 + n + p, cells, lo, hi)
    m, s = LOC(E, X, center, trimming), SCA(E, X, scale, trimming)
    vs = VersatileScaler(center=center, scale=scale, trimming=trimming)
    E.eq("fit_transform", vs.fit_transform(X), ref(X, m, s))
    E.eq("center_", vs.center_, m)
    E.eq("scale_", vs.scale_, s)
    Y = mix(E, "y", 7, p, 5, [(0, 0), (6, p - 1)])
    E.eq("transform new", vs.transform(Y), ref(Y, m, s))
    E.eq("predict new", vs.predict(Y), ref(Y, m, s))
    one = mix(E, "z", 1, p, 6, [(0, p - 1)])
    E.eq("transform one row", vs.transform(one), ref(one, m, s))


def h_new(E, n, p, k, center, scale, kind="array", callables=False):
    """new data are standardised with the training estimates, whatever those data are"""
    from direpack.preprocessing.robcent import VersatileScaler, versatile_scale
    m, s = E.array("m", p), E.array("s", p, lo=0, hi=8)
    rec = []
    if callables:
        def cf(X, trimming=0):
            rec.append(("c", trimming))
            return E.np.array(m)

        def sf(X, trimming=0):
            rec.append(("s", trimming))
            return E.np.array(s)
        X = E.const(rng_matrix(n, p, 3))
        vs = VersatileScaler(center=cf, scale=sf, trimming=0.1)
    else:
        X = E.array("x", (n, p))
        vs = VersatileScaler(center=center, scale=scale)
    vs.fit(X)
    if callables:
        E.true("estimators receive the trimming fraction", {k for k, _ in rec} == {"c", "s"} and all(t == 0.1 for _, t in rec), str(rec))
        E.eq("center_", vs.center_, m)
        E.eq("scale_", vs.scale_, s)
        c0, s0 = m, s
    else:
        c0, s0 = LOC(E, X, center), SCA(E, X, scale)
    Y = E.array("y", (k, p))
    Y0 = Y.copy()
    R = ref(Y0, c0, s0)
    arg = E.frame(Y) if kind == "frame" else Y
    E.eq("transform new", vs.transform(arg), R)
    E.eq("predict new", vs.predict(arg), R)
    E.eq("new data untouched", Y, Y0)
    E.eq("center_ after transform", vs.center_, c0)
    E.eq("scale_ after transform", vs.scale_, s0)
    E.eq("transform again", vs.transform(Y), R)
    if callables:
        E.eq("versatile_scale with callables", versatile_scale(X, center=cf, scale=sf, trimming=0.1),
             ref(X, m, s))


def h_named(E, n, p, center, scale, trimming=0):
    """the estimators by their names are the functions of those names; the fit belongs to them"""
    import scipy.optimize as spo
    from direpack.preprocessing.robcent import VersatileScaler, versatile_scale
    from direpack.preprocessing import _preproc_utilities as u
    X = E.const(rng_matrix(n, p, 41))
    ans = E.array("ans", p, -2, 2) if center == "l1median" else E.const([0.25, -0.5, 0.125][:p])
    with E.patch([(spo, "minimize", lambda *a, **k: types.SimpleNamespace(x=ans.copy(), success=True, fun=0.0))]):
        f = lambda w: getattr(u, w)(X) if w in ("l1median", "kstepLTS", "scaleTau2") else LOC(E, X, w, trimming) if w == center else SCA(E, X, w, trimming)
        m, s = f(center), f(scale)
        vs = VersatileScaler(center=center, scale=scale, trimming=trimming)
        E.eq("fit_transform", vs.fit_transform(X), ref(X, lst(E.np.array(m).reshape(-1)), lst(E.np.array(s).reshape(-1)) if scale != "scaleTau2" else [s[j] if getattr(s, "ndim", 0) else s for j in range(p)]))
        E.eq("versatile_scale", versatile_scale(X, center=center, scale=scale, trimming=trimming), vs.datas_)
    if center == "l1median":
        E.eq("centre is the optimiser's answer", vs.center_, ans)
    Q = E.array("q", (2, p), -4, 4)
    E.eq("transform new", vs.transform(Q), [[(Q[i, j] - vs.center_[j]) / (vs.scale_[j] if getattr(vs.scale_, "ndim", 0) else vs.scale_) for j in range(p)] for i in range(2)])


def h_ints(E, n, p, center, scale):
    """integer data are standardised like the same numbers written with a decimal point"""
    from direpack.preprocessing.robcent import VersatileScaler, versatile_scale
    A = int_matrix(n, p, 51)
    X, X0 = E.ints(A), E.const(A)
    m, s = LOC(E, X0, center), SCA(E, X0, scale)
    vs = VersatileScaler(center=center, scale=scale)
    E.eq("fit_transform", vs.fit_transform(X), ref(X0, m, s))
    E.eq("transform integers", vs.transform(E.ints(A[:3])), ref(X0, m, s)[:3])
    E.eq("predict integers", vs.predict(E.ints(A[:3])), ref(X0, m, s)[:3])
    E.eq("versatile_scale", versatile_scale(X, center=center, scale=scale), ref(X0, m, s))
    Q = E.array("q", (2, p), -4, 4)
    E.eq("transform new", vs.transform(Q), ref(Q, m, s))
    E.eq("data untouched", E.np.array(X) * 1.0, X0)


def h_cols(E, p, q):
    """a wrong number of columns is refused"""
    from direpack.preprocessing.robcent import VersatileScaler
    X = E.array("x", (3, p))
    Y = E.array("y", (4, q))
    vs = VersatileScaler(center="mean", scale="None")
    vs.fit(X)
    E.raises("transform refuses", ValueError, vs.transform, Y)
    E.raises("predict refuses", ValueError, vs.predict, Y)


def h_vec(E, n, center, scale):
    """one variable, passed as a vector or a series, is one column"""
    from direpack.preprocessing.robcent import VersatileScaler
    X = E.array("x", n)
    col = X.reshape((-1, 1))
    R = ref(col, LOC(E, col, center), SCA(E, col, scale))
    for a in (X, E.series(X), col):
        vs = VersatileScaler(center=center, scale=scale)
        E.eq("vector", vs.fit_transform(a), R)


def h_zero(E, n, center, scale, value=None, trimming=0):
    """a constant column is centred and left on its own scale"""
    from direpack.preprocessing.robcent import VersatileScaler
    a = E.scalar("a") if value is None else value
    v = E.array("v", n) if value is None else [r[0] for r in rng_matrix(n, 1, 8)]
    X = E.np.array([[v[i], a] for i in range(n)])
    Y = E.array("y", (2, 2))
    vs = VersatileScaler(center=center, scale=scale, trimming=trimming)
    Xs = vs.fit_transform(X)
    E.eq("zero scale kept as estimate", vs.scale_[1], 0.0)
    E.eq("constant column", Xs[:, 1], [0.0] * n)
    E.eq("new data of constant column", vs.transform(Y)[:, 1], [Y[0, 1] - a, Y[1, 1] - a])
    E.eq("new data of constant column predict", vs.predict(Y)[:, 1], [Y[0, 1] - a, Y[1, 1] - a])


def h_trim(E):
    from direpack.preprocessing.robcent import VersatileScaler
    t = E.scalar("t", -2, 3)
    X = E.const([[1.0, 2.0], [3.0, 5.0], [4.0, 1.0]])
    E.assume(t, "!=", 0)
    vs = VersatileScaler(center="median", scale="mad", trimming=t)
    bad = bool(t < 0) or bool(t > 0.99)
    if bad:
        E.raises("trimming outside [0,1) refused", ValueError, vs.fit, X)
    else:
        vs.fit(X)
        E.eq("median ignores trimming", vs.center_, [3.0, 2.0])


def cases(tier):
    T = tier == "thorough"
    out = []
    B = "n=%d rows, p=%d columns, all %d entries symbolic in [-8,8]"
    combos = [("mean", "std"), ("median", "mad"), ("mean", "None"), ("None", "std"), ("None", "None"),
              ("median", "std"), ("mean", "mad"), ("None", "mad"), ("median", "None")]
    for c, s in combos:
        sizes = [(3, 1), (3, 2)] + ([(4, 1)] if c != "None" else [])
        if T:
            sizes += [(4, 1), (5, 1), (2, 3), (4, 2)]
        for n, p in sizes:
            out.append(Case("train-%s-%s-%dx%d" % (c, s, n, p), h_train, B % (n, p, n * p), n=n, p=p, center=c,
                            scale=s, budget=300 if T else 60, max_paths=6000))
    for t, n in [(0.25, 4), (0.4, 5)] if T else [(0.25, 4)]:
        out.append(Case("train-trimmed-%s-%d" % (t, n), h_train, B % (n, 1, n), n=n, p=1, center="mean",
                        scale="std", trimming=t, budget=100))
    out.append(Case("train-trimmed-0.34-3x2", h_train, B % (3, 2, 6), n=3, p=2, center="mean",
                    scale="std", trimming=0.34, budget=100))
    for n, p, k in [(4, 2, 1), (4, 2, 3), (3, 3, 1), (3, 1, 2), (3, 1, 1), (4, 3, 2)]:
        for kind in ("array", "frame"):
            out.append(Case("new-callable-%dx%d-%d-%s" % (n, p, k, kind), h_new,
                            "any estimates m in [-8,8]^%d, s in [0,8]^%d, %d new rows symbolic" % (p, p, k), n=n, p=p,
                            k=k, center=None, scale=None, callables=True, kind=kind))
    for c, s in [("mean", "std"), ("median", "mad"), ("None", "None")]:
        out.append(Case("new-%s-%s-3x2-1" % (c, s), h_new, B % (3, 2, 6) + ", one new row", n=3, p=2, k=1, center=c,
                        scale=s))
        out.append(Case("new-%s-%s-3x2-2" % (c, s), h_new, B % (3, 2, 6) + ", two new rows", n=3, p=2, k=2, center=c,
                        scale=s))
        out.append(Case("vector-%s-%s" % (c, s), h_vec, "n=3", n=3, center=c, scale=s))
        if s != "None":
            out.append(Case("constcol-%s-%s" % (c, s), h_zero, "n=3, constant column", n=3, center=c, scale=s))
    for v in (0.1, 0.7, 1234.56789):
        for c, s, t in [("mean", "std", 0), ("median", "std", 0), ("mean", "mad", 0), ("mean", "std", 0.2)]:
            for n in (3, 6, 10):
                out.append(Case("decimal-%s-%s-%s-%d-%s" % (c, s, t, n, v), h_zero, "n=%d, a constant column of %s, new data symbolic" % (n, v), n=n, center=c,
                                scale=s, value=v, trimming=t))
    for p, q in [(3, 2), (2, 3), (2, 1), (1, 2)]:
        out.append(Case("columns-%d-%d" % (p, q), h_cols, "fit on %d, new data with %d columns" % (p, q), p=p, q=q))
    for c, s, t in [("mean", "std", 0), ("median", "mad", 0), ("mean", "std", 0.1), ("median", "None", 0), ("None", "mad", 0)]:
        for n, p, cells in [(12, 4, [(5, 2)]), (25, 3, [(24, 1)]), (9, 6, [(8, 5)])]:
            out.append(Case("big-%s-%s-%s-%dx%d" % (c, s, t, n, p), h_big,
                            "fixed %dx%d data with %d symbolic cells in [-8,8]" % (n, p, len(cells)), n=n, p=p,
                            cells=cells, center=c, scale=s, trimming=t))
        for n, p, cells in [(60, 2, [(30, 1)]), (80, 1, [(7, 0)]), (14, 15, [(3, 11)])] if T or not t else [(40, 1, [(30, 0)])]:
            out.append(Case("large-%s-%s-%s-%dx%d" % (c, s, t, n, p), h_big, "fixed %dx%d data with %d symbolic cells in [-1/32,1/32]" % (n, p, len(cells)), n=n, p=p,
                            cells=cells, center=c, scale=s, trimming=t, lo=-0.03125, hi=0.03125))
        if not t:
            out.append(Case("ints-%s-%s" % (c, s), h_ints, "fixed integers 7x3, symbolic new data", n=7, p=3, center=c, scale=s))
    for c, s in [("l1median", "mad"), ("l1median", "std"), ("kstepLTS", "std"), ("kstepLTS", "None"), ("median", "scaleTau2"), ("kstepLTS", "scaleTau2")]:
        out.append(Case("named-%s-%s" % (c, s), h_named, "fixed data, symbolic new data, any answer of the optimiser", n=9, p=1 if s == "scaleTau2" else 3, center=c, scale=s))
    out.append(Case("trimming-range", h_trim, "trimming in [-2,3]"))
    return out
