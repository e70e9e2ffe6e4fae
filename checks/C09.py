"""snipls: PLS structure of scores, weights, loadings, sparsity and explained variance."""
import numpy
from checks.common import *
from checks.C08 import data, nonzero
from engine.harness import Case

ASSUMPTIONS = ["fixed data with one or two symbolic cells, n<=6, p<=3, h<=3; X'y of the centred data is not zero"]


def scaled(E, X, y, centre, scale):
    n, p = X.shape
    m, s = LOC(E, X, centre), unit(SCA(E, X, scale))
    yy = y.reshape((-1, 1))
    my, sy = LOC(E, yy, centre), unit(SCA(E, yy, scale))
    return ([[(X[i, j] - m[j]) / s[j] for j in range(p)] for i in range(n)], [(y[i] - my[0]) / sy[0] for i in range(n)])


def h_pls(E, n, p, h, eta, centre, scale, xc=(), yc=(), seed=5, ylo=-4, yhi=4, what="all"):
    from direpack.sprm.snipls import snipls
    X, y = data(E, n, p, list(xc), yc, seed, ylo, yhi)
    nonzero(E, X, y, centre)
    Z, v = scaled(E, X, y, centre, scale)
    g = [vsum([Z[i][j] * v[i] for i in range(n)]) for j in range(p)]
    if (xc or yc) and h > 1:
        # the second component exists: after removing the first (unthresholded) one, covariance is left
        t1 = [dot(r, g) for r in Z]
        c1 = dot(t1, v)
        tt = dot(t1, t1)
        y2 = [v[i] * tt - t1[i] * c1 for i in range(n)]
        g2 = [vsum([Z[i][j] * y2[i] for i in range(n)]) for j in range(p)]
        E.assume(dot(g2, g2), ">", tt * tt / 16)
    m = snipls(eta=eta, n_components=h, verbose=False, centre=centre, scale=scale).fit(X, y)
    W, T, P, C, B, R = (lst(a) for a in (m.x_weights_, m.x_scores_, m.x_loadings_, m.C_, m.coef_scaled_, m.x_Rweights_))
    ret = [int(k) for k in m.colret_]
    col = lambda A, k: [r[k] for r in A]
    # first component: soft thresholded covariance direction
    mx = E.np.max(E.np.array([abs(q) for q in g]))
    nrm = sqrt(E, vsum([q * q for q in g]))
    w1 = []
    for j in range(p):
        t = abs(g[j]) - eta * mx
        w1.append(E.np.sign(g[j]) * t / nrm if t > 0 else 0.0)
        if t > 0.001:
            E.true("column above the threshold is retained", j in ret, str((j, ret)))
        elif t < -0.001 and h == 1:
            E.true("column below the threshold is dropped", j not in ret, str((j, ret)))
    E.eq("first weight vector", col(W, 0), w1)
    for a in range(h):
        ta = col(T, a)
        for b in range(a):
            E.eq("orthogonal scores", dot(ta, col(T, b)), 0.0)
        E.eq("inner relation", C[a][0] * dot(ta, ta), dot(ta, v))
        for j in range(p):
            if j in ret:
                E.eq("loadings", P[j][a] * dot(ta, ta), vsum([Z[i][j] * ta[i] for i in range(n)])) if eta == 0 else None
            else:
                E.eq("no weight outside the retained columns", W[j][a], 0.0)
                E.eq("no loading outside the retained columns", P[j][a], 0.0)
        E.eq("y_ev_", m.y_ev_[a, 0] * dot(v, v), 100 * C[a][0] * C[a][0] * dot(ta, ta))
        E.eq("x_ev_", m.x_ev_[a, 0] * vsum([dot(r, r) for r in Z]), 100 * dot(ta, ta) * dot(col(P, a), col(P, a)))
    for j in range(p):
        if j not in ret:
            E.eq("no coefficient outside the retained columns", B[j][0], 0.0)
            E.eq("no original-unit coefficient outside", m.coef_[j, 0], 0.0)
    # the coefficients solve the normal equations within the span of the weights
    res = [v[i] - vsum([Z[i][j] * B[j][0] for j in range(p)]) for i in range(n)]
    for a in range(h):
        E.eq("normal equations on the weights", vsum([W[j][a] * vsum([Z[i][j] * res[i] for i in range(n)]) for j in range(p)]), 0.0)
    if eta == 0 or h == 1:
        E.eq("transform(training) is x_scores_", m.transform(X), T)
        E.eq("scores are scaled data times R", mm(Z, R), T)
    if eta == 0:
        E.eq("coefficients are R C", mm(R, C), B)
        if h == p:
            E.eq("all components: least squares", [vsum([Z[i][j] * res[i] for i in range(n)]) for j in range(p)], [0.0] * p)
            E.eq("all components: X fully explained", vsum([m.x_ev_[a, 0] for a in range(h)]), 100.0)
    Q = E.array("z", (1, p), -4, 4) if len(xc) + len(yc) <= 1 else None
    if Q is not None:
        mu, s = LOC(E, X, centre), unit(SCA(E, X, scale))
        E.eq("transform new", m.transform(Q), mm([[(Q[0, j] - mu[j]) / s[j] for j in range(p)]], R))


def h_cumulative(E, n, p, eta, seed):
    """sparse sets grow with the number of components; the first components do not depend on h"""
    from direpack.sprm.snipls import snipls
    X, y = data(E, n, p, [], [1], seed, 0.25, 0.75)
    nonzero(E, X, y, "mean")
    a = snipls(eta=eta, n_components=1, verbose=False, scale="None").fit(X, y)
    b = snipls(eta=eta, n_components=2, verbose=False, scale="None").fit(X, y)
    E.true("retained set grows", set(map(int, a.colret_)) <= set(map(int, b.colret_)))
    E.eq("first weights do not depend on h", b.x_weights_[:, 0], a.x_weights_[:, 0])
    E.eq("first scores do not depend on h", b.x_scores_[:, 0], a.x_scores_[:, 0])


def reference(Z, v, h, eta):
    """components by definition: on the columns retained so far, the thresholded covariance direction of the deflated data"""
    A, b = numpy.array(Z, float), numpy.array(v, float)
    n, p = A.shape
    keep, W, T, P, C, sets = set(), [], [], [], [], []
    for _ in range(h):
        g = A.T @ b
        if numpy.linalg.norm(g) < 1e-9:
            return None
        g = g / numpy.linalg.norm(g)
        if eta and min(abs(g)) < 1e-9:   # the sign of a zero covariance is a matter of rounding
            return None
        cut = abs(g) - eta * abs(g).max()
        if min(abs(cut)) < 1e-6:
            return None
        keep |= set(j for j in range(p) if cut[j] > 0)
        w = numpy.array([cut[j] * numpy.sign(g[j]) if j in keep else 0.0 for j in range(p)])
        t = A @ w
        tt = t @ t
        q, c = A.T @ t / tt, b @ t / tt
        A, b = A - numpy.outer(t, q), b - t * c
        W.append(w), T.append(t), C.append(c), sets.append(sorted(keep))
        P.append([q[j] if j in keep else 0.0 for j in range(p)])
    return W, T, P, C, sets


def h_large(E, n, p, h, eta, centre, scale, seed, names=None):
    """larger models: every component by definition, for y in any location"""
    from direpack.sprm.snipls import snipls
    X, y = data(E, n, p, [], [], seed, -1, 1)
    ref = reference(*[[[float(q) for q in r] for r in a] if isinstance(a[0], list) else [float(q) for q in a] for a in scaled(E, X, y, centre, scale)], h, eta)
    if ref is None:
        return
    W, T, P, C, sets = ref
    c = E.scalar("c", -4, 4)
    y = y + c
    k = dict(eta=eta, n_components=h, verbose=False, centre=centre, scale=scale)
    nm = ["v%d" % j for j in range(p)]
    if names == "list":
        m = snipls(columns=nm, **k).fit(X, y)
    elif names == "frame":
        m = snipls(columns=True, **k).fit(E.frame(X, columns=nm), y)
    else:
        m = snipls(**k).fit(X, y)
    E.true("retained columns", [str(q) for q in m.colret_] == [nm[j] for j in sets[-1]] if names else [int(q) for q in m.colret_] == sets[-1],
           str((list(m.colret_), sets)))
    E.eq("x_weights_", m.x_weights_, numpy.array(W).T.tolist())
    E.eq("x_scores_", m.x_scores_, numpy.array(T).T.tolist())
    E.eq("x_loadings_", m.x_loadings_, numpy.array(P).T.tolist())
    E.eq("C_", m.C_, [[q] for q in C])


def h_names(E, how):
    from direpack.sprm.snipls import snipls
    X, y = data(E, 6, 3, [], [1], 5, -1, 1)
    nonzero(E, X, y, "mean")
    names = ["aa", "bb", "cc"]
    m0 = snipls(eta=0.6, n_components=1, verbose=False).fit(X, y)
    ret = [int(k) for k in m0.colret_]
    if how == "list":
        m = snipls(eta=0.6, n_components=1, verbose=False, columns=list(names)).fit(X, y)
    else:
        m = snipls(eta=0.6, n_components=1, verbose=False, columns=True).fit(E.frame(X, columns=names), y)
    E.true("names of the retained columns", [str(c) for c in m.colret_] == [names[k] for k in ret], str((list(m.colret_), ret)))
    E.eq("same model", m.coef_, m0.coef_)


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, **k):
        bd = "n=%d p=%d h=%d eta=%s; symbolic: X cells %s, y entries %s in [%s,%s]" % (
            k["n"], k["p"], k["h"], k["eta"], list(k.get("xc", ())), list(k.get("yc", ())), k.get("ylo", -4), k.get("yhi", 4))
        out.append(Case(name, h_pls, bd, budget=600 if T else 80, **k))
    for centre, scale in [("mean", "None"), ("mean", "std"), ("median", "mad"), ("None", "None")]:
        for eta in (0.0, 0.3, 0.7):
            nm = "%s-%s-%s" % (centre, scale, eta)
            if T or scale != "std":
                add("h1-" + nm, n=6, p=3, h=1, eta=eta, centre=centre, scale=scale, yc=[2])
            else:
                add("h1-" + nm, n=5, p=2, h=1, eta=eta, centre=centre, scale=scale, yc=[2], ylo=0.5, yhi=2)
            if T:
                add("h2-" + nm, n=6, p=3, h=2, eta=eta, centre=centre, scale=scale, yc=[2])
            elif scale != "std":
                add("h2-" + nm, n=5, p=3, h=2, eta=eta, centre=centre, scale=scale, yc=[2], ylo=0.5, yhi=0.75)
    add("x1-h1", n=5, p=2, h=1, eta=0.4, centre="mean", scale="None", xc=[(1, 0)])
    add("ols-p2", n=5, p=2, h=2, eta=0.0, centre="mean", scale="None", yc=[0])
    add("ols-p3-fixed", n=6, p=3, h=3, eta=0.0, centre="mean", scale="std", seed=9)
    add("fixed-p5-h4", n=9, p=5, h=4, eta=0.0, centre="median", scale="mad", seed=9)
    add("fixed-p5-h4-sparse", n=9, p=5, h=4, eta=0.5, centre="mean", scale="mad", seed=9)
    for eta in (0.2, 0.6, 0.9):
        out.append(Case("cumulative-%s" % eta, h_cumulative, "n=5 p=3 one y entry", n=5, p=3, eta=eta, seed=11))
    q = 0
    for n, p, h in [(9, 5, 4), (12, 8, 5), (7, 4, 3), (15, 10, 3), (6, 9, 4), (40, 12, 6), (8, 20, 5)]:
        for eta in (0.0, 0.25, 0.5, 0.8):
            for centre, scale in [("mean", "None"), ("mean", "std"), ("median", "mad")]:
                q += 1
                out.append(Case("large-%dx%d-%d-%s-%s" % (n, p, h, eta, scale), h_large, "n=%d p=%d h=%d, any location of y" % (n, p, h), n=n, p=p, h=h, eta=eta,
                                centre=centre, scale=scale, seed=40 + q, names=[None, "list", "frame"][q % 3]))
    for how in ("list", "frame"):
        out.append(Case("names-" + how, h_names, "n=6 p=3 one y entry", how=how))
    return out
