"""snipls: the fitted model is one linear model, and predict / fitted / residuals / coefficients agree."""
from checks.common import *
from engine.harness import Case

ASSUMPTIONS = ["fixed data with one symbolic cell of X or y (two in the thorough tier), symbolic new cases; n<=9, p<=5, h<=5 (fixed data: n<=60, p<=14, h<=6); "
               "X'y of the centred data is not zero"]


def data(E, n, p, xc, yc, seed=5, ylo=-4, yhi=4):
    X = mix(E, "x", n, p, seed, xc, -4, 4)
    r = rng_matrix(n, 1, seed + 1)
    y = E.const([v[0] for v in r])
    s = E.array("y", len(yc), ylo, yhi)
    for k, i in enumerate(yc):
        y[i] = s[k]
    return X, y


def nonzero(E, X, y, center):
    """X'y of the centred data is not the zero vector"""
    n, p = X.shape
    if center == "None":
        mx, my = [0.0] * p, 0.0
    elif center == "mean":
        mx, my = colw(X, vmean), vmean([y[i] for i in range(n)])
    else:
        mx, my = colw(X, vmed), vmed([y[i] for i in range(n)])
    w = [vsum([(X[i, j] - mx[j]) * (y[i] - my) for i in range(n)]) for j in range(p)]
    E.assume(vsum([v * v for v in w]), ">", 0.0625)


def h_fit(E, n, p, h, eta, centre, scale, xc=(), yc=(), kind="vec", seed=5, ylo=-4, yhi=4, const=None, ints=False, before=None):
    from direpack.sprm.snipls import snipls
    np = E.np
    X, y = data(E, n, p, list(xc), yc, seed, ylo, yhi)
    if const is not None:
        X[:, const] = 1.25
    nonzero(E, X, y, centre)
    if ints:
        A = int_matrix(n, p + 1, seed, 9)
        X, y = E.ints([r[:p] for r in A]), E.ints([r[p] for r in A])
    X0, y0 = X.copy(), y.copy()
    m = snipls(eta=eta, n_components=h, verbose=False, centre=centre, scale=scale)
    if before:
        # an earlier fit of the same object to other data
        q = E.const(rng_matrix(before[0], before[1] + 1, seed + 7))
        m.fit(q[:, :before[1]], q[:, before[1]])
    if kind == "vec":
        a, b = X, y
    elif kind == "col":
        a, b = X, y.reshape((-1, 1))
    elif kind == "frame":
        a, b = E.frame(X), E.frame(y.reshape((-1, 1)))
    else:
        a, b = E.frame(X), E.series(y)
    m.fit(a, b)
    B, b0 = m.coef_, m.intercept_
    E.true("shape of coef_", B.shape == (p, 1), str(B.shape))
    lin = [vsum([X0[i, j] * B[j, 0] for j in range(p)]) for i in range(n)]
    fit = [v + b0 for v in lin]
    E.eq("fitted_", m.fitted_, fit)
    E.eq("residuals_", m.residuals_, [y0[i] - fit[i] for i in range(n)])
    E.eq("predict on the training data", np.array(m.predict(a)).reshape(-1), fit)
    res = [y0[i] - lin[i] for i in range(n)]
    E.eq("intercept_", b0, {"mean": vmean, "median": vmed, "None": lambda v: 0.0}[centre](res))
    mx, sx = LOC(E, X0, centre), SCA(E, X0, scale)
    yc2 = y0.reshape((-1, 1))
    my, sy = LOC(E, yc2, centre), SCA(E, yc2, scale)
    E.eq("x_loc_", m.x_loc_, mx)
    E.eq("x_sca_", m.x_sca_, sx)
    E.eq("y_loc_", m.y_loc_, my)
    E.eq("y_sca_", m.y_sca_, sy)
    E.eq("coef_ in original units", B, [[m.coef_scaled_[j, 0] * unit(sy)[0] / unit(sx)[j]] for j in range(p)])
    if const is not None:
        E.eq("constant column has no coefficient", B[const, 0], 0.0)
    if len(yc) <= 1 and len(xc) <= 1:
        Z = E.array("z", (2, p), -4, 4)
        want = [[vsum([Z[i, j] * B[j, 0] for j in range(p)]) + b0] for i in range(2)]
        E.eq("predict new", m.predict(Z), want)
        E.eq("predict a frame", m.predict(E.frame(Z)), want)
        E.eq("predict one row", m.predict(Z[0]), want[:1])
        E.eq("predict one row as a matrix", m.predict(Z[0:1]), want[:1])
        E.eq("predict a series", m.predict(E.series(Z[1])), want[1:])
    E.eq("X untouched", X, X0)
    E.eq("y untouched", y, y0)


def h_cols(E, p, q):
    from direpack.sprm.snipls import snipls
    X, y = data(E, 6, p, [], [])
    m = snipls(eta=0.1, n_components=1, verbose=False).fit(X, y)
    Z = E.array("z", (3, q))
    E.raises("predict refuses", ValueError, m.predict, Z)
    E.raises("transform refuses", ValueError, m.transform, Z)


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, budget=60, **k):
        bd = "n=%d p=%d h=%d eta=%s; symbolic: X cells %s, y entries %s in [%s,%s]" % (
            k["n"], k["p"], k["h"], k["eta"], list(k.get("xc", ())), list(k.get("yc", ())), k.get("ylo", -4), k.get("yhi", 4))
        out.append(Case(name, h_fit, bd, budget=600 if T else budget, **k))
    for centre in ("mean", "median", "None"):
        for scale in ("None", "std", "mad"):
            for h, eta in [(1, 0.0), (1, 0.5), (2, 0.0), (2, 0.4)]:
                nm = "%s-%s-h%d-%s" % (centre, scale, h, eta)
                if h == 1 or T:
                    add("y1-" + nm, n=6, p=3, h=h, eta=eta, centre=centre, scale=scale, yc=[2])
                else:
                    add("y1n-" + nm, n=5, p=3, h=h, eta=eta, centre=centre, scale=scale, yc=[2], ylo=0.5, yhi=1.0)
                if T or (scale == "None" and h == 1):
                    add("x1-" + nm, n=5, p=2, h=h, eta=eta, centre=centre, scale=scale, xc=[(1, 0)])
    if T:
        add("y2-mean-h1", n=5, p=2, h=1, eta=0.3, centre="mean", scale="None", yc=[0, 3])
        add("y2-none-h1", n=4, p=2, h=1, eta=0.0, centre="None", scale="None", yc=[0, 3])
    for centre, scale in [("mean", "std"), ("median", "mad"), ("mean", "None")]:
        add("const-%s-%s" % (centre, scale), n=6, p=3, h=1, eta=0.3, centre=centre, scale=scale, yc=[1], ylo=0.5, yhi=1, const=1)
    for kind in ("col", "frame", "series"):
        add("kind-" + kind, n=6, p=3, h=2, eta=0.3, centre="mean", scale="None", yc=[1], kind=kind, ylo=-1.0, yhi=-0.5)
    for h, eta, centre, scale in [(3, 0.2, "mean", "std"), (4, 0.0, "median", "mad"), (5, 0.6, "mean", "mad"), (2, 0.9, "None", "std")]:
        add("new-h%d" % h, n=9, p=5, h=h, eta=eta, centre=centre, scale=scale, seed=8)
    for h, eta, centre, scale, n, p in [(4, 0.3, "mean", "std", 40, 8), (6, 0.0, "median", "mad", 33, 9), (3, 0.5, "median", "std", 8, 14), (5, 0.2, "mean", "mad", 60, 6)]:
        add("long-%dx%d-h%d" % (n, p, h), n=n, p=p, h=h, eta=eta, centre=centre, scale=scale, seed=18)
    for n, p, h, eta, centre, scale in [(30, 6, 2, 0.3, "mean", "None"), (31, 5, 1, 0.2, "median", "mad"), (7, 12, 1, 0.4, "mean", "std")]:
        add("longy-%dx%d" % (n, p), n=n, p=p, h=h, eta=eta, centre=centre, scale=scale, seed=18, yc=[4], ylo=0.5, yhi=0.515625)
    for n, p, h, eta, centre, scale in [(9, 4, 2, 0.3, "mean", "std"), (9, 4, 3, 0.0, "median", "mad"), (12, 3, 1, 0.5, "mean", "None"), (8, 4, 2, 0.1, "None", "None")]:
        add("ints-%s-%s-%d" % (centre, scale, h), n=n, p=p, h=h, eta=eta, centre=centre, scale=scale, seed=19, ints=True)
        add("again-%s-%s-%d" % (centre, scale, h), n=n, p=p, h=h, eta=eta, centre=centre, scale=scale, seed=20, before=(n + 2, p + 1))
    add("again-frame", n=9, p=4, h=2, eta=0.4, centre="mean", scale="std", seed=20, before=(6, 3), kind="frame")
    for p, q in [(3, 2), (2, 3), (3, 1)]:
        out.append(Case("columns-%d-%d" % (p, q), h_cols, "trained on %d, asked for %d" % (p, q), p=p, q=q))
    return out
