"""missing cells: products over available pairs, and PLS models fitted from them."""
from checks.common import *
from checks.C08 import data
from engine.harness import Case

NAN = float("nan")
ASSUMPTIONS = ["products: up to 3x3 matrices with symbolic cells and every listed pattern of missing cells; snipls: n<=7, p<=3, h<=2, "
               "fixed data with one symbolic cell and up to three missing cells; X'y over the available pairs is not zero"]


def h_prod(E, p, n, q, na, nb):
    from direpack.utils.utils import nandot, nanmatdot
    A, B = E.array("a", (p, n)), E.array("b", (n, q))
    for i, j in na:
        A[i, j] = NAN
    for i, j in nb:
        B[i, j] = NAN
    A0, B0 = A.copy(), B.copy()

    def ref(i, j):
        t = [A[i, k] * B[k, j] for k in range(n) if (i, k) not in na and (k, j) not in nb]
        return vsum(t) if t else 0.0
    want = [[ref(i, j) for j in range(q)] for i in range(p)]
    E.eq("matrix product over available pairs", nanmatdot(A, B), want)
    E.eq("matrix-vector product over available pairs", nandot(A, B[:, 0:1]), [[r[0]] for r in want])
    E.eq("flat vector", nandot(A, B[:, 0]), [[r[0]] for r in want])
    E.eq("flat vector, matrix version", nanmatdot(A, B[:, 0]), [[r[0]] for r in want])
    E.eq("left untouched", A, A0)
    E.eq("right untouched", B, B0)


def h_refuse(E):
    from direpack.utils.utils import nandot, nanmatdot
    A, B = E.array("a", (2, 3)), E.array("b", (2, 2))
    E.raises("sizes must agree", AssertionError, nanmatdot, A, B)
    E.raises("sizes must agree", AssertionError, nandot, A, B[:, 0])


def h_pls(E, n, p, h, eta, centre, scale, miss, xc=(), yc=(), ymiss=(), seed=5, kind="array", ylo=-2, yhi=2):
    from direpack.sprm.snipls import snipls
    X, y = data(E, n, p, list(xc), yc, seed, ylo, yhi)
    for i, j in miss:
        X[i, j] = NAN
    for i in ymiss:
        y[i] = NAN
    X0 = X.copy()
    okx = lambda i, j: (i, j) not in miss
    av = [[X[i, j] for i in range(n) if okx(i, j)] for j in range(p)]
    ay = [y[i] for i in range(n) if i not in ymiss]
    loc = {"mean": vmean, "median": vmed, "None": lambda v: 0.0}[centre]
    sca = {"std": lambda v: vstd(E, v), "mad": vmad, "None": lambda v: 1.0}[scale]
    mx, sx, my, sy = [loc(v) for v in av], [sca(v) for v in av], loc(ay), sca(ay)
    Z = [[(X[i, j] - mx[j]) / sx[j] if okx(i, j) else 0.0 for j in range(p)] for i in range(n)]
    v = [(y[i] - my) / sy if i not in ymiss else 0.0 for i in range(n)]
    g = [vsum([Z[i][j] * v[i] for i in range(n)]) for j in range(p)]
    E.assume(dot(g, g), ">", 0.0625)
    if h > 1:
        # the first weights leave something for the second component
        t1 = [dot(r, g) for r in Z]
        E.assume(dot(t1, t1), ">", 1 / 64)
    m = snipls(eta=eta, n_components=h, verbose=False, centre=centre, scale=scale)
    m.fit(X, y) if kind == "array" else m.fit(E.frame(X), E.series(y))
    E.eq("x_loc_", m.x_loc_, mx)
    E.eq("x_sca_", m.x_sca_, sx)
    E.eq("y_loc_", m.y_loc_, [my])
    W, B = lst(m.x_weights_), lst(m.coef_scaled_)
    nrm = sqrt(E, dot(g, g))
    top = E.np.max(E.np.array([abs(q) for q in g]))
    w1 = []
    for j in range(p):
        t = abs(g[j]) - eta * top
        w1.append(E.np.sign(g[j]) * t / nrm if t > 0 else 0.0)
    E.eq("first weights from the available pairs", [r[0] for r in W], w1)
    t1 = [dot(r, w1) for r in Z]
    E.eq("first scores from the available cells", [m.x_scores_[i, 0] for i in range(n)], t1)
    E.eq("first inner relation", m.C_[0, 0] * dot(t1, t1), dot(t1, v))
    # normal equations with pairwise products
    S = [[vsum([Z[i][a] * Z[i][b] for i in range(n)]) for b in range(p)] for a in range(p)]
    for k in range(h):
        E.eq("normal equations over available pairs",
             vsum([W[a][k] * (g[a] - vsum([S[a][b] * B[b][0] for b in range(p)])) for a in range(p)]), 0.0)
    E.eq("coef_ in original units", m.coef_, [[B[j][0] * sy / sx[j]] for j in range(p)])
    lin = [vsum([X[i, j] * m.coef_[j, 0] if okx(i, j) else 0.0 for j in range(p)]) for i in range(n)]
    res = [y[i] - lin[i] for i in range(n) if i not in ymiss]
    b0 = loc(res)
    E.eq("intercept_", m.intercept_, b0)
    E.eq("fitted_", m.fitted_, [q + b0 for q in lin])
    E.eq("residuals_", m.residuals_, [y[i] - lin[i] - b0 if i not in ymiss else NAN for i in range(n)])
    Q = E.array("z", (2, p), -4, 4)
    E.eq("predict complete new cases", m.predict(Q), [[vsum([Q[i, j] * m.coef_[j, 0] for j in range(p)]) + b0] for i in range(2)])
    E.eq("X untouched", X, X0)


def h_bigprod(E, p, n, q, seed):
    """larger products: a fixed pattern of missing cells, a few symbolic cells"""
    from direpack.utils.utils import nandot, nanmatdot
    import random
    r = random.Random(seed)
    A, B = mix(E, "a", p, n, seed, [(0, 0), (p - 1, n - 1)]), mix(E, "b", n, q, seed + 1, [(0, 0), (n - 1, q - 1)])
    na = {(r.randrange(p), r.randrange(n)) for _ in range(p * n // 5)}
    nb = {(r.randrange(n), r.randrange(q)) for _ in range(n * q // 6)}
    for i, j in na:
        A[i, j] = NAN
    for i, j in nb:
        B[i, j] = NAN
    want = [[vsum([A[i, k] * B[k, j] for k in range(n) if (i, k) not in na and (k, j) not in nb] or [0.0]) for j in range(q)] for i in range(p)]
    E.eq("matrix product over available pairs", nanmatdot(A, B), want)
    E.eq("matrix-vector product over available pairs", nandot(A, B[:, q - 1:q]), [[w[q - 1]] for w in want])


def cases(tier):
    T = tier == "thorough"
    out = []
    pats = [([], []), ([(0, 0)], []), ([], [(1, 0)]), ([(0, 1), (1, 1)], [(1, 0)]), ([(0, 0), (0, 1), (0, 2)], []), ([(1, 2)], [(2, 1), (0, 0)])]
    for p, n, q in [(2, 3, 2), (3, 3, 2), (2, 3, 3), (1, 3, 2), (2, 3, 1)]:
        for k, (a, b) in enumerate(pats):
            a = [c for c in a if c[0] < p]
            b = [c for c in b if c[1] < q]
            out.append(Case("prod-%dx%dx%d-%d" % (p, n, q, k), h_prod, "%dx%d times %dx%d, missing %s / %s" % (p, n, n, q, a, b), p=p, n=n, q=q, na=a, nb=b))
    for p, n, q, s in [(6, 9, 5, 61), (12, 15, 1, 62), (2, 40, 3, 63), (10, 4, 12, 64)]:
        out.append(Case("bigprod-%dx%dx%d" % (p, n, q), h_bigprod, "%dx%d times %dx%d, a sixth missing, 2+2 symbolic cells" % (p, n, n, q), p=p, n=n, q=q, seed=s))
    out.append(Case("refuse", h_refuse, "2x3 times 2x2"))

    def add(nm, **k):
        k = dict(dict(n=6, p=3, h=1, eta=0.0, centre="mean", scale="None", miss=[(2, 1)], yc=[0]), **k)
        out.append(Case("pls-" + nm, h_pls, "n=%d p=%d h=%d eta=%s missing %s/%s, symbolic X %s y %s in [-2,2]" % (
            k["n"], k["p"], k["h"], k["eta"], k["miss"], k.get("ymiss", ()), k.get("xc", ()), k["yc"]), budget=600 if T else 80, **k))
    for centre, scale in [("mean", "None"), ("median", "None"), ("median", "mad"), ("None", "None")]:
        for eta in (0.0, 0.4):
            add("%s-%s-%s" % (centre, scale, eta), centre=centre, scale=scale, eta=eta)
    add("std", scale="std", p=2, n=5)
    add("two", miss=[(2, 1), (4, 0), (0, 2)], eta=0.2)
    add("x", miss=[(2, 1)], xc=[(1, 0)], yc=[], p=2, n=5)
    add("h2", h=2, eta=0.0, miss=[(2, 1), (3, 0)], yc=[])
    add("h2s", h=2, eta=0.3, miss=[(2, 1), (3, 0)], yc=[], scale="std")
    add("ymiss", miss=[(2, 1)], ymiss=[3])
    add("ymiss-only", miss=[], ymiss=[3], centre="median")
    add("frame", kind="frame")
    miss = [(2, 1), (3, 0), (8, 4), (8, 5), (14, 2), (20, 3), (21, 3), (5, 0)]
    add("long-h3", n=30, p=6, h=3, eta=0.0, miss=miss, yc=[], scale="mad", centre="median", seed=21)
    add("long-h5", n=30, p=8, h=5, eta=0.0, miss=miss, ymiss=[7, 11], yc=[], scale="std", seed=22)
    add("long-h3s", n=25, p=6, h=3, eta=0.4, miss=miss, yc=[], scale="std", seed=23)
    add("wide-h2", n=9, p=12, h=2, eta=0.2, miss=[(2, 1), (3, 0), (8, 11), (0, 11), (5, 6)], ymiss=[4], yc=[], scale="mad", seed=24)
    add("long-y", n=30, p=5, h=1, eta=0.3, miss=[(2, 1), (3, 0), (8, 4)], ymiss=[9], yc=[6], ylo=0.5, yhi=0.53, scale="std", seed=25)
    add("rowless", n=9, p=3, h=2, miss=[(4, 0), (4, 1), (4, 2)], yc=[], seed=26)
    add("ymiss3", n=8, p=3, h=2, miss=[(1, 1)], ymiss=[0, 3, 7], yc=[], seed=27, scale="std", eta=0.2)
    if T:
        add("h2y", h=2, eta=0.0, miss=[(2, 1)], p=2, n=5)
    return out
