"""wrapping transformation."""
from checks.common import *
from engine.harness import Case

ASSUMPTIONS = ["tanh is an uninterpreted strictly increasing odd-bounded function in the queries (axioms: |tanh|<1, "
               "sign, monotone); replays use the real one", "n<=4 symbolic rows; 12x3 with one symbolic cell"]

B, C, Q1, Q2 = 1.5, 4, 1.540793, 0.8622731


def wrap1(E, x, m, s):
    """reference: wrapped value of x on location m, scale s (zero scale counts as one)"""
    s = 1.0 if s == 0 else s
    z = (x - m) / s
    a = abs(z)
    if a < B:
        w = z
    elif a < C:
        w = Q1 * E.np.tanh(Q2 * (C - a))
        w = w if z > 0 else -w
    else:
        w = 0 * z
    return w * s + m


def h_train(E, n, p, cells=None):
    from direpack.preprocessing.robcent import Wrapper
    X = E.array("x", (n, p)) if cells is None else mix(E, "x", n, p, 61, cells, lo=-30, hi=30)
    X0 = X.copy()
    m, s = colw(X0, vmed), colw(X0, vmad)
    w = Wrapper()
    got = w.fit_transform(X)
    E.eq("center_", w.center_, m)
    E.eq("scale_", w.scale_, s)
    E.eq("wrapped training data", got, [[wrap1(E, X0[i, j], m[j], s[j]) for j in range(p)] for i in range(n)])
    E.eq("input untouched", X, X0)


def h_new(E, n, p, k, kind="array", zero=False):
    """new data are wrapped on the training location and scale"""
    from direpack.preprocessing.robcent import Wrapper
    base = rng_matrix(n, p, 67)
    if zero:
        for i in range(n):
            base[i][0] = 0.5
    X = E.const(base)
    m, s = colw(X, vmed), colw(X, vmad)
    w = Wrapper()
    w.fit(X)
    Y = E.array("y", (k, p), -30, 30)
    Y0 = Y.copy()
    R = [[wrap1(E, Y0[i, j], m[j], s[j]) for j in range(p)] for i in range(k)]
    arg = E.frame(Y) if kind == "frame" else Y
    E.eq("transform new", w.transform(arg), R)
    E.eq("predict new", w.predict(arg), R)
    E.eq("new data untouched", Y, Y0)


def h_ints(E, n, p):
    from direpack.preprocessing.robcent import Wrapper
    A = int_matrix(n, p, 59)
    A[2][1], A[4][0] = 40, -55
    X0 = E.const(A)
    m, s = colw(X0, vmed), colw(X0, vmad)
    w = Wrapper()
    R = [[wrap1(E, X0[i, j], m[j], s[j]) for j in range(p)] for i in range(n)]
    E.eq("wrapped integers", w.fit_transform(E.ints(A)), R)
    E.eq("integers as new data", w.transform(E.ints(A[:5])), R[:5])
    E.eq("integers predict", w.predict(E.ints(A[:5])), R[:5])
    Y = E.array("y", (1, p), -30, 30)
    E.eq("new data", w.transform(Y), [[wrap1(E, Y[0, j], m[j], s[j]) for j in range(p)]])


def h_shape(E, k):
    """identity in the centre, centre in the tails, never beyond 1.5 scales, odd about the centre"""
    from direpack.preprocessing.robcent import Wrapper, wrap
    m, s = E.scalar("m"), E.scalar("s", 0.125, 8)
    y = E.array("y", k, -60, 60)
    col = E.np.array([[y[i]] for i in range(k)])
    W = wrap(col, E.np.array([m]), E.np.array([s]))
    mirror = wrap(2 * m - col, E.np.array([m]), E.np.array([s]))
    E.eq("odd about the location", mirror, 2 * m - W)
    for i in range(k):
        z = (y[i] - m) / s
        if abs(z) < B:
            E.eq("identity in the centre", W[i, 0], y[i])
        if abs(z) >= C:
            E.eq("tails go to the location", W[i, 0], m)
        u = W[i, 0] - m
        E.le("bounded", u, 1.541 * s)
        E.ge("bounded below", u, -1.541 * s)
        E.ge("same side of the location", u * z, 0.0)


def h_col(E, p):
    """columns are wrapped one by one with their own location and scale, whatever those are"""
    from direpack.preprocessing.robcent import wrap
    m, s = E.array("m", p), E.array("s", p, 0.125, 4)
    Y = E.array("y", (2, p), -30, 30)
    E.eq("columns", wrap(Y, m, s), [[wrap1(E, Y[i, j], m[j], s[j]) for j in range(p)] for i in range(2)])


def h_cols(E):
    from direpack.preprocessing.robcent import Wrapper
    w = Wrapper()
    w.fit(E.const(rng_matrix(5, 3, 2)))
    Y = E.array("y", (4, 2))
    E.raises("transform refuses", ValueError, w.transform, Y)
    E.raises("predict refuses", ValueError, w.predict, Y)


def cases(tier):
    T = tier == "thorough"
    out = [Case("train-3x1", h_train, "3x1 symbolic", n=3, p=1), Case("train-9x3", h_train, "fixed 9x3, 1 symbolic cell", n=9,
           p=3, cells=[(4, 1)]), Case("train-12x2", h_train, "fixed 12x2, 1 symbolic cell", n=12, p=2, cells=[(0, 1)])]
    out.append(Case("train-60x2", h_train, "fixed 60x2, 1 symbolic cell", n=60, p=2, cells=[(31, 1)]))
    out.append(Case("train-11x12", h_train, "fixed 11x12, 1 symbolic cell", n=11, p=12, cells=[(3, 9)]))
    out.append(Case("ints", h_ints, "fixed integers, symbolic new data", n=9, p=3))
    for n, p, k, kind, z in [(5, 1, 2, "array", False), (5, 2, 1, "array", False), (6, 2, 1, "frame", False),
                             (6, 3, 1, "array", False), (6, 2, 2, "array", False), (5, 2, 1, "array", True), (5, 1, 1, "array", True)]:
        out.append(Case("new-%dx%d-%d-%s-%s" % (n, p, k, kind, z), h_new, "fixed training data, %d new rows in [-30,30]" % k,
                        n=n, p=p, k=k, kind=kind, zero=z, budget=60))
    out.append(Case("shape-1", h_shape, "any value, location, scale", k=1, budget=60))
    out.append(Case("columns-2", h_col, "any location and scale per column", p=2, budget=60))
    out.append(Case("columns-1", h_col, "any location and scale", p=1))
    out.append(Case("wrong-columns", h_cols, "4x2 on 3 columns"))
    if T:
        out.append(Case("train-4x1", h_train, "4x1 symbolic", n=4, p=1, budget=300))
        out.append(Case("shape-2", h_shape, "any two values", k=2, budget=300))
        out.append(Case("columns-3", h_col, "3 columns", p=3, budget=300))
    return out
