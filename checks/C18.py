"""sufficient dimension reduction kernels: slices, candidate matrices, leading directions."""
import importlib
import numpy
from checks.common import *
from engine.harness import Case

ASSUMPTIONS = ["fixed X with every y (n<=5 entries symbolic, the rest fixed) for the sliced methods; every y entry or one X cell symbolic for p=2 otherwise; "
               "the covariance matrix of X is regular"]


def classes(y, h):
    s = vsort(list(y))
    m = len(s) // h
    cuts = [s[i * m] for i in range(1, h)]
    return [1 + len([1 for c in cuts if v >= c]) for v in y]


def fl(A):
    return numpy.array([[float(v) for v in r] for r in A])


def cov(R):
    R = numpy.asarray(R, float)
    C = R - R.mean(0)
    return C.T @ C / (len(R) - 1)


def kernel(meth, Z, cl):
    """candidate matrix from (standardised) data and slice labels"""
    n, p = Z.shape
    I = numpy.eye(p)
    M = numpy.zeros((p, p))
    A = numpy.zeros((p, p))
    B = numpy.zeros((p, p))
    for c in sorted(set(cl)):
        rows = [i for i in range(n) if cl[i] == c]
        w = len(rows) / n
        mu = Z[rows].mean(0)
        V = cov(Z[rows]) if len(rows) > 1 else I
        if meth == "SIR":
            M += w * numpy.outer(mu, mu)
        elif meth == "SAVE":
            M += w * (I - V) @ (I - V)
        else:
            G = V + numpy.outer(mu, mu)
            A += w * G @ G
            B += w * numpy.outer(mu, mu)
    if meth == "DR":
        M = 2 * A + 2 * B @ B + 2 * numpy.trace(B) * B - 2 * I
    return M


def directions(E, Bt, M, S, d, scaled, lab=""):
    """columns of Bt: S-orthonormal (orthonormal if unscaled) leading eigenvectors of M"""
    p = len(M)
    E.true(lab + "shape", Bt.shape == (p, d), str(Bt.shape))
    b = fl(lst(Bt))
    if scaled:
        w, Q = numpy.linalg.eigh(S)
        root = Q @ numpy.diag(numpy.sqrt(w)) @ Q.T
        u = root @ b
    else:
        u = b
    val = sorted(numpy.linalg.eigvalsh(M), reverse=True)
    E.eq(lab + "orthonormal in the metric of the data", E.const((u.T @ u).tolist()), numpy.eye(d).tolist())
    for k in range(d):
        E.eq(lab + "direction %d belongs to the kernel" % (k + 1), E.const((M @ u[:, k]).tolist()), [float(val[k]) * float(t) for t in u[:, k]])


def h_disc(E, n, h, fixed=0):
    from direpack.sudire._sudire_utils import discretize
    y = E.array("y", n, -4, 4)
    if fixed:
        y = E.np.concatenate([y, E.const([-3.5, -1.25, 0.25, 1.5, 2.75, 3.25][:fixed])])
    y0 = y.copy()
    r = discretize(y, h)
    E.true("slices", [int(v) for v in r] == classes(lst(y0), h), str(list(r)))
    E.eq("y untouched", y, y0)


def h_slice(E, meth, n, p, d, h, free, centre, scaled, seed, kind="vec"):
    su = importlib.import_module("direpack.sudire._sudire_utils")
    X = E.const(rng_matrix(n, p, seed))
    y = E.const([v[0] for v in rng_matrix(n, 1, seed + 1)])
    s = E.array("y", len(free), -3, 3)
    for k, i in enumerate(free):
        y[i] = s[k]
    X0, y0 = X.copy(), y.copy()
    B = getattr(su, meth)(X, y if kind == "vec" else y.reshape((-1, 1)), h, d, "continuous", centre, scaled)
    F = fl(lst(X0))
    S = cov(F)
    Z = F - F.mean(0) if centre else F
    if scaled:
        w, Q = numpy.linalg.eigh(S)
        Z = Z @ (Q @ numpy.diag(w ** -0.5) @ Q.T)
    directions(E, B, kernel(meth, Z, classes(lst(y0), h)), S, d, scaled)
    E.eq("X untouched", X, X0)
    E.eq("y untouched", y, y0)


def h_labels(E, meth, n, p, d, labels, seed, scaled=True, values=None):
    """discrete response: one slice per label, whatever the labels are"""
    su = importlib.import_module("direpack.sudire._sudire_utils")
    X = E.const(rng_matrix(n, p, seed))
    k = max(labels) + 1
    L = E.array("lab", k, -4, 4)
    if values:
        L = list(values)
    for i in range(k if not values else 0):
        for j in range(i):
            E.assume(abs(L[i] - L[j]), ">", 0.0625)
    y = E.np.array([L[i] for i in labels])
    F = fl(lst(X))
    S = cov(F)
    Z = F - F.mean(0)
    if scaled:
        w, Q = numpy.linalg.eigh(S)
        Z = Z @ (Q @ numpy.diag(w ** -0.5) @ Q.T)
    B = getattr(su, meth)(X, y, k, d, "discrete", True, scaled)
    directions(E, B, kernel(meth, Z, labels), S, d, scaled)
    for q in (k + 2, max(1, k - 1)):
        B2 = getattr(su, meth)(X, y, q, d, "discrete", True, scaled)
        directions(E, B2, kernel(meth, Z, labels), S, d, scaled, "n_slices=%d: " % q)


def h_few(E, meth, n, p, h, seed):
    """a continuous response with few distinct values"""
    su = importlib.import_module("direpack.sudire._sudire_utils")
    X = E.const(rng_matrix(n, p, seed))
    a = E.scalar("a", -2, 2)
    b = E.scalar("b", -2, 2)
    y = E.np.array([a if i % 3 else b for i in range(n)])
    E.assume(abs(a - b), ">", 0.0625)
    F = fl(lst(X))
    S = cov(F)
    w, Q = numpy.linalg.eigh(S)
    Z = (F - F.mean(0)) @ (Q @ numpy.diag(w ** -0.5) @ Q.T)
    B = getattr(su, meth)(X, y, h, 1, "continuous", True, True)
    directions(E, B, kernel(meth, Z, classes(lst(y), h)), S, 1, True)


def eig2(E, M, B, d, S=None):
    """symbolic 2x2 check: columns of B are the leading eigenvectors of M (unscaled), M symmetric"""
    p = len(M)
    E.eq("orthonormal", mm(tr(lst(B)), lst(B)), [[1.0 if i == j else 0.0 for j in range(d)] for i in range(d)])
    trc, det = M[0][0] + M[1][1], M[0][0] * M[1][1] - M[0][1] * M[1][0]
    v = [B[0, 0], B[1, 0]]
    Mv = [M[0][0] * v[0] + M[0][1] * v[1], M[1][0] * v[0] + M[1][1] * v[1]]
    E.eq("eigenvector", Mv[0] * v[1], Mv[1] * v[0])
    lam = Mv[0] * v[0] + Mv[1] * v[1]
    E.ge("largest eigenvalue", 2 * lam, trc)


def h_hess(E, meth, n, free, centre, xc=(), seed=5, lo=-2, hi=2):
    """PHD and IHT on unscaled two-column data, y or X symbolic"""
    su = importlib.import_module("direpack.sudire._sudire_utils")
    X = mix(E, "x", n, 2, seed, list(xc), -2, 2)
    y = E.const([v[0] for v in rng_matrix(n, 1, seed + 1)])
    s = E.array("y", len(free), lo, hi)
    for k, i in enumerate(free):
        y[i] = s[k]
    m = colw(X, vmean) if centre else [0.0, 0.0]
    Z = [[X[i, j] - m[j] for j in range(2)] for i in range(n)]
    my = vmean(lst(y))
    if meth == "PHD":
        M = [[vsum([(y[i] - my) * Z[i][a] * Z[i][b] for i in range(n)]) / n for b in range(2)] for a in range(2)]
    else:
        mz = colw(X, vmean)
        C = [[vsum([(X[i, a] - mz[a]) * (X[i, b] - mz[b]) for i in range(n)]) / (n - 1) for b in range(2)] for a in range(2)]
        c = [vsum([(X[i, a] - mz[a]) * (y[i] - my) for i in range(n)]) / (n - 1) for a in range(2)]
        e = [C[0][0] * c[0] + C[0][1] * c[1], C[1][0] * c[0] + C[1][1] * c[1]]
        M = [[c[a] * c[b] + e[a] * e[b] for b in range(2)] for a in range(2)]
    gap = (M[0][0] - M[1][1]) * (M[0][0] - M[1][1]) + 4 * M[0][1] * M[0][1]
    E.assume(gap, ">", 0.0625)
    E.assume(abs(M[0][1]), ">", 0.015625)
    X0, y0 = X.copy(), y.copy()
    B = getattr(su, meth)(X, y, 1, centre, False)
    eig2(E, M, B, 1)
    E.eq("X untouched", X, X0)
    E.eq("y untouched", y, y0)


def h_hessfix(E, meth, n, p, d, centre, scaled, seed):
    """PHD and IHT on fixed data in any units of y"""
    su = importlib.import_module("direpack.sudire._sudire_utils")
    X = E.const(rng_matrix(n, p, seed))
    y = E.const([v[0] for v in rng_matrix(n, 1, seed + 1)])
    F = fl(lst(X))
    S = cov(F)
    Z = F - F.mean(0) if centre else F
    if scaled:
        w, Q = numpy.linalg.eigh(S)
        Z = Z @ (Q @ numpy.diag(w ** -0.5) @ Q.T)
    v = numpy.array([float(t) for t in lst(y)])
    v = v - v.mean()
    if meth == "PHD":
        M = (Z * v[:, None]).T @ Z / n
    else:
        c = (Z - Z.mean(0)).T @ v / (n - 1)
        C = cov(Z)
        cols = [c]
        for _ in range(p - 1):
            cols.append(C @ cols[-1])
        A = numpy.array(cols).T
        M = A @ A.T
    f = getattr(su, meth)
    directions(E, f(X, y, d, centre, scaled), M, S, d if meth == "PHD" else d, scaled)
    E.eq("y as a column", f(X, y.reshape((-1, 1)), d, centre, scaled), f(X, y, d, centre, scaled))
    if p == 2 and not scaled:
        c = E.scalar("c", -4, 4)
        E.eq("location of y does not matter", f(X, y + c, 1, centre, scaled), f(X, y, 1, centre, scaled))


def h_sirx(E, n, h, xc, centre, seed=5, lo=-2, hi=2):
    """SIR on unscaled two-column data with a symbolic cell"""
    su = importlib.import_module("direpack.sudire._sudire_utils")
    X = mix(E, "x", n, 2, seed, list(xc), lo, hi)
    y = E.const([v[0] for v in rng_matrix(n, 1, seed + 1)])
    cl = classes(lst(y), h)
    m = colw(X, vmean) if centre else [0.0, 0.0]
    M = [[0.0, 0.0], [0.0, 0.0]]
    for c in sorted(set(cl)):
        rows = [i for i in range(n) if cl[i] == c]
        mu = [vmean([X[i, j] - m[j] for i in rows]) for j in range(2)]
        w = len(rows) / n
        M = [[M[a][b] + w * mu[a] * mu[b] for b in range(2)] for a in range(2)]
    gap = (M[0][0] - M[1][1]) * (M[0][0] - M[1][1]) + 4 * M[0][1] * M[0][1]
    E.assume(gap, ">", 0.0009765625)
    E.assume(abs(M[0][1]), ">", 0.0009765625)
    eig2(E, M, su.SIR(X, y, h, 1, "continuous", centre, False), 1)


def h_power(E, what):
    """matpower is the matrix power of a symmetric matrix"""
    from direpack.sudire._sudire_utils import matpower
    if what == "fixed":
        A = rng_matrix(3, 3, 4)
        G = [[vsum([A[k][i] * A[k][j] for k in range(3)]) + (0.5 if i == j else 0) for j in range(3)] for i in range(3)]
        I = [[1.0 if i == j else 0.0 for j in range(3)] for i in range(3)]
        C = E.const(G)
        R, H = lst(matpower(C, -0.5)), lst(matpower(C, 0.5))
        E.eq("inverse square root", mm(mm(R, G), R), I)
        E.eq("square root", mm(H, H), G)
        E.eq("first power", matpower(C, 1), G)
        E.eq("second power", matpower(C, 2), mm(G, G))
        return
    a, b, c = E.scalar("a", 0.5, 3), E.scalar("b", 0.25, 2), E.scalar("c", 0.5, 3)
    E.assume(a * c - b * b, ">", 0.25)
    E.assume(abs(a - c), ">", 0.125)
    G = [[a, b], [b, c]]
    C = E.np.array(G)
    if what == "two":
        E.eq("second power", matpower(C, 2), mm(G, G))
    else:
        R = lst(matpower(C, -0.5))
        E.eq("inverse square root", mm(mm(R, G), R), [[1.0, 0.0], [0.0, 1.0]])


def cases(tier):
    T = tier == "thorough"
    out = []
    b = 600 if T else 60
    for n, h, fx in [(3, 2, 0), (4, 2, 0), (4, 3, 0), (4, 4, 0), (2, 3, 6), (3, 4, 5)] + ([(5, 2, 0), (5, 3, 0), (5, 5, 0)] if T else []):
        out.append(Case("slices-%d-%d-%d" % (n, h, fx), h_disc, "%d free and %d fixed responses, %d slices" % (n, fx, h), budget=b, n=n, h=h, fixed=fx))
    for meth in ("SIR", "SAVE", "DR"):
        for centre in (True, False):
            for scaled in (True, False):
                nm = "%s-%d%d" % (meth, centre, scaled)
                k = dict(meth=meth, centre=centre, scaled=scaled)
                out.append(Case("y2-" + nm, h_slice, "n=9 p=3 d=2, 3 slices, two free y", budget=b, n=9, p=3, d=2, h=3, free=[1, 5], seed=5, **k))
                out.append(Case("y3-" + nm, h_slice, "n=7 p=2 d=1, 2 slices, three free y", budget=b, n=7, p=2, d=1, h=2, free=[0, 1, 5], seed=6, **k))
                out.append(Case("all-" + nm, h_slice, "n=4 p=2 d=2, 2 slices, all y free", budget=b, n=4, p=2, d=2, h=2, free=[0, 1, 2, 3], seed=6, **k))
                if T:
                    out.append(Case("all5-" + nm, h_slice, "n=5 p=2, 3 slices, all y free", budget=900, n=5, p=2, d=1, h=3, free=list(range(5)), seed=7, **k))
        out.append(Case("col-" + meth, h_slice, "n=8 p=3, y as a column, one free y", budget=b, n=8, p=3, d=1, h=4, free=[3], seed=8, meth=meth, centre=True,
                        scaled=True, kind="col"))
        for labels in [(0, 1, 0, 1, 1, 0), (0, 1, 2, 0, 1, 2, 1, 0), (0, 0, 1, 0, 0, 1, 0)]:
            out.append(Case("labels-%s-%d" % (meth, len(labels)), h_labels, "n=%d p=2, %d free labels" % (len(labels), max(labels) + 1), budget=b, meth=meth,
                            n=len(labels), p=2, d=1, labels=labels, seed=9))
        for q, (labels, values) in enumerate([((0, 1, 0, 1, 1, 0), (0.7, 0.1)), ((0, 0, 1, 0, 1, 1, 0), (1.1, 0.1)), ((0, 1, 2, 0, 1, 2, 2, 1, 0), (0.3, 1.3, 0.1))]):
            out.append(Case("decimals-%s-%d" % (meth, q), h_labels, "n=%d p=2, labels %s" % (len(labels), values), budget=b, meth=meth, n=len(labels), p=2, d=1,
                            labels=labels, values=values, seed=9))
        out.append(Case("few-" + meth, h_few, "n=8 p=2, two distinct free values of y, 4 slices", budget=b, meth=meth, n=8, p=2, h=4, seed=9))
    for meth in ("PHD", "IHT"):
        for centre in (True, False):
            for q, (lo, hi) in enumerate([(-2, 2)] if meth == "PHD" else [(0.5, 1)] + ([(-2, 2)] if T else [])):
                out.append(Case("y1-%s-%d-%d" % (meth, centre, q), h_hess, "n=5 p=2 one free y in [%g,%g]" % (lo, hi), budget=b, meth=meth, n=5, free=[2],
                                centre=centre, lo=lo, hi=hi))
            if T and meth == "PHD":
                out.append(Case("y2-%s-%d" % (meth, centre), h_hess, "n=5 p=2 two free y", budget=b, meth=meth, n=5, free=[0, 2], centre=centre))
            if meth == "PHD":
                out.append(Case("x1-%s-%d" % (meth, centre), h_hess, "n=5 p=2 one free X cell", budget=b, meth=meth, n=5, free=[], xc=[(1, 0)], centre=centre))
            for scaled in (True, False):
                for n, p, d in [(7, 2, 1), (8, 3, 2 if meth == "PHD" else 1)]:
                    out.append(Case("fix-%s-%d%d-%d" % (meth, centre, scaled, p), h_hessfix, "n=%d p=%d fixed data" % (n, p), budget=b, meth=meth, n=n, p=p, d=d,
                                    centre=centre, scaled=scaled, seed=10))
    for centre in (True, False):
        out.append(Case("sirx-%d" % centre, h_sirx, "n=6 p=2, one free X cell in [-2,2]", budget=b, n=6, h=2, xc=[(1, 0)], centre=centre))
        out.append(Case("sirx3-%d" % centre, h_sirx, "n=6 p=2, 3 slices, one free X cell", budget=b, n=6, h=3, xc=[(4, 1)], centre=centre))
    for w in ("fixed", "two", "root"):
        out.append(Case("power-" + w, h_power, "3x3 fixed or any regular 2x2", budget=b, what=w))
    return out
