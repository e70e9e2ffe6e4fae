"""location and scale estimators equal their definitions, column by column, missing values left out."""
from checks.common import *
from engine.harness import Case

ASSUMPTIONS = ["missing-value patterns are enumerated up to n=4 (every pattern leaving >=1 value per column)",
               "trimmed estimators: complete data only"]


def h_def(E, n, p, nan=(), which="all", cells=None, lo=-8, hi=8):
    from direpack.preprocessing import _preproc_utilities as u
    np = E.np
    X = E.array("x", (n, p)) if cells is None else mix(E, "x", n, p, 23 + n, cells, lo, hi)
    for i, j in nan:
        X[i, j] = float("nan")
    X0 = X.copy()
    ok = lambda f: colw(X0, lambda v: f([x for i, x in enumerate(v) if not bool(np.isnan(x))]))
    if which in ("all", "mean"):
        E.eq("mean", u.mean(X), ok(vmean))
    if which in ("all", "median"):
        E.eq("median", u.median(X), ok(vmed))
    if which in ("all", "mad"):
        E.eq("mad", u.mad(X), ok(vmad))
    if which in ("all", "std"):
        E.eq("std", u.std(X), ok(lambda v: vstd(E, v)))
    E.eq("input untouched", X, X0)


def h_ints(E, n, p):
    from direpack.preprocessing import _preproc_utilities as u
    A = int_matrix(n, p, 57)
    X, X0 = E.ints(A), E.const(A)
    b = E.scalar("b", 0, 1)
    for w, f in (("mean", vmean), ("median", vmed), ("mad", vmad), ("std", lambda v: vstd(E, v))):
        E.eq(w + " of integers", E.np.array(getattr(u, w)(X)) + b, [v + b for v in colw(X0, f)])
    E.eq("trimmed mean of integers", u.mean(X, trimming=0.3), colw(X0, lambda v: vtrim(v, 0.3)))
    E.eq("trimmed std of integers", u.std(X, trimming=0.3), colw(X0, lambda v: vtrimstd(E, v, 0.3)))


def h_kw(E, n):
    """the generic call with a trimming keyword; consistency factor of mad"""
    from direpack.preprocessing import _preproc_utilities as u
    X = E.array("x", (n, 1))
    c = E.scalar("c", 0.125, 4)
    E.eq("median kw", u.median(X, trimming=0.2), colw(X, vmed))
    E.eq("mad kw", u.mad(X, trimming=0.2), colw(X, vmad))
    E.eq("mad factor", u.mad(X, c=c), colw(X, lambda v: vmad(v, c)))
    v = X.reshape(-1)
    E.eq("median of a vector", u.median(v), colw(X, vmed))
    E.eq("mad of a vector", u.mad(v), colw(X, vmad))


def h_const(E, n, value, nan=()):
    """constant columns have no scale, whatever the constant is"""
    from direpack.preprocessing import _preproc_utilities as u
    b = E.scalar("b", 1, 8)
    A = rng_matrix(n, 1, 66)
    X = E.np.array([[value, A[i][0] * b] for i in range(n)])
    for i in nan:
        X[i, 0] = float("nan")
    one = lambda f: f([A[i][0] * b for i in range(n)])
    s = u.std(X)
    E.eq("std of a constant", s[0], 0.0)
    E.eq("std of the other column", s[1], one(lambda v: vstd(E, v)))
    if not nan:
        for t in (0.1, 0.3):
            q = u.std(X, trimming=t)
            E.eq("trimmed std of a constant", q[0], 0.0)
            E.eq("trimmed std of the other column", q[1], one(lambda v: vtrimstd(E, v, t)))


def h_trim(E, n, p, t, cells=None, what="both", lo=-8, hi=8):
    from direpack.preprocessing import _preproc_utilities as u
    X = E.array("x", (n, p)) if cells is None else mix(E, "x", n, p, 29 + n, cells, lo, hi)
    X0 = X.copy()
    E.eq("trimmed mean", u.mean(X, trimming=t), colw(X0, lambda v: vtrim(v, t)))
    if what == "both":
        E.eq("trimmed std", u.std(X, trimming=t), colw(X0, lambda v: vtrimstd(E, v, t)))
    E.eq("input untouched", X, X0)


def h_equiv(E, n, p, cells, which):
    """estimates follow the units of the data: loc(a x + b) = a loc(x) + b, scale(a x + b) = |a| scale(x)"""
    from direpack.preprocessing import _preproc_utilities as u
    np = E.np
    X = E.array("x", (n, p)) if cells is None else mix(E, "x", n, p, 31 + n, cells)
    a, b = E.array("a", p, -4, 4), E.array("b", p)
    E.assume(a, "!=", 0)
    Y = np.array([[a[j] * X[i, j] + b[j] for j in range(p)] for i in range(n)])
    L = {"mean": u.mean, "median": u.median, "tmean": lambda Z: u.mean(Z, trimming=0.34)}
    S = {"std": u.std, "mad": u.mad, "tstd": lambda Z: u.std(Z, trimming=0.34)}
    if which in L:
        l, l2 = L[which](X), L[which](Y)
        E.eq("location equivariance", l2, [a[j] * l[j] + b[j] for j in range(p)])
    else:
        s, s2 = S[which](X), S[which](Y)
        E.eq("scale equivariance", s2, [abs(a[j]) * s[j] for j in range(p)])
        E.ge("scale is nonnegative", s, 0.0)


def h_perm(E, n):
    """order of the cases is irrelevant"""
    from direpack.preprocessing import _preproc_utilities as u
    X = E.array("x", (n, 1))
    Y = X[::-1]
    for f in (u.mean, u.median, u.mad, u.std):
        E.eq("permutation " + f.__name__, f(Y), f(X))


def cases(tier):
    import itertools
    T = tier == "thorough"
    out = []
    B = "n=%d, p=%d, all cells symbolic in [-8,8]"
    for n, p in [(2, 1), (3, 1), (4, 1), (3, 2)] + ([(5, 1), (2, 3), (4, 2)] if T else []):
        for w in ("mean", "median", "mad", "std"):
            out.append(Case("def-%s-%dx%d" % (w, n, p), h_def, B % (n, p), n=n, p=p, which=w,
                            budget=400 if T else 100, max_paths=8000))
    out.append(Case("def-median-5x1", h_def, B % (5, 1), n=5, p=1, which="median"))
    # missing patterns
    for n, p in [(3, 1), (4, 1), (3, 2)]:
        pats = []
        idx = list(itertools.product(range(n), range(p)))
        for r in range(1, (n - 1) * p + 1):
            for sub in itertools.combinations(idx, r):
                if all(sum(1 for s in sub if s[1] == j) <= n - 1 for j in range(p)):
                    pats.append(sub)
        if (n, p) == (3, 2) and not T:
            pats = pats[:6] + pats[6::7]
        for q in pats:
            out.append(Case("nan-%dx%d-%s" % (n, p, "".join("%d%d." % s for s in q)), h_def,
                            B % (n, p) + ", missing cells %s" % (q,), n=n, p=p, nan=q, budget=60))
    for n, p, cells in [(12, 4, [(5, 2)]), (25, 3, [(24, 1)]), (7, 5, [(0, 0), (6, 4)]), (10, 2, [(3, 0), (4, 0)])]:
        out.append(Case("big-%dx%d" % (n, p), h_def, "fixed %dx%d, %d symbolic cells" % (n, p, len(cells)) + (" in [-1,1]" if len(cells) > 1 and not T else ""), n=n, p=p,
                        cells=cells, budget=300 if T else 60, **({} if len(cells) < 2 or T else dict(lo=-1, hi=1))))
        out.append(Case("bignan-%dx%d" % (n, p), h_def, "fixed %dx%d with missing cells, %d symbolic" % (n, p, len(cells)),
                        n=n, p=p, cells=cells, nan=[(1, 0), (2, 1), (3, 1)]))
        for t in (0.1, 0.2, 0.45):
            out.append(Case("bigtrim-%dx%d-%s" % (n, p, t), h_trim, "fixed data, %d symbolic cells" % len(cells) + (" in [-1,1]" if len(cells) > 1 and not T else ""), n=n,
                            p=p, cells=cells, t=t, budget=300 if T else 60, **({} if len(cells) < 2 or T else dict(lo=-1, hi=1))))
    for n, p, cells in [(60, 2, [(30, 1)]), (101, 1, [(7, 0)]), (14, 15, [(3, 11)])]:
        out.append(Case("large-%dx%d" % (n, p), h_def, "fixed %dx%d, 1 symbolic cell in [-1/32,1/32]" % (n, p), n=n, p=p, cells=cells, lo=-0.03125, hi=0.03125))
    for n, p in [(7, 3), (8, 2), (31, 1)]:
        out.append(Case("ints-%dx%d" % (n, p), h_ints, "fixed integers with ties", n=n, p=p))
    out.append(Case("largetrim", h_trim, "fixed 60x1, 1 symbolic cell in [-1/32,1/32]", n=60, p=1, cells=[(9, 0)], t=0.15, what="mean", lo=-0.03125, hi=0.03125))
    for n, t in [(26, 0.04), (51, 0.02)] + ([(40, 0.03), (101, 0.01), (30, 0.04)] if T else []):
        out.append(Case("smalltrim-%d-%s" % (n, t), h_trim, "fixed %dx1, 1 symbolic cell" % n, n=n, p=1, cells=[(n // 2, 0)], t=t, what="mean" if n > 26 else "both"))
    for n, p, t in [(3, 1, 0.34), (4, 1, 0.25), (4, 1, 0.1), (3, 2, 0.34)] + ([(5, 1, 0.2), (5, 1, 0.4)] if T else []):
        out.append(Case("trim-%dx%d-%s" % (n, p, t), h_trim, B % (n, p), n=n, p=p, t=t, budget=300 if T else 100))
    for w in ("mean", "median", "tmean", "std", "mad", "tstd"):
        out.append(Case("equiv-%s-3x1" % w, h_equiv, B % (3, 1) + ", a in [-4,4], b in [-8,8]", n=3, p=1, cells=None,
                        which=w, budget=100))
        out.append(Case("equiv-%s-8x2" % w, h_equiv, "fixed 8x2, 1 symbolic cell, a,b symbolic", n=8, p=2,
                        cells=[(2, 1)], which=w, budget=100))
    out.append(Case("perm-3", h_perm, B % (3, 1), n=3))
    for v in (0.1, 0.7, 1234.56789, 3.0):
        for n, nan in [(3, ()), (6, ()), (10, ()), (11, (0, 4)), (7, (6,))]:
            out.append(Case("constant-%s-%d-%d" % (v, n, len(nan)), h_const, "n=%d, a constant column and one in symbolic units" % n, n=n, value=v, nan=nan))
    out.append(Case("kw-3", h_kw, B % (3, 1), n=3))
    out.append(Case("kw-4", h_kw, B % (4, 1), n=4))
    return out
