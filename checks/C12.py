"""dicomo, energy statistics: distance covariance and friends, martingale difference divergence."""
from checks.common import *
from engine.harness import Case

ASSUMPTIONS = ["n<=6 points with up to 3 symbolic coordinates; statistics whose square root is taken are at least 1/1024"]


def pts(E, name, n, p, cells, seed, lo=-4, hi=4):
    if p == 1 and cells == "all":
        return E.array(name, (n, 1), lo, hi)
    return mix(E, name, n, p, seed, cells, lo, hi)


def dist(E, x, sq=False):
    n, p = x.shape
    def d(i, j):
        if i == j:
            return 0.0
        s = vsum([(x[i, k] - x[j, k]) * (x[i, k] - x[j, k]) for k in range(p)])
        if sq:
            return s
        return abs(x[i, 0] - x[j, 0]) if p == 1 else sqrt(E, s)
    return [[d(i, j) for j in range(n)] for i in range(n)]


def centre(a, u=False):
    n = len(a)
    r = [vsum(q) for q in a]
    tot = vsum(r)
    if not u:
        return [[a[i][j] - r[i] / n - r[j] / n + tot / (n * n) for j in range(n)] for i in range(n)]
    return [[0.0 if i == j else a[i][j] - r[i] / (n - 2) - r[j] / (n - 2) + tot / ((n - 1) * (n - 2)) for j in range(n)] for i in range(n)]


def inner(A, B, u=False):
    n = len(A)
    s = vsum([dot(A[i], B[i]) for i in range(n)])
    return s / (n * (n - 3)) if u else s / (n * n)


def dm(**k):
    from direpack.dicomo.dicomo import dicomo
    return dicomo(est="distance", **k)


def h_dcov(E, n, p, cx, cy, u):
    x, y = pts(E, "x", n, p, cx, 3), pts(E, "y", n, 1, cy, 4)
    x0, y0 = x.copy(), y.copy()
    A, B = centre(dist(E, x0), u), centre(dist(E, y0), u)
    vx, c, vy = inner(A, A, u), inner(A, B, u), inner(B, B, u)
    E.assume(c, ">", 0.001)
    if p == 1:
        for w in (vx, vy):
            E.assume(w, ">", 0.001)
    for mode in ("fast", "naive"):
        kw = dict(biascorr=u, calcmode=mode)
        E.eq("distance variance, squared, " + mode, sq(dm(mode="var").fit(x, **kw)), vx)
        E.eq("distance covariance, squared, " + mode, sq(dm(mode="cov").fit(x, y=y, **kw)), c)
        E.eq("co-moment, squared, " + mode, sq(dm(mode="com").fit(x, y=y, **kw)), c)
        r = dm(mode="corr").fit(x, y=y, **kw)
        E.eq("distance correlation, fourth power, " + mode, sq(sq(r)) * vx * vy, c * c)
        E.ge("distance correlation not negative, " + mode, r, 0.0)
        E.eq("continuum, " + mode, dm(mode="continuum").fit(x, y=y, alpha=1, **kw), c)
        if p == 1:
            E.eq("continuum 3, " + mode, sq(dm(mode="continuum").fit(x, y=y, alpha=3, **kw)), c * c * vx)
            E.eq("continuum 5, " + mode, dm(mode="continuum").fit(x, y=y, alpha=5, **kw), c * vx)
            E.eq("standard deviation, fourth power, " + mode, sq(sq(dm(mode="std").fit(x, **kw))), vx)
    E.eq("x untouched", x, x0)
    E.eq("y untouched", y, y0)


def sq(v):
    return v * v


METRIC = {"cityblock": lambda d: vsum([abs(v) for v in d]), "chebyshev": lambda d: max(abs(v) for v in d), "sqeuclidean": lambda d: vsum([v * v for v in d])}


def h_metric(E, n, p, cx, cy, u, metric):
    """any distance the caller names, in both calculation modes"""
    x, y = pts(E, "x", n, p, cx, 3), pts(E, "y", n, 1, cy, 4)
    f = METRIC[metric]
    D = lambda a: [[f([a[i, k] - a[j, k] for k in range(a.shape[1])]) for j in range(n)] for i in range(n)]
    A, B = centre(D(x), u), centre(D(y), u)
    vx, c, vy = inner(A, A, u), inner(A, B, u), inner(B, B, u)
    for w in (vx, c, vy):
        E.assume(w, ">", 0.001)
    for mode in ("fast", "naive"):
        kw = dict(biascorr=u, calcmode=mode, dmetric=metric)
        E.eq("variance, squared, " + mode, sq(dm(mode="var").fit(x, **kw)), vx)
        E.eq("covariance, squared, " + mode, sq(dm(mode="cov").fit(x, y=y, **kw)), c)
        E.eq("correlation, fourth power, " + mode, sq(sq(dm(mode="corr").fit(x, y=y, **kw))) * vx * vy, c * c)


def tcentre(a, t, u):
    """double centring with trimmed means"""
    n = len(a)
    n1 = round(n * (1 - t)) if u else n
    r = [vtrim(q, t) for q in a]
    tot = vtrim([v for q in a for v in q], t)
    if u:
        r = [v * n1 / (n1 - 2) for v in r]
        tot = tot * n1 * n1 / ((n1 - 1) * (n1 - 2))
    return [[0.0 if u and i == j else a[i][j] - r[i] - r[j] + tot for j in range(n)] for i in range(n)]


def h_trim(E, n, p, cx, cy, u, t, lo, hi):
    """trimmed distance statistics and trimmed divergence"""
    x, y = pts(E, "x", n, p, cx, 3, lo, hi), pts(E, "y", n, 1, cy, 4, lo, hi)
    A, B = tcentre(dist(E, x), t, u), tcentre(dist(E, y), t, u)
    n1 = round(n * (1 - t))
    f = n1 / (n1 - 3.0) if u else 1.0
    com = lambda P, Q: vtrim([P[i][j] * Q[i][j] for i in range(n) for j in range(n)], t) * f
    vx, c, vy = com(A, A), com(A, B), com(B, B)
    kw = dict(biascorr=u, trimming=t)
    E.eq("trimmed variance, squared", sq(dm(mode="var").fit(x, **kw)), abs(vx))
    E.eq("trimmed covariance, squared", sq(dm(mode="cov").fit(x, y=y, **kw)), abs(c))
    if not cx and not cy:
        E.eq("trimmed correlation, fourth power", sq(sq(dm(mode="corr").fit(x, y=y, **kw))) * abs(vx * vy), c * c)
        E.eq("trimmed correlation with itself", dm(mode="corr").fit(x, y=x, **kw), 1.0)
    G = tcentre([[v / 2 for v in r] for r in dist(E, y, True)], t, u)
    pr = sorted([A[i][j] * G[i][j] for i in range(n) for j in range(n)])
    k = int(t * n * n)
    pr = pr[k:n * n - k]
    m = len(pr) ** 0.5
    ref = vsum(pr) / (m * (m - 3) if u else m * m)
    from direpack.dicomo import _dicomo_utils as ut
    E.eq("trimmed divergence, squared", ut.difference_divergence(x, y, biascorr=u, trimming=t), ref)
    if ref > 0.001:
        E.eq("trimmed divergence", sq(dm(mode="mdd").fit(x, y=y, **kw)), ref)


def h_order(E, n, cx, cy, order, option):
    """naive higher order distance co-moments"""
    x, y = pts(E, "x", n, 1, cx, 3), pts(E, "y", n, 1, cy, 4)
    A, B = centre(dist(E, x)), centre(dist(E, y))
    P = lambda v, k: v if k == 1 else v * P(v, k - 1)
    m = vmean([P(A[i][j], order - option) * P(B[i][j], option) for i in range(n) for j in range(n)])
    g = dm(mode="com").fit(x, y=y, order=order, option=option)
    s = 1 if order % 2 == 0 else -1
    E.eq("co-moment of order %d" % order, P(s * g, order), abs(m))
    v = vmean([P(A[i][j], order) for i in range(n) for j in range(n)])
    E.eq("moment of order %d" % order, P(s * dm(mode="mom").fit(x, order=order, option=option), order), abs(v))


def h_median(E, n, cx):
    from direpack.dicomo import _dicomo_utils as u
    x, y = pts(E, "x", n, 1, cx, 3), pts(E, "y", n, 1, [], 4)
    def mc(a):
        row = [vmed(r) for r in a]
        mu = vmed([v for r in a for v in r])
        return [[a[i][j] - row[i] - row[j] + mu for j in range(n)] for i in range(n)]
    A, B = mc(dist(E, x)), mc(dist(E, y))
    E.eq("median centred distance co-moment", dm(mode="cov", center="median").fit(x, y=y),
         vmed([A[i][j] * B[i][j] for i in range(n) for j in range(n)]))


def h_centre(E, n, p, cells, u):
    from direpack.dicomo import _dicomo_utils as ut
    x = pts(E, "x", n, p, cells, 3)
    M, n1 = ut.distance_matrix_centered(x, biascorr=u)
    E.eq("centred distances", M, centre(dist(E, x), u))
    a = E.const(rng_matrix(n, n, 9))
    s = E.array("a", 2, -8, 8)
    a[0, 1] = s[0]
    a[2, 0] = s[1]
    a0 = a.copy()
    D, k = ut.double_center_flex(a, biascorr=u)
    E.eq("matrix untouched", a, a0)
    if not u:
        for i in range(n):
            E.eq("rows centred", vsum([D[i, j] for j in range(n)]), 0.0)
            E.eq("columns centred", vsum([D[j, i] for j in range(n)]), 0.0)
    else:
        for i in range(n):
            E.eq("zero diagonal", D[i, i], 0.0)


def h_mdd(E, n, p, cx, cy, u):
    from direpack.dicomo import _dicomo_utils as ut
    x, y = pts(E, "x", n, p, cx, 3), pts(E, "y", n, 1, cy, 4)
    x0, y0 = x.copy(), y.copy()
    d = dist(E, x0)
    my = vmean([y0[i, 0] for i in range(n)])
    yc = [y0[i, 0] - my for i in range(n)]
    if not u:
        ref = -vmean([yc[i] * yc[j] * d[i][j] for i in range(n) for j in range(n)])
    else:
        ref = inner(centre(d, True), centre([[v / 2 for v in r] for r in dist(E, y0, True)], True), True)
    E.eq("squared divergence", ut.difference_divergence(x, y, biascorr=u), ref)
    E.assume(ref, ">", 0.001)
    e = dm(mode="mdd")
    g = e.fit(x, y=y, biascorr=u)
    E.eq("divergence, squared", g * g, ref)
    E.eq("moment_", e.moment_, g)
    if not u:
        E.eq("matrix version, one response", ut.MDDM(x, y), [[ref]])
    E.eq("x untouched", x, x0)
    E.eq("y untouched", y, y0)


def h_mddm(E, n, p, q, cx, cy):
    from direpack.dicomo import _dicomo_utils as ut
    x, y = pts(E, "x", n, p, cx, 3), mix(E, "y", n, q, 4, cy, -4, 4)
    x0, y0 = x.copy(), y.copy()
    d = dist(E, x)
    m = colw(y, vmean)
    c = [[y[i, k] - m[k] for k in range(q)] for i in range(n)]
    ref = [[-vmean([c[i][a] * c[j][b] * d[i][j] for i in range(n) for j in range(n)]) for b in range(q)] for a in range(q)]
    E.eq("divergence matrix", ut.MDDM(x, y), ref)
    E.eq("x untouched", x, x0)
    E.eq("y untouched", y, y0)


def h_inv(E, n, mode, u, calc):
    """x -> a x + b, y -> c y + d with any nonzero a, c"""
    x, y = pts(E, "x", n, 1, [] if mode == "corr" else [(1, 0)], 3), pts(E, "y", n, 1, [], 4)
    a, b = E.scalar("a", 0.125, 8), E.scalar("b", -8, 8)
    c, d = E.scalar("c", 0.125, 8), E.scalar("d", -8, 8)
    kw = dict(biascorr=u, calcmode=calc)
    A = centre(dist(E, x), u)
    B = centre(dist(E, y), u)
    for w in (inner(A, B, u), inner(A, A, u)):
        E.assume(w, ">", 0.001)
    s = dm(mode=mode).fit(x, y=y, **kw)
    t = dm(mode=mode).fit(a * x + b, y=-c * y + d, **kw)
    f = {"cov": a * c, "corr": 1.0, "mdd": c * c * a}[mode]
    if mode == "corr":
        E.eq("no units", t, s)
    else:
        E.eq("units", t * t, f * s * s)
        if mode == "cov":
            E.eq("symmetric", dm(mode=mode).fit(y, y=x, **kw), s)


def h_perm(E, n, mode):
    x, y = pts(E, "x", n, 1, [(1, 0)], 3), pts(E, "y", n, 1, [(0, 0)], 4)
    A, B = centre(dist(E, x)), centre(dist(E, y))
    E.assume(inner(A, B), ">", 0.001)
    o = [(3 * i + 2) % n for i in range(n)]
    E.eq("order of the cases", dm(mode=mode).fit(x[o, :], y=y[o, :]), dm(mode=mode).fit(x, y=y))


def cases(tier):
    T = tier == "thorough"
    out = []
    bud = 400 if T else 60
    add = lambda nm, f, bd, **k: out.append(Case(nm, f, bd, budget=bud, **k))
    for u in (False, True):
        s = "u" if u else "b"
        for n, p, cx, cy in [(4, 1, [(1, 0)], []), (5, 1, [(2, 0)], [])] + ([(6, 1, [(2, 0)], []), (4, 1, [(1, 0)], [(2, 0)]), (4, 2, [(1, 0)], [])] if T else []):
            add("dcov-%s-%d-%d-%d%d" % (s, n, p, len(cx), len(cy)), h_dcov, "n=%d p=%d symbolic %s %s" % (n, p, cx, cy), n=n, p=p, cx=cx, cy=cy, u=u)
        add("dcov-%s-fixed" % s, h_dcov, "n=7 p=3, fixed x, one y", n=7, p=3, cx=[], cy=[(1, 0)], u=u)
        add("centre-%s" % s, h_centre, "n=4, 2 coordinates", n=4, p=1, cells=[(0, 0), (2, 0)], u=u)
        add("centre2-%s" % s, h_centre, "n=4 p=2, 1 coordinate", n=4, p=2, cells=[(0, 0)], u=u)
        add("mdd-%s-1" % s, h_mdd, "n=4, x 1, y 1 symbolic", n=4, p=1, cx=[(1, 0)], cy=[(2, 0)], u=u)
        add("mdd-%s-y" % s, h_mdd, "n=5 p=2, two y", n=5, p=2, cx=[], cy=[(0, 0), (3, 0)], u=u)
        if T:
            add("mdd-%s-x" % s, h_mdd, "n=4 p=2, one x", n=4, p=2, cx=[(0, 1)], cy=[], u=u)
        for mode in ("cov", "corr", "mdd"):
            for calc in ("fast", "naive"):
                add("units-%s-%s-%s" % (s, mode, calc), h_inv, "n=4, one entry and units", n=4, mode=mode, u=u, calc=calc)
        for metric in METRIC:
            add("metric-%s-%s" % (s, metric), h_metric, "n=5 p=3, %s, one y" % metric, n=5, p=3, cx=[], cy=[(1, 0)], u=u, metric=metric)
        for n, p, t in [(6, 1, 0.1), (6, 2, 0.2), (9, 1, 0.12)]:
            add("trim-%s-%d-%d" % (s, n, int(100 * t)), h_trim, "n=%d p=%d trimming %s" % (n, p, t), n=n, p=p, cx=[], cy=[], u=u, t=t, lo=0, hi=1)
        add("trimy-%s" % s, h_trim, "n=6 p=1 trimming 0.2, one y in [0,1/32]", n=6, p=1, cx=[], cy=[(2, 0)], u=u, t=0.2, lo=0, hi=0.03125)
        add("wide-dcov-%s" % s, h_dcov, "n=6 p=6, fixed x, one y", n=6, p=6, cx=[], cy=[(1, 0)], u=u)
        add("wide-mdd-%s" % s, h_mdd, "n=6 p=6, two y", n=6, p=6, cx=[], cy=[(0, 0), (3, 0)], u=u)
        add("long-dcov-%s" % s, h_dcov, "n=12 p=2, one y", n=12, p=2, cx=[], cy=[(5, 0)], u=u)
        add("long-mdd-%s" % s, h_mdd, "n=12 p=2, one y", n=12, p=2, cx=[], cy=[(5, 0)], u=u)
    for order, option in [(3, 1), (3, 2), (4, 1), (4, 2), (4, 3)]:
        add("order-%d-%d" % (order, option), h_order, "n=3, 1 entry", n=3, cx=[(1, 0)], cy=[], order=order, option=option)
    add("median-3", h_median, "n=3, 1 entry", n=3, cx=[(1, 0)])
    if T:
        add("median-4", h_median, "n=4, 1 entry", n=4, cx=[(1, 0)])
    for n, p, q, cx, cy in [(4, 1, 2, [(0, 0)], [(1, 1)]), (4, 2, 2, [(0, 0)], []), (5, 3, 2, [], [(1, 1), (2, 0)]), (3, 1, 1, [(0, 0), (1, 0)], [(1, 0)]),
                            (6, 6, 3, [], [(1, 1), (2, 0)]), (11, 4, 2, [], [(7, 1), (2, 0)]), (5, 4, 5, [], [(1, 1), (2, 4)])]:
        add("mddm-%d-%d-%d" % (n, p, q), h_mddm, "n=%d p=%d q=%d symbolic %s %s" % (n, p, q, cx, cy), n=n, p=p, q=q, cx=cx, cy=cy)
    for mode in ("cov", "mdd"):
        add("perm-" + mode, h_perm, "n=5, 1+1", n=5, mode=mode)
    return out
