"""dicomo, product-moment statistics: definitions, corrections, invariances, no memory between fits."""
from checks.common import *
from engine.harness import Case

ASSUMPTIONS = ["n<=6 fully symbolic entries in [-8,8] (order statistics) or n<=8 with two symbolic entries; variances that are "
               "divided by are at least 1/16"]


def dm(**k):
    from direpack.dicomo.dicomo import dicomo
    return dicomo(**k)


def tmean(v, t):
    return vtrim(v, t) if t else vmean(v)


def cm(x, y, a, b, t=0):
    mx, my = tmean(x, t), tmean(y, t)
    def P(v, k):
        r = v
        for _ in range(k - 1):
            r = r * v
        return r
    if a and b:
        return tmean([P(u - mx, a) * P(w - my, b) for u, w in zip(x, y)], t)
    return tmean([P(u - mx, a) for u in x], t)


def nt(n, t):
    return round(n * (1 - t))


def vec(E, name, n, cells=None, seed=1, shape="flat"):
    if cells is None:
        x = E.array(name, n, -8, 8)
    else:
        x = E.const([r[0] for r in rng_matrix(n, 1, seed)])
        v = E.array(name, len(cells), -4, 4)
        for k, i in enumerate(cells):
            x[i] = v[k]
    return x.reshape((-1, 1)) if shape == "col" else x


def flat(x):
    return [x[i, 0] for i in range(x.shape[0])] if x.ndim == 2 else [x[i] for i in range(len(x))]


def h_mom(E, n, shape, cells=None, t=0):
    x = vec(E, "x", n, cells, 3, shape)
    x0 = x.copy()
    v = flat(x0)
    N = nt(n, t)
    kw = dict(trimming=t) if t else {}
    E.eq("variance", dm(mode="var").fit(x, biascorr=False, **kw), cm(v, v, 2, 0, t))
    E.eq("variance by default biased", dm(mode="var").fit(x, **kw), cm(v, v, 2, 0, t))
    E.eq("corrected variance", dm(mode="var").fit(x, biascorr=True, **kw), cm(v, v, 2, 0, t) * N / (N - 1))
    for k in (2, 3, 4):
        e = dm(mode="mom")
        E.eq("moment of order %d" % k, e.fit(x, biascorr=False, order=k, **kw), cm(v, v, k, 0, t))
        E.eq("moment_ attribute", e.moment_, cm(v, v, k, 0, t))
        E.eq("x_moment_ attribute", e.x_moment_, cm(v, v, k, 0, t))
    E.eq("order 1", dm(mode="mom").fit(x, order=1, **kw), tmean(v, t))
    E.eq("order overruled by mode", dm(mode="var").fit(x, order=3, **kw), cm(v, v, 2, 0, t))
    E.eq("input untouched", x, x0)


def h_shape(E, n, cells, t=0):
    """std, skewness, kurtosis, with and without small sample correction"""
    x = vec(E, "x", n, cells, 3)
    v = flat(x)
    N = nt(n, t)
    kw = dict(trimming=t) if t else {}
    m2, m3, m4 = (cm(v, v, k, 0, t) for k in (2, 3, 4))
    E.assume(m2, ">", 0.0625)
    s = sqrt(E, m2)
    E.eq("std", dm(mode="std").fit(x, **kw), s)
    E.eq("corrected std", dm(mode="std").fit(x, biascorr=True, **kw), sqrt(E, m2 * N / (N - 1)))
    g1 = m3 / (m2 * s)
    E.eq("skewness", dm(mode="skew").fit(x, **kw), g1)
    E.eq("corrected skewness", dm(mode="skew").fit(x, biascorr=True, **kw), g1 * sqrt(E, N * (N - 1.0)) / (N - 2))
    g2 = m4 / (m2 * m2)
    E.eq("kurtosis", dm(mode="kurt").fit(x, **kw), g2)
    G2 = ((N * N - 1.0) * g2 - 3.0 * (N - 1) * (N - 1)) / ((N - 2) * (N - 3))
    E.eq("corrected kurtosis", dm(mode="kurt").fit(x, biascorr=True, **kw), G2)
    E.eq("corrected kurtosis, not excess", dm(mode="kurt").fit(x, biascorr=True, Fisher=False, **kw), G2 + 3)


def h_com(E, n, shape, cx=None, cy=None, t=0):
    x, y = vec(E, "x", n, cx, 3, shape), vec(E, "y", n, cy, 4, shape)
    x0, y0 = x.copy(), y.copy()
    u, v = flat(x0), flat(y0)
    N = nt(n, t)
    kw = dict(trimming=t) if t else {}
    c = cm(u, v, 1, 1, t)
    E.eq("covariance", dm(mode="cov").fit(x, y=y, **kw), c)
    E.eq("corrected covariance", dm(mode="cov").fit(x, y=y, biascorr=True, **kw), c * N / (N - 1))
    e = dm(mode="com")
    E.eq("co-moment of order 2", e.fit(x, y=y, **kw), c)
    E.eq("co_moment_ attribute", e.co_moment_, c)
    for k, o in [(3, 1), (3, 2), (4, 1), (4, 2), (4, 3)]:
        E.eq("co-moment %d/%d" % (k, o), dm(mode="com").fit(x, y=y, order=k, option=o, **kw), cm(u, v, k - o, o, t))
    E.eq("co-moment of order 3, default option", dm(mode="com").fit(x, y=y, order=3, **kw), cm(u, v, 2, 1, t))
    E.eq("corrected third co-moment", dm(mode="com").fit(x, y=y, order=3, option=1, biascorr=True, **kw),
         cm(u, v, 2, 1, t) * N * N / ((N - 1) * (N - 2)))
    E.eq("M3", dm(mode="M3").fit(x, y=y, option=2, **kw), cm(u, v, 1, 2, t))
    E.eq("x untouched", x, x0)
    E.eq("y untouched", y, y0)


def h_std_com(E, n, cx, cy, t=0):
    """correlation, continuum association, co-skewness, co-kurtosis"""
    x, y = vec(E, "x", n, cx, 3), vec(E, "y", n, cy, 4)
    u, v = flat(x), flat(y)
    N = nt(n, t)
    kw = dict(trimming=t) if t else {}
    vx, vy = cm(u, u, 2, 0, t), cm(v, v, 2, 0, t)
    E.assume(vx, ">", 0.0625)
    E.assume(vy, ">", 0.0625)
    sx, sy = sqrt(E, vx), sqrt(E, vy)
    c = cm(u, v, 1, 1, t)
    e = dm(mode="corr")
    r = e.fit(x, y=y, **kw)
    E.eq("correlation", r, c / (sx * sy))
    E.eq("co_moment_ of the correlation", e.co_moment_, c)
    E.eq("x_moment_ of the correlation", e.x_moment_, vx)
    E.eq("y_moment_ of the correlation", e.y_moment_, vy)
    E.eq("correlation needs no correction", dm(mode="corr").fit(x, y=y, biascorr=True, **kw), c / (sx * sy))
    for alpha in (0, 1, 3):
        f = 1.0 / sx if alpha == 0 else (1.0 if alpha == 1 else vx)
        E.eq("continuum %s" % alpha, dm(mode="continuum").fit(x, y=y, alpha=alpha, **kw), c * c * f)
    E.eq("continuum, default alpha", dm(mode="continuum").fit(x, y=y, **kw), c * c)
    for o in (1, 2):
        den = (sx * sx * sy) if o == 1 else (sx * sy * sy)
        E.eq("co-skewness %d" % o, dm(mode="cos").fit(x, y=y, option=o, **kw), cm(u, v, 3 - o, o, t) / den)
        E.eq("co-skewness not standardized %d" % o, dm(mode="cos").fit(x, y=y, option=o, standardized=False, **kw), cm(u, v, 3 - o, o, t))
    for o in (1, 2, 3):
        den = {1: sx * sx * sx * sy, 2: vx * vy, 3: sx * sy * sy * sy}[o]
        g = cm(u, v, 4 - o, o, t)
        E.eq("co-kurtosis %d" % o, dm(mode="cok").fit(x, y=y, option=o, **kw), g / den)
        E.eq("co-kurtosis not standardized %d" % o, dm(mode="cok").fit(x, y=y, option=o, standardized=False, **kw), g)
        if N > 3:
            G = ((N * N - 1.0) * g / den - 3.0 * (N - 1) * (N - 1)) / ((N - 2) * (N - 3))
            E.eq("corrected co-kurtosis %d" % o, dm(mode="cok").fit(x, y=y, option=o, biascorr=True, **kw), G)
            E.eq("corrected co-kurtosis, not excess %d" % o, dm(mode="cok").fit(x, y=y, option=o, biascorr=True, Fisher=False, **kw), G + 3.0)
    cf = N / (N - 1.0)
    E.eq("corrected co-skewness", dm(mode="cos").fit(x, y=y, option=1, biascorr=True, **kw),
         cm(u, v, 2, 1, t) * N * N / ((N - 1) * (N - 2)) / (vx * cf * sy * sqrt(E, cf)))


def h_alike(E, n, cells, t=0):
    """a co-moment of a variable with itself is its moment"""
    x = vec(E, "x", n, cells, 3)
    E.assume(cm(flat(x), flat(x), 2, 0, t), ">", 0.0625)
    kw = dict(trimming=t) if t else {}
    for b in (False, True):
        k = dict(kw, biascorr=b)
        E.eq("covariance, %s" % b, dm(mode="cov").fit(x, y=x, **k), dm(mode="var").fit(x, **k))
        E.eq("co-kurtosis, %s" % b, dm(mode="cok").fit(x, y=x.copy(), **k), dm(mode="kurt").fit(x, **k))
        for o in (2, 3):
            E.eq("co-kurtosis %d, %s" % (o, b), dm(mode="cok").fit(x, y=x, option=o, **k), dm(mode="kurt").fit(x, **k))
        E.eq("co-skewness, %s" % b, dm(mode="cos").fit(x, y=x, **k), dm(mode="skew").fit(x, **k))
        s = dm(mode="std").fit(x, **k)
        E.eq("std, %s" % b, s * s, dm(mode="var").fit(x, **k))
        E.eq("third co-moment, %s" % b, dm(mode="M3").fit(x, y=x, **k), dm(mode="com").fit(x, y=x, order=3, **k))


def h_trimvar(E, n, t):
    from direpack.dicomo import _dicomo_utils as ut
    x = vec(E, "x", n, [0, 2], 3, "col")
    E.eq("trimmed variance", ut.trimvar(x, t).reshape(-1), [cm(flat(x), flat(x), 2, 0, t)])


def h_median(E, n):
    x, y = E.array("x", n, -8, 8), E.const([1.0, -2.5, 0.75, 4.0, -1.0, 3.0, 0.1][:n])
    u, v = flat(x), flat(y)
    if bool(x[0] == y[0]) and bool(x[n - 1] == y[n - 1]):
        E.stop()   # x and y identical: see h_self
    E.eq("median centred: scaled MAD", dm(mode="var", center="median").fit(x), 1.4826 * vmed([abs(a - vmed(u)) for a in u]))
    E.eq("comedian", dm(mode="cov", center="median").fit(x, y=y),
         vmed([(a - vmed(u)) * (b - vmed(v)) for a, b in zip(u, v)]))
    E.eq("order 1 is the median", dm(mode="mom", center="median").fit(x, order=1, trimming=0), vmed(u))


def h_self(E):
    x = E.const([1.0, -2.5, 0.75, 4.0, -1.0])
    u = flat(x)
    E.eq("comedian of x with itself", dm(mode="cov", center="median").fit(x, y=x.copy()), vmed([(a - vmed(u)) * (a - vmed(u)) for a in u]))


def h_inv(E, n, mode, center, kw, deg, cells):
    """a x + b, c y + d"""
    x, y = vec(E, "x", n, cells, 3), vec(E, "y", n, [], 4)
    v = flat(x)
    if center == "mean":
        E.assume(cm(v, v, 2, 0), ">", 0.0625)
    else:
        E.assume(vmed([abs(a - vmed(v)) for a in v]), ">", 0.0625)
    a, b = E.scalar("a", 0.125, 8), E.scalar("b", -8, 8)
    c, d = E.scalar("c", 0.125, 8), E.scalar("d", -8, 8)
    sa_ = 1.0
    k = dict(kw)
    two = mode in ("cov", "corr", "com", "cos", "cok", "continuum")
    A = dm(mode=mode, center=center).fit(x, **(dict(k, y=y) if two else k))
    B = dm(mode=mode, center=center).fit(a * x + b, **(dict(k, y=c * y + d) if two else k))
    f = 1.0
    for _ in range(deg[0]):
        f = f * a
    for _ in range(deg[1]):
        f = f * c
    E.eq("units of " + mode, B, A * f)
    if mode == "corr" and center == "mean":
        B = dm(mode=mode, center=center).fit(-a * x + b, **dict(k, y=c * y + d))
        E.eq("sign of the correlation", B, -A)


def h_sym(E, n, cells, mode, center):
    x, y = vec(E, "x", n, cells, 3), vec(E, "y", n, [1], 4)
    if mode == "corr":
        for w in (x, y):
            E.assume(cm(flat(w), flat(w), 2, 0), ">", 0.0625)
    E.eq("symmetric in x and y", dm(mode=mode, center=center).fit(x, y=y), dm(mode=mode, center=center).fit(y, y=x))
    if mode == "corr":
        r = dm(mode=mode, center=center).fit(x, y=y)
        E.le("correlation at most 1", r * r, 1.0)
        z = x * 2.0 - 1.0
        E.eq("correlation with itself", dm(mode=mode, center=center).fit(x, y=z), 1.0)


def h_history(E, first):
    """an estimate does not depend on what the same object estimated before"""
    x, y = vec(E, "x", 5, [1, 3], 3), vec(E, "y", 5, [], 4)
    E.assume(cm(flat(x), flat(x), 2, 0), ">", 0.0625)
    for center in ("mean", "median"):
        e = dm(mode=first, center=center)
        e.fit(x, **(dict(y=y) if first in ("cos", "M3", "cok", "corr", "continuum", "cov") else {}))
        E.true("settings are kept", e.center == center and e.mode == first, str((e.center, e.mode)))
        for mode in ("var", "cov"):
            e.set_params(mode=mode)
            kw = dict(y=y) if mode == "cov" else {}
            E.eq("refit as " + mode, e.fit(x, **kw), dm(mode=mode, center=center).fit(x, **kw))


def h_err(E, mode, bad):
    from direpack.dicomo.dicomo import MyException as A
    from direpack.utils.utils import MyException as B
    x = vec(E, "x", 4)
    e = dm(mode=mode)
    if bad == "missing":
        E.raises("second vector needed", (A, B), e.fit, x)
    elif bad == "length":
        E.raises("equal lengths needed", (A, B), e.fit, x, y=E.array("y", 5))


def cases(tier):
    T = tier == "thorough"
    out = []
    B = 300 if T else 60
    add = lambda nm, f, bd, **k: out.append(Case(nm, f, bd, budget=B, **k))
    for n in (2, 3, 4) + ((5, 6) if T else ()):
        add("mom-%d" % n, h_mom, "n=%d all entries" % n, n=n, shape="flat")
    add("mom-col", h_mom, "n=3 column", n=3, shape="col")
    for n, t in [(4, 0.25), (5, 0.2), (5, 0.1)] + ([(6, 0.2), (6, 0.4)] if T else []):
        add("momtrim-%d-%s" % (n, t), h_mom, "n=%d, 2 symbolic entries, trimming %s" % (n, t), n=n, shape="flat", t=t, cells=[0, 2] if T or n < 5 else [2])
    for n, c, t in ([(4, [0, 1], 0), (5, [0, 3], 0), (8, [1, 2], 0), (6, [0, 1], 0.1)] if T else []) + [(4, [1], 0), (5, [0], 0), (9, [4], 0), (7, [1], 0.2), (6, [0], 0.1)]:
        add("shape-%d-%d-%s" % (n, len(c), t), h_shape, "n=%d symbolic entries %s" % (n, c), n=n, cells=c, t=t)
    for n in (2, 3):
        if n > 2:
            add("com-%d" % n, h_com, "n=%d all entries of both" % n, n=n, shape="flat")
    add("com-col", h_com, "n=4, 2+2 entries", n=4, shape="col", cx=[0, 2], cy=[1, 3])
    add("com-8", h_com, "n=8, 2+1 entries", n=8, shape="flat", cx=[0, 2], cy=[5])
    for n, t in [(5, 0.2), (6, 0.2), (8, 0.25)]:
        add("comtrim-%d-%s" % (n, t), h_com, "n=%d, 1+1 entries, trimming %s" % (n, t), n=n, shape="flat", t=t, cx=[0], cy=[3] if T and n < 8 else [])
    for n, cx, cy, t in ([(4, [0, 1], [2], 0)] if T else []) + [(6, [0], [2], 0), (5, [0, 1], [], 0), (9, [3], [], 0), (7, [1], [], 0.2), (6, [], [1], 0.2)]:
        add("std-com-%d-%d%d-%s" % (n, len(cx), len(cy), t), h_std_com, "n=%d, symbolic %s, %s" % (n, cx, cy), n=n, cx=cx, cy=cy, t=t)
    for n in (3, 4) if T else (3,):
        add("median-%d" % n, h_median, "n=%d all entries of x" % n, n=n)
    add("median-self", h_self, "fixed n=5")
    for mode, kw, deg in [("var", {}, (2, 0)), ("std", {}, (1, 0)), ("mom", dict(order=3), (3, 0)), ("mom", dict(order=4), (4, 0)),
                          ("skew", {}, (0, 0)), ("kurt", {}, (0, 0)), ("cov", {}, (1, 1)), ("corr", {}, (0, 0)),
                          ("com", dict(order=3, option=1), (2, 1)), ("com", dict(order=4, option=3), (1, 3)), ("cos", {}, (0, 0)),
                          ("cok", {}, (0, 0)), ("continuum", dict(alpha=1), (2, 2)), ("continuum", dict(alpha=3), (4, 2))]:
        add("units-%s-%s" % (mode, "".join(str(v) for v in kw.values())), h_inv, "n=4, one entry and the units symbolic", n=4, mode=mode,
            center="mean", kw=kw, deg=deg, cells=[1])
    add("units-skew-corr", h_inv, "n=5", n=5, mode="skew", center="mean", kw=dict(biascorr=True), deg=(0, 0), cells=[1])
    add("units-kurt-corr", h_inv, "n=5", n=5, mode="kurt", center="mean", kw=dict(biascorr=True), deg=(0, 0), cells=[1])
    for o in (1, 2, 3):
        add("units-cok-corr-%d" % o, h_inv, "n=5, one entry and the units symbolic", n=5, mode="cok", center="mean", kw=dict(biascorr=True, option=o), deg=(0, 0), cells=[1])
    for n, c, t in [(4, [1], 0), (6, [2], 0), (7, [1], 0.2)]:
        add("alike-%d-%s" % (n, t), h_alike, "n=%d, entries %s" % (n, c), n=n, cells=c, t=t)
    for n, t in [(4, 0.25), (6, 0.2), (5, 0)]:
        add("trimvar-%d-%s" % (n, t), h_trimvar, "n=%d, two entries" % n, n=n, t=t)
    add("units-var-median", h_inv, "n=5", n=5, mode="var", center="median", kw={}, deg=(1, 0), cells=[1, 2])
    add("units-cov-median", h_inv, "n=5", n=5, mode="cov", center="median", kw={}, deg=(1, 1), cells=[1])
    add("units-corr-median", h_inv, "n=5, fixed data", n=5, mode="corr", center="median", kw={}, deg=(0, 0), cells=[])
    for mode, center in [("cov", "mean"), ("corr", "mean"), ("cov", "median")]:
        add("symmetry-%s-%s" % (mode, center), h_sym, "n=4, 2+1 entries", n=4, cells=[0, 2], mode=mode, center=center)
    for first in ("std", "skew", "kurt", "cos", "M3", "cok", "corr", "continuum", "var", "cov"):
        add("history-" + first, h_history, "n=5, 2 entries", first=first)
    for mode in ("cov", "corr", "com", "continuum", "cos"):
        for bad in ("missing", "length"):
            add("refuse-%s-%s" % (mode, bad), h_err, "n=4", mode=mode, bad=bad)
    return out
