"""robust weight functions, robust_loss, broken-stick proportions, CV score table."""
import types
from checks.common import *
from engine.harness import Case

ASSUMPTIONS = ["cut-offs 0 < c < b < r are symbolic (c in [1/16,4]); arguments in [0,20]; n<=3 symbolic entries, 10 with "
               "one symbolic"]


def fair(x, c, b, r):
    u = 1 + abs(x) / (2 * c)
    return 1 / (u * u)


def huber(x, c, b, r):
    return 1.0 if x <= c else c / x


def hampel(x, c, b, r):
    if x <= c:
        return 1.0
    if x <= b:
        return c / x
    if x <= r:
        return c * (r - x) / ((r - b) * x)
    return 0.0


REF = {"Fair": fair, "Huber": huber, "Hampel": hampel}


def cut(E):
    c = E.scalar("c", 0.0625, 4)
    b = c + E.scalar("db", 0.0625, 4)
    r = b + E.scalar("dr", 0.0625, 4)
    return c, b, r


def h_w(E, fun, n, shape="flat", fixed=()):
    from direpack.sprm import _m_support_functions as m
    f = getattr(m, fun)
    c, b, r = cut(E) if not fixed else (0.7, 1.3, 2.9)
    if fixed:
        x = E.const(([0.0, 0.1, 0.69, 0.9, 1.29, 1.5, 2.0, 2.89, 3.1, 25.0] * (1 + n // 10))[:n])
        v = E.array("x", len(fixed), 0, 20)
        for k, i in enumerate(fixed):
            x[i] = v[k]
    else:
        x = E.array("x", n, 0, 20)
    if shape == "col":
        x = x.reshape((-1, 1))
    x0 = x.copy()
    w = f(x, c, b, r)
    R = [REF[fun](x0[i] if shape == "flat" else x0[i, 0], c, b, r) for i in range(n)]
    E.eq("weights", w, R if shape == "flat" else [[v] for v in R])
    E.eq("argument untouched", x, x0)
    if not fixed:
        E.ge("weights >= 0", w, 0.0)
        E.le("weights <= 1", w, 1.0)


def h_signed(E):
    """Fair weighs by absolute value, as its definition says"""
    from direpack.sprm import _m_support_functions as m
    c = E.scalar("c", 0.0625, 4)
    x = E.array("x", 3, -20, 20)
    w = m.Fair(x, c)
    E.eq("weights", w, [fair(x[i], c, 0, 0) for i in range(3)])
    E.le("weights <= 1", w, 1.0)
    E.eq("sign is irrelevant", m.Fair(-x, c), w)


def h_mono(E, fun):
    """a larger distance never gets a larger weight"""
    from direpack.sprm import _m_support_functions as m
    f = getattr(m, fun)
    c, b, r = cut(E)
    x = E.scalar("x", 0, 20)
    y = x + E.scalar("d", 0, 20)
    w = f(E.np.array([x, y]), c, b, r)
    E.le("non-increasing", w[1], w[0])


def h_loss(E, fun, n, shape="flat"):
    from direpack.cross_validation._cv_support_functions import robust_loss
    from direpack.sprm import _m_support_functions as m
    y, p = E.array("y", n), E.array("p", n)
    c, b, r = 1.5, 2.25, 3.0
    e = [y[i] - p[i] for i in range(n)]
    w = [REF[fun](abs(v), c, b, r) for v in e]
    sw = vsum(w)
    E.assume(sw, ">", 0.0)
    ref = vsum([a * v * v for a, v in zip(w, e)]) / sw
    a1, a2 = (y, p) if shape == "flat" else (y.reshape((-1, 1)), p.reshape((-1, 1)))
    L = robust_loss(a1, a2, fun=getattr(m, fun), probct=c, hampelb=b, hampelr=r)
    E.eq("weighted loss", L, ref)
    L2 = robust_loss(a2, a1, fun=getattr(m, fun), probct=c, hampelb=b, hampelr=r)
    E.eq("sign of the residuals is irrelevant", L2, L)


def h_bs(E, h):
    from direpack.sprm._m_support_functions import brokenstick
    k = E.scalar("unused", 0, 1)
    q = brokenstick(h)
    E.eq("broken stick", q, [[sum(1.0 / j for j in range(i, h + 1)) / h] for i in range(1, h + 1)])


def h_cv(E, n):
    from direpack.cross_validation._cv_support_functions import cv_score_table
    s, eta = E.array("s", n), E.array("eta", n, 0, 1)
    res = types.SimpleNamespace(cv_results_={
        "params": [{"eta": eta[i], "n_components": (7 * i + 3) % 5} for i in range(n)], "mean_test_score": s})
    t = cv_score_table(res)
    E.true("columns", list(t.columns) == ["etas", "n_components", "score"], str(list(t.columns)))
    E.eq("etas", E.np.array(t["etas"]), eta)
    E.eq("n_components", E.np.array(t["n_components"]), [float((7 * i + 3) % 5) for i in range(n)])
    E.eq("score", E.np.array(t["score"]), s)


def cases(tier):
    T = tier == "thorough"
    out = []
    for f in REF:
        for n in (1, 2, 3):
            for sh in ("flat", "col"):
                out.append(Case("%s-%d-%s" % (f, n, sh), h_w, "%d arguments in [0,20], cut-offs symbolic" % n, fun=f, n=n,
                                shape=sh))
        for k in range(10):
            out.append(Case("%s-fixed-%d" % (f, k), h_w, "10 arguments, one symbolic", fun=f, n=10, fixed=[k],
                            shape="col" if k % 2 else "flat"))
        for sh in ("flat", "col"):
            out.append(Case("%s-long-%s" % (f, sh), h_w, "60 arguments, one symbolic", fun=f, n=60, fixed=[37], shape=sh))
        if f == "Fair":
            out.append(Case("Fair-signed", h_signed, "3 arguments in [-20,20], cut-off symbolic"))
        out.append(Case("%s-monotone" % f, h_mono, "x <= y in [0,40], cut-offs symbolic", fun=f))
        for n, sh in [(1, "flat"), (2, "flat"), (2, "col")] + ([(3, "flat")] if T else []):
            out.append(Case("loss-%s-%d-%s" % (f, n, sh), h_loss, "n=%d responses and predictions symbolic" % n, fun=f, n=n,
                            shape=sh))
    for h in range(1, 13):
        out.append(Case("brokenstick-%d" % h, h_bs, "h=%d" % h, h=h))
    for n in (1, 4):
        out.append(Case("cvtable-%d" % n, h_cv, "%d settings, scores and etas symbolic" % n, n=n))
    return out
