"""capi: the projection index is the weighted sum of exactly the co-moments that were asked for."""
from checks.common import *
from checks.C11 import cm, vec, flat
from engine.harness import Case

ASSUMPTIONS = ["n=4..5, symbolic weights in [-3,3], one symbolic entry in x and one in y (all entries symbolic for raw co-moments, n=3)",
               "variances that are divided by are at least 1/16"]
SLOTS = [(2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3)]


def wanted(max_degree, options):
    o = (1, 2, 3) if options == "all" else tuple(options)
    return [d <= max_degree and (d == 2 or k in o) for d, k in SLOTS]


def h_capi(E, n, scaling, max_degree, options, cx, cy, shape="flat", t=0):
    from direpack.ppdire.capi import capi
    x, y = vec(E, "x", n, cx, 3, shape), vec(E, "y", n, cy, 4, shape)
    x0, y0 = x.copy(), y.copy()
    u, v = flat(x0), flat(y0)
    w = [E.scalar("w%d" % i, -3, 3) for i in range(6)]
    kw = dict(trimming=t) if t else {}
    raw = [cm(u, v, d - k, k, t) for d, k in SLOTS]
    if scaling:
        vx, vy = cm(u, u, 2, 0, t), cm(v, v, 2, 0, t)
        E.assume(vx, ">", 0.0625)
        E.assume(vy, ">", 0.0625)
        sx, sy = sqrt(E, vx), sqrt(E, vy)
        den = [1.0, vx * sy, sx * vy, vx * sx * sy, vx * vy, sx * vy * sy]
        raw = [a / b for a, b in zip(raw, den)]
    want = [a if ok else 0.0 for a, ok in zip(raw, wanted(max_degree, options))]
    e = capi(max_degree=max_degree, projection_index=dicomo_(), pi_arguments={"mode": "cov"}, weights=w, scaling=scaling, options=options)
    total = vsum([a * b for a, b in zip(w, want)])
    E.eq("index", e.fit(x, y, **kw), total)
    E.eq("capi_index_", e.capi_index_, total)
    E.eq("moments_", e.moments_, want)
    E.eq("again", e.fit(x, y, **kw), total)
    E.eq("x untouched", x, x0)
    E.eq("y untouched", y, y0)


def dicomo_():
    from direpack.dicomo.dicomo import dicomo
    return dicomo


def h_default(E, n):
    """default weights: co-moments up to order three count positively, fourth order negatively"""
    from direpack.ppdire.capi import capi
    x, y = vec(E, "x", n, [0], 3), vec(E, "y", n, [2], 4)
    u, v = flat(x), flat(y)
    raw = [cm(u, v, d - k, k) for d, k in SLOTS]
    e = capi(max_degree=4, projection_index=dicomo_(), pi_arguments={"mode": "cov"}, scaling=False)
    E.eq("index", e.fit(x, y), raw[0] + raw[1] + raw[2] - raw[3] - raw[4] - raw[5])
    e2 = capi(projection_index=dicomo_(), pi_arguments={"mode": "cov"})
    E.eq("default degree is two: the covariance", e2.fit(x, y), raw[0])


def h_history(E, first, then, scaling):
    """an object used before, with other settings and data, gives what a new one gives"""
    from direpack.ppdire.capi import capi
    x, y = vec(E, "x", 4, [1], 3), vec(E, "y", 4, [], 4)
    if scaling:
        E.assume(cm(flat(x), flat(x), 2, 0), ">", 0.0625)
    w = [E.scalar("w%d" % i, -3, 3) for i in range(6)]

    def new(k):
        return capi(projection_index=dicomo_(), pi_arguments={"mode": "cov"}, weights=w, scaling=scaling, **k)
    e = new(first)
    e.fit(E.const([1.0, 4.0, 2.0, 0.5, 3.0]), E.const([0.0, -1.0, 2.0, 2.5, 1.0]))
    e.set_params(**then)
    g = new(then)
    E.eq("index", e.fit(x, y), g.fit(x, y))
    E.eq("moments_", e.moments_, g.moments_)
    E.eq("capi_index_", e.capi_index_, g.capi_index_)


def h_plugin(E, scaling, max_degree, options):
    """any plug-in: asked for the right modes, orders and options, with the caller's arguments; any values it returns are combined"""
    from direpack.ppdire.capi import capi
    calls = []
    vals = {}

    class Plug:
        def __init__(self, **k):
            self.p = dict(k)

        def set_params(self, **k):
            self.p.update(k)
            return self

        def fit(self, x, **k):
            d, o = k["order"], int(k["option"])
            calls.append((self.p["mode"], d, o, k))
            if (d, o) not in vals:
                vals[(d, o)] = E.scalar("v%d%d" % (d, o), -5, 5)
            return vals[(d, o)]
    x, y = E.const([1.0, 2.0, 4.0]), E.const([0.0, 1.0, -1.0])
    w = [E.scalar("w%d" % i, -3, 3) for i in range(6)]
    e = capi(max_degree=max_degree, projection_index=Plug, pi_arguments={"mode": "cov"}, weights=w, scaling=scaling, options=options)
    got = e.fit(x, y, trimming=0.1, biascorr=True)
    ok = wanted(max_degree, options)
    names = {2: "cov", 3: "cos", 4: "cok"} if scaling else {2: "com", 3: "com", 4: "com"}
    seen = sorted({(d, o) for _, d, o, _ in calls})
    need = [s for s, f in zip(SLOTS, ok) if f]
    E.true("the co-moments asked for", [s for s in seen if s[0] > 2] == [s for s in need if s[0] > 2] and seen[0][0] == 2, str(seen))
    for mode, d, o, k in calls:
        E.true("mode of order %d" % d, mode == names[d], mode)
        E.true("arguments are passed on", k.get("trimming") == 0.1 and k.get("biascorr") is True)
        E.eq("the response is passed on", k["y"].reshape(-1), [0.0, 1.0, -1.0])
    E.eq("index", got, vsum([a * vals.get(s, 0.0) if f else 0.0 * a for a, s, f in zip(w, SLOTS, ok)]))


def h_refuse(E, deg):
    from direpack.ppdire.capi import capi
    x, y = vec(E, "x", 4, [0], 3), vec(E, "y", 4, [2], 4)

    def go():
        capi(max_degree=deg, projection_index=dicomo_(), pi_arguments={"mode": "cov"}).fit(x, y)
    E.raises("degree %d refused" % deg, ValueError, go)


def cases(tier):
    T = tier == "thorough"
    out = []
    for deg in (2, 3, 4):
        for opt in ("all", [1], [1, 2], [2], [1, 3], [2, 3], [3]):
            nm = "%d-%s" % (deg, opt if opt == "all" else "".join(map(str, opt)))
            for sc in (False, True):
                out.append(Case("plugin-%s-%s" % (nm, sc), h_plugin, "any plug-in values, any weights", scaling=sc, max_degree=deg, options=opt))
            if opt in ("all", [1], [2]) or T:
                out.append(Case("raw-" + nm, h_capi, "n=4, one x, one y, any weights", n=4, scaling=False, max_degree=deg, options=opt, cx=[1], cy=[2], budget=120))
                out.append(Case("scaled-" + nm, h_capi, "n=4, one x entry, any weights", n=4, scaling=True, max_degree=deg, options=opt, cx=[1], cy=[], budget=120))
    out.append(Case("raw-full", h_capi, "n=3, all entries, any weights", n=3, scaling=False, max_degree=3, options="all", cx=None, cy=None))
    out.append(Case("raw-col", h_capi, "n=4 columns", n=4, scaling=False, max_degree=4, options="all", cx=[1], cy=[2], shape="col"))
    out.append(Case("raw-trim", h_capi, "n=5, 20% trimming", n=5, scaling=False, max_degree=4, options="all", cx=[1], cy=[], t=0.2))
    out.append(Case("default", h_default, "n=5, one x, one y", n=5))
    D = lambda d, o: dict(max_degree=d, options=o)
    for i, (a, b) in enumerate([(D(4, "all"), D(2, "all")), (D(4, "all"), D(3, [1])), (D(3, [2]), D(3, [1])), (D(3, "all"), D(4, [1, 3])), (D(2, "all"), D(4, "all"))]):
        for sc in (False, True):
            out.append(Case("history-%d-%s" % (i, sc), h_history, "n=4, one x entry, any weights; fitted with %s before, then %s" % (a, b), first=a, then=b, scaling=sc))
    for d in (0, 1, 5):
        out.append(Case("refuse-%d" % d, h_refuse, "", deg=d))
    return out
