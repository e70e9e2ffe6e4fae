"""ppdire's native grid optimiser: the search visits the stated directions and returns the best one it saw."""
import math
from checks.common import *
from checks.C13 import Index, decompose
from engine.harness import Case

ASSUMPTIONS = ["p=2: the projection index is an adversary that may return any value in [-3,3] for every direction; "
               "p=3: third moment / variance index on fixed data with one symbolic cell or fixed data",
               "ndir<=6 directions per plane, maxiter<=2"]


class Adversary:
    """an index whose values are the solver's choice"""
    log = None
    zero = None
    E = None

    def __init__(self, **k):
        pass

    def fit(self, x, **k):
        v = lst(x.reshape(-1))
        if self.zero is not None and all(abs(float_(q)) < 1e-9 for q in v):
            return self.zero     # nothing left in this direction
        for a, s in self.log:
            if all(abs(float_(p) - float_(q)) < 1e-9 for p, q in zip(a, v)):
                return s
        s = self.E.scalar("s%d" % len(self.log), -3, 3)
        self.log.append((v, s))
        return s


def float_(x):
    c = getattr(x, "c", None)
    return float(c) if c is not None else float(x)


def near(a, b):
    """the same value up to rounding, for every value of the symbolic cells"""
    d = a - b
    if getattr(d, "c", 0) is None:
        return d.sp is None and all(abs(c) < 1e-9 for c in d.num.values())
    return abs(float_(d)) < 1e-9


def h_plane(E, ndir, square, h=1, two=False):
    """two columns: the weights are the best of ndir evenly spaced directions of the half circle"""
    from direpack.ppdire.ppdire import ppdire
    n, p = 3, 2
    X = E.const([[1.5, 0.25], [-0.5, 1.0], [-1.0, -1.25]])
    y = E.const([0.5, -1.0, 0.5])
    log = []

    class A(Adversary):
        pass
    A.log, A.E = log, E
    if h > 1:
        A.zero = -4.0
    m = ppdire(projection_index=A, n_components=h, optimizer="grid", optimizer_options={"ndir": ndir, "maxiter": 2}, center_data=False, scale_data=False,
               square_pi=square, verbose=False)
    m.fit(X, y) if two else m.fit(X)
    D = lst(X)
    done = 0
    for i in range(h):
        grid = [[math.cos(math.pi * k / ndir), math.sin(math.pi * k / ndir)] for k in range(ndir)]
        proj = [[dot(r, g) for r in D] for g in grid]
        vals = []
        for q in proj:
            hit = [-4.0] if h > 1 and all(abs(float_(u)) < 1e-9 for u in q) else \
                [s for a, s in log if all(abs(float_(u) - float_(v)) < 1e-6 for u, v in zip(a, q))]
            E.true("every direction of the half circle is evaluated", len(hit) >= 1)
            if not hit:
                return
            vals.append(hit[0])
        vals = [v * v for v in vals] if square else vals
        best = vals[0]
        for v in vals[1:]:
            if v > best:
                best = v
        w = [m.x_weights_[0, i], m.x_weights_[1, i]]
        E.eq("unit weights", dot(w, w), 1.0)
        E.eq("optimal value", m.Maxobjf_[i, 0], best)
        at = [v for g, v in zip(grid, vals) if abs(float_(g[0]) - float_(w[0])) < 1e-9 and abs(float_(g[1]) - float_(w[1])) < 1e-9]
        E.true("weights are a grid direction", len(at) == 1)
        if len(at) == 1:
            E.eq("weights attain the maximum", at[0], best)
        t = [dot(r, w) for r in D]
        E.eq("scores", [m.x_scores_[j, i] for j in range(n)], t)
        tt = dot(t, t)
        pl = [vsum([D[r][j] * t[r] for r in range(n)]) / tt for j in range(p)]
        E.eq("loadings", [m.x_loadings_[j, i] for j in range(p)], pl)
        D = [[D[r][j] - t[r] * pl[j] for j in range(p)] for r in range(n)]
    E.eq("transform(training) is x_scores_", m.transform(X), m.x_scores_)


class Var:
    def __init__(self, **k):
        pass

    def fit(self, x, **k):
        return vvar(lst(x.reshape(-1)))

    @staticmethod
    def value(v, w=None):
        return vvar(v)


class NegVar(Var):
    """an index that is never positive"""

    def fit(self, x, **k):
        return -vvar(lst(x.reshape(-1)))

    @staticmethod
    def value(v, w=None):
        return -vvar(v)


def h_space(E, n, p, h, index, ndir, maxiter, cells, square, center, scale, two, seed, lo=-2, hi=2, dic=None):
    """three or more columns: unit weights, consistent decomposition, index value reported = index of the scores, and never
    worse than the first column"""
    from direpack.ppdire.ppdire import ppdire
    from direpack.dicomo.dicomo import dicomo
    X = mix(E, "x", n, p, seed, cells, lo, hi)
    y = E.const([r[0] for r in rng_matrix(n, 1, seed + 1)])
    X0 = X.copy()
    if dic:
        P0, kw, val = dicomo, {"mode": dic}, Var.value
    else:
        P0, kw, val = index, {}, index.value
    seen = []

    class P(P0):
        def fit(self, x, **k):
            r = P0.fit(self, x, **k)
            seen.append(lst(x.reshape(-1)))
            return r
    m = ppdire(projection_index=P, pi_arguments=kw, n_components=h, optimizer="grid", optimizer_options={"ndir": ndir, "maxiter": maxiter},
               center=center, center_data=center != "None", scale_data=scale, square_pi=square, verbose=False) \
        if center != "None" else ppdire(projection_index=P, pi_arguments=kw, n_components=h, optimizer="grid",
                                        optimizer_options={"ndir": ndir, "maxiter": maxiter}, center_data=False, scale_data=False, square_pi=square,
                                        verbose=False)
    m.fit(X, y) if two else m.fit(X)
    sc = ("std" if center == "mean" else "mad") if scale else "None"
    mx, sx = LOC(E, X0, center), unit(SCA(E, X0, sc))
    Z = [[(X0[i, j] - mx[j]) / sx[j] for j in range(p)] for i in range(n)]
    my, sy = LOC(E, y.reshape((-1, 1)), center), unit(SCA(E, y.reshape((-1, 1)), sc))
    v = [(y[i] - my[0]) / sy[0] for i in range(n)] if two else None
    ws = [[m.x_weights_[j, i] for j in range(p)] for i in range(h)]
    W, T, Pl, Es = decompose(E, Z, ws)
    for i in range(h):
        E.eq("unit weights", dot(ws[i], ws[i]), 1.0)
        E.eq("scores", [m.x_scores_[r, i] for r in range(n)], T[i])
        E.eq("loadings", [m.x_loadings_[j, i] for j in range(p)], Pl[i])
        pi = val(T[i], v)
        pi = pi * pi if square else pi
        E.eq("optimal value is the index of the scores", m.Maxobjf_[i, 0], pi)
        if two:
            E.eq("crit_values_", m.crit_values_[i, 0], pi)
        if ndir % 2:
            first = val([r[0] for r in Es[i]], v)
            E.ge("not worse than the first column", pi, first * first if square else first)
    if ndir % 2 and h == 1:
        # the refinement keeps the current direction among its candidates; columns on their own are not candidates
        own = [[r[j] for r in Es[0]] for j in range(1, p)]
        for q in seen:
            if any(all(near(a, b) for a, b in zip(q, o)) for o in own):
                continue
            a = val(q, v)
            E.ge("not worse than any direction visited", m.Maxobjf_[0, 0], a * a if square else a)
    E.eq("transform(training) is x_scores_", m.transform(X), tr(T))
    E.eq("X untouched", X, X0)


def h_space_any(E, ndir, maxiter, p=3, square=False):
    """three columns, any index (values are the solver's choice, the same for the same projection)"""
    from direpack.ppdire.ppdire import ppdire
    n = p
    X = E.const([[1.5, 0.25, 0.5, 0.1], [-0.5, 1.0, -0.25, 0.3], [-1.0, -1.25, 0.75, 0.2], [0.5, 0.25, 1.5, -1.0]][:n])[:, :p]
    log = []

    class A(Adversary):
        pass
    A.log, A.E = log, E
    m = ppdire(projection_index=A, n_components=1, optimizer="grid", optimizer_options={"ndir": ndir, "maxiter": maxiter}, center_data=False,
               scale_data=False, square_pi=square, verbose=False)
    m.fit(X)
    w = [m.x_weights_[j, 0] for j in range(p)]
    E.eq("unit weights", dot(w, w), 1.0)
    t = [dot([X[i, j] for j in range(p)], w) for i in range(n)]
    E.eq("scores", [m.x_scores_[i, 0] for i in range(n)], t)

    def value(v):
        hit = [s for a, s in log if all(abs(float_(p) - float_(q)) < 1e-9 for p, q in zip(a, v))]
        E.true("the direction has been evaluated", len(hit) == 1)
        return hit[0] * hit[0] if square else hit[0]
    v = value(t)
    E.eq("optimal value is the index of the scores", m.Maxobjf_[0, 0], v)
    if ndir % 2:
        E.ge("not worse than the first column", v, value([X[i, 0] for i in range(n)]))
        own = [[X[i, j] for i in range(n)] for j in range(1, p)]
        for q, s in log:
            if not any(all(near(a, b) for a, b in zip(q, o)) for o in own):
                E.ge("not worse than any direction visited", v, s * s if square else s)


def h_options(E):
    """options given to one fit are not changed, and a later estimator with default options is not affected"""
    from direpack.ppdire.ppdire import ppdire
    X = E.const([[1.5, 0.25], [-0.5, 1.0], [-1.0, -1.25]])
    opts = {"ndir": 4, "maxiter": 2}
    log = []

    class A(Adversary):
        pass
    A.log, A.E = log, E
    m = ppdire(projection_index=A, n_components=1, optimizer="grid", optimizer_options=opts, center_data=False, scale_data=False, verbose=False)
    m.fit(X)
    E.true("options untouched", opts == {"ndir": 4, "maxiter": 2}, str(opts))


def cases(tier):
    T = tier == "thorough"
    out = []
    for ndir in (2, 3, 4, 5) + ((6, 7) if T else ()):
        for square in (False, True):
            out.append(Case("plane-%d-%s" % (ndir, square), h_plane, "p=2, %d directions, any index values" % ndir, budget=600 if T else 80, ndir=ndir,
                            square=square))
    out.append(Case("plane-two-block", h_plane, "p=2, 4 directions, any index values", ndir=4, square=False, two=True))
    out.append(Case("plane-h2", h_plane, "p=2, 2 components, 3 directions", ndir=3, square=False, h=2))
    b = dict(budget=600 if T else 80)

    def add(nm, **k):
        k = dict(dict(n=5, p=3, h=1, index=Var, ndir=3, maxiter=1, cells=[], square=False, center="None", scale=False, two=False, seed=5), **k)
        out.append(Case(nm, h_space, "n=%d p=%d h=%d ndir=%d maxiter=%d, symbolic X cells %s" % (k["n"], k["p"], k["h"], k["ndir"], k["maxiter"], k["cells"]),
                        **b, **k))
    add("space-var", cells=[(1, 0)])
    add("space-var-c", cells=[(1, 2)], center="mean", n=4)
    add("space-third", cells=[(1, 1)], index=Index, ndir=3 if not T else 5, lo=-1 if not T else -2, hi=1 if not T else 2)
    add("space-third-5", cells=[(0, 0)], index=Index, ndir=5, lo=-1 if not T else -2, hi=1 if not T else 2)
    if T:
        add("space-var-2", cells=[(0, 0), (2, 2)], ndir=5)
    add("space-square", cells=[(1, 1)], index=Index, square=True, lo=0.5 if not T else -2, hi=1 if not T else 2)
    add("space-negative", cells=[(1, 0)], index=NegVar, square=True)
    add("space-negative-2", cells=[(0, 2)], index=NegVar)
    for sd in (5, 6, 7):
        add("space-negative-%d" % sd, index=NegVar, square=True, ndir=7, maxiter=2, seed=sd, p=4, n=8, center="mean", scale=True)
        add("space-square-%d" % sd, index=Index, square=True, ndir=5, maxiter=2, seed=sd)
        add("space-square-p5-%d" % sd, index=Index, square=True, ndir=7, maxiter=2, seed=sd, p=5, n=9, two=True, center="median", scale=True)
        add("space-third-p4-%d" % sd, index=Index, ndir=9, maxiter=3, seed=sd, p=4, n=8, center="mean")
    add("space-two", index=Index, ndir=5, two=True, h=2, center="mean", scale=True, maxiter=2)
    add("space-two-sq", index=Index, ndir=6, two=True, h=2, center="median", scale=True, maxiter=4, square=True)
    add("space-dicomo", dic="var", ndir=5, h=2, center="mean", scale=True, maxiter=3)
    add("space-p4", n=7, p=4, ndir=7, h=3, center="mean", maxiter=3)
    out.append(Case("space-any-2", h_space_any, "p=3, 2 directions, any index", ndir=2, maxiter=1, **b))
    out.append(Case("space-any-2-sq", h_space_any, "p=3, 2 directions, any index squared", ndir=2, maxiter=1, square=True, **b))
    if T:
        out.append(Case("space-any-3", h_space_any, "p=3, 3 directions, any index", ndir=3, maxiter=1, **b))
        out.append(Case("space-any-4", h_space_any, "p=3, 4 directions, any index", ndir=4, maxiter=1, **b))
        out.append(Case("space-any-3-2", h_space_any, "p=3, 3 directions, 2 refinements, any index", ndir=3, maxiter=2, **b))
    out.append(Case("options", h_options, "p=2"))
    return out
