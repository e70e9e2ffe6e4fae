"""generalised spatial signs: radial functions, one-pass function == class == covariance matrix."""
from checks.common import *
from engine.harness import Case

ASSUMPTIONS = ["distances are cubes t^3 of symbolic radii t in [0,3], so that the 2/3 powers used for the "
               "Wilson-Hilferty cut-offs stay polynomial; n<=5, p<=n",
               "directions of the rows are fixed rational unit vectors"]

FUN = ["ss", "quad", "winsor", "ball", "shell", "linear_redescending"]


def radial(E, fun, t, p):
    """reference radial weights for distances d_i = t_i^3 (so d^(2/3) = t^2)"""
    n = len(t)
    d = [x * x * x for x in t]
    h = (n + p + 1) // 2
    if fun == "ss":
        return [1 / (x if x > 1e-10 else 1e-10) for x in d]
    hm = sorted(t)[h - 1]
    dh = hm * hm * hm
    if fun == "quad":
        return [dh * dh / (x * x) if x > dh else 1.0 for x in d]
    if fun == "winsor":
        return [dh / x if x > dh else 1.0 for x in d]
    if fun == "ball":
        return [0.0 if x > dh else 1.0 for x in d]
    w = [x * x for x in t]
    wh = hm * hm
    ma = sorted([abs(x - wh) for x in w])[h - 1]
    if fun == "shell":
        return [0.0 if abs(x - wh) > ma else 1.0 for x in w]
    if fun == "linear_redescending":
        hi = wh + 1.4826 * ma
        cut = sqrt(E, hi) * hi
        out = []
        for x, v in zip(d, w):
            if v <= wh:
                out.append(1.0)
            elif v <= hi:
                out.append(1 - (x - dh) / (cut - dh))
            else:
                out.append(0.0)
        return out


def h_rad(E, fun, n, p, fixed=(), lo=0.125, hi=3):
    from direpack.preprocessing import _gsspp_utils as g
    t = E.array("t", n, 0.125, 3) if not fixed else mix1(E, n, fixed, lo, hi)
    t = [t[i] for i in range(n)]
    distinct(E, t)
    dd = E.np.array([[x * x * x] for x in t])
    dd0 = dd.copy()
    xi = getattr(g, fun)(dd, p, n)
    E.eq("radial weights " + fun, xi, [[v] for v in radial(E, fun, t, p)])
    E.eq("distances untouched", dd, dd0)
    if fun != "ss" and (fixed or fun != "linear_redescending"):
        E.ge("weights >= 0", xi, 0.0)
        E.le("weights <= 1", xi, 1.0)


def h_inner(E, fun, n, p):
    """ball / shell / linear_redescending where d^(2/3) rounding is avoided by exact radii 0 and 1"""
    from direpack.preprocessing import _gsspp_utils as g
    z = [0.0, 1.0]
    import itertools
    for bits in itertools.product(z, repeat=n):
        dd = E.np.array([[b] for b in bits])
        xi = getattr(g, fun)(dd, p, n)
        E.eq("radial weights 0/1 " + fun, xi, [[v] for v in radial(E, fun, list(bits), p)])


def mix1(E, n, idx, lo=0.125, hi=3):
    import random
    r = random.Random(77 + n)
    a = E.const([round(r.uniform(0.2, 2.8), 2 if n < 20 else 5) for _ in range(n)])
    v = E.array("t", len(idx), lo, hi)
    for k, i in enumerate(idx):
        a[i] = v[k]
    return a


def distinct(E, t):
    for i in range(len(t)):
        for j in range(i):
            E.assume(t[i], "!=", t[j])


DIRS = [(1.0, 0.0), (0.6, 0.8), (0.0, -1.0), (-0.8, 0.6), (-1.0, 0.0), (0.8, -0.6)]


def rows(E, t):
    out = []
    for i, x in enumerate(t):
        a, b = DIRS[i % 6]
        out.append([x * x * x * a, x * x * x * b])
    return out


def h_pp(E, fun, n, byname=True, fixed=()):
    """data at known directions: every route gives weight * centred row"""
    from direpack.preprocessing.gsspp import GenSpatialSignPreProcessor, gen_ss_pp, gen_ss_covmat
    from direpack.preprocessing import _gsspp_utils as g
    p = 2
    t = E.array("t", n, 0.125, 3) if not fixed else mix1(E, n, fixed)
    t = [t[i] for i in range(n)]
    distinct(E, t)
    m = E.array("m", 2)
    R = rows(E, t)
    w = radial(E, fun, t, p)
    ref = [[w[i] * R[i][j] for j in range(2)] for i in range(n)]
    cov = [[vsum([ref[i][a] * ref[i][b] for i in range(n)]) / n for b in range(2)] for a in range(2)]
    f = fun if byname else getattr(g, fun)
    # no centring
    X = E.np.array(R)
    X0 = X.copy()
    E.eq("gen_ss_pp, no centring", gen_ss_pp(X, center="None", fun=f), ref)
    E.eq("covariance, no centring", gen_ss_covmat(X, center="None", fun=f), cov)
    # centring at any location estimate (callable)
    loc = lambda X, trimming=0: E.np.array(m)
    Xc = E.np.array([[R[i][j] + m[j] for j in range(2)] for i in range(n)])
    E.eq("gen_ss_pp, centred", gen_ss_pp(Xc, center=loc, fun=f), ref)
    E.eq("covariance, centred", gen_ss_covmat(Xc, center=loc, fun=f), cov)
    pp = GenSpatialSignPreProcessor(center=loc, fun=f)
    E.eq("fit_transform", pp.fit_transform(Xc), ref)
    E.eq("gss_", pp.gss_, [[v] for v in w])
    E.eq("Xm_", pp.Xm_, R)
    E.eq("transform of the training data", pp.transform(Xc), ref)
    E.eq("input untouched", X, X0)


def h_centre(E, fun, center, n):
    """named location estimators: class, function and covariance matrix agree, rows keep their direction"""
    from direpack.preprocessing.gsspp import GenSpatialSignPreProcessor, gen_ss_pp, gen_ss_covmat
    X = mix(E, "x", n, 2, 51, [(0, 0)])
    c = LOC(E, X, center)
    A = gen_ss_pp(X, center=center, fun=fun)
    pp = GenSpatialSignPreProcessor(center=center, fun=fun)
    B = pp.fit_transform(X)
    E.eq("function == class", A, B)
    C = gen_ss_covmat(X, center=center, fun=fun)
    E.eq("covariance of the preprocessed data", C,
         [[vsum([B[i, a] * B[i, b] for i in range(n)]) / n for b in range(2)] for a in range(2)])
    for i in range(n):
        r = [X[i, 0] - c[0], X[i, 1] - c[1]]
        E.eq("direction kept", B[i, 0] * r[1] - B[i, 1] * r[0], 0.0)
        E.ge("not flipped", B[i, 0] * r[0] + B[i, 1] * r[1], 0.0)
        if fun in ("quad", "winsor"):
            E.le("not lengthened", B[i, 0] * B[i, 0] + B[i, 1] * B[i, 1], r[0] * r[0] + r[1] * r[1])


def h_new(E, n):
    """transform of new data: centred with the training location, then brought to unit length"""
    from direpack.preprocessing.gsspp import GenSpatialSignPreProcessor
    m = E.array("m", 2)
    X = E.const(rng_matrix(5, 2, 4))
    t = E.array("t", n, 0.125, 3)
    R = rows(E, [t[i] for i in range(n)])
    pp = GenSpatialSignPreProcessor(center=lambda X, trimming=0: E.np.array(m), fun="ss")
    pp.fit(X)
    Y = E.np.array([[R[i][j] + m[j] for j in range(2)] for i in range(n)])
    E.eq("new data", pp.transform(Y), [list(DIRS[i]) for i in range(n)])


def h_ssorth(E, n):
    """spatial sign rows have unit length (centred data away from the origin)"""
    from direpack.preprocessing.gsspp import gen_ss_pp
    X = E.array("x", (n, 2))
    for i in range(n):
        E.assume(X[i, 0] * X[i, 0] + X[i, 1] * X[i, 1], ">", 0.0625)
    S = gen_ss_pp(X, center="None", fun="ss")
    for i in range(n):
        E.eq("unit length", S[i, 0] * S[i, 0] + S[i, 1] * S[i, 1], 1.0)


def cases(tier):
    T = tier == "thorough"
    out = []
    for fun in FUN:
        hard = fun in ("shell", "linear_redescending")
        for n, p in [(3, 1), (3, 2)] + ([(4, 1), (4, 2), (4, 3)] if T or not hard else []) + ([(5, 2), (5, 3), (3, 3)] if T else []):
            b = 40 if n < 5 else 200
            out.append(Case("radial-%s-%d-%d" % (fun, n, p), h_rad, "n=%d radii symbolic in [1/8,3], distinct, p=%d" % (n, p),
                            fun=fun, n=n, p=p, budget=b))
        for n, p in [(4, 2), (5, 1), (6, 3)] if hard else []:
            out.append(Case("radial-%s-two-%d-%d" % (fun, n, p), h_rad, "n=%d, 2 symbolic radii" % n, fun=fun, n=n, p=p,
                            fixed=[0, n - 1], budget=40))
        out.append(Case("radial-%s-fixed-9-3" % fun, h_rad, "n=9, 1 symbolic radius", fun=fun, n=9, p=3, fixed=[4], budget=40))
        out.append(Case("radial-%s-fixed-12-5" % fun, h_rad, "n=12, 1 symbolic radius", fun=fun, n=12, p=5, fixed=[7], budget=40))
        out.append(Case("radial-%s-fixed-30-8" % fun, h_rad, "n=30, p=8, 1 symbolic radius" + (" in [1.4,1.7]" if hard else ""), fun=fun, n=30, p=8, fixed=[11],
                        budget=40, **(dict(lo=1.4, hi=1.7) if hard else {})))
        out.append(Case("radial-%s-fixed-60-2" % fun, h_rad, "n=60, p=2, 1 symbolic radius in [1.4,1.6]", fun=fun, n=60, p=2, fixed=[11], budget=40, lo=1.4, hi=1.6))
        out.append(Case("radial01-%s" % fun, h_inner, "radii 0/1, n=4", fun=fun, n=4, p=2))
        for byname in (True, False) if not hard else ():
            out.append(Case("pp-%s-3-%s" % (fun, byname), h_pp, "n=3 rows at fixed directions, radii and centre symbolic",
                            fun=fun, n=3, byname=byname, budget=40))
        out.append(Case("pp-%s-5" % fun, h_pp, "n=5, 1 symbolic radius, centre symbolic", fun=fun, n=5, fixed=[1], budget=40, byname=False))
        out.append(Case("pp-%s-8" % fun, h_pp, "n=8, 1 symbolic radius, centre symbolic", fun=fun, n=8, fixed=[3], budget=40))
        for c in ("mean", "median", "None"):
            if fun in ("ss", "quad", "winsor") and c != "mean":
                out.append(Case("centre-%s-%s" % (fun, c), h_centre, "fixed 4x2, 1 symbolic cell", fun=fun, center=c, n=4, budget=40))
    out.append(Case("new-2", h_new, "2 new rows, centre symbolic", n=2))
    out.append(Case("new-3", h_new, "3 new rows, centre symbolic", n=3))
    out.append(Case("unit-2", h_ssorth, "2x2 symbolic", n=2))
    return out
