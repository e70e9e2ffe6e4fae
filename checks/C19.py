"""sudire: directions, projection, scores, regression and predictions belong together, for every method, scaling and answer of the optimiser."""
import importlib
import types
import warnings
import numpy
from checks.common import *
from checks.C18 import kernel, classes, fl, cov
from checks.C12 import dist, centre, inner
from engine.harness import Case

ASSUMPTIONS = ["fixed regular X (n<=9, p<=3) with symbolic responses and new cases for the direct methods; IPOPT is a stand-in that may return "
               "any answer in the stated box, objective and constraints are evaluated at a probe point"]

DIRECT = {"sir": "SIR", "save": "SAVE", "dr": "DR", "phd": "PHD", "iht": "IHT"}


def mod():
    return importlib.import_module("direpack.sudire.sudire")


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def data(E, n, p, free, seed, lo=-3, hi=3):
    X = E.const(rng_matrix(n, p, seed))
    y = E.const([v[0] for v in rng_matrix(n, 1, seed + 1)])
    s = E.array("y", len(free), lo, hi)
    for k, i in enumerate(free):
        y[i] = s[k]
    return X, y


def numproj(B):
    B = numpy.asarray(B, float)
    return B @ numpy.linalg.solve(B.T @ B, B.T)


def reference(meth, F, y, h, centred, scaled, whiten, ytype="continuous"):
    """the subspace basis by definition: leading eigenvectors of the kernel of the prepared data, mapped back to X"""
    n, p = F.shape
    S = cov(F)
    w, Q = numpy.linalg.eigh(S)
    root = Q @ numpy.diag(w ** -0.5) @ Q.T
    back = numpy.eye(p)
    Z = F
    if centred or whiten:
        Z = F - F.mean(0)
    if whiten:
        back = root * numpy.sqrt(p / (n - 1))
        Z = Z @ back
    elif scaled:
        back = root
        Z = Z @ back
    m = DIRECT[meth]
    if m in ("SIR", "SAVE", "DR"):
        M = kernel(m, Z, classes(y, h) if ytype == "continuous" else [float(v) for v in y])
    else:
        v = numpy.array([float(t) for t in y])
        v = v - v.mean()
        if m == "PHD":
            M = (Z * v[:, None]).T @ Z / n
        else:
            c = (Z - Z.mean(0)).T @ v / (n - 1)
            cols = [c]
            for _ in range(p - 1):
                cols.append(cov(Z) @ cols[-1])
            A = numpy.array(cols).T
            M = A @ A.T
    val, vec = numpy.linalg.eigh(M)
    return back @ vec[:, ::-1], val[::-1]


def eqs(E, lab, got, want):
    E.eq(lab, got, want)


def proj2(E, P):
    """P (P'P)^-1 P' for one or two columns"""
    p, d = len(P), len(P[0])
    G = mm(tr(P), P)
    if d == 1:
        I = [[1 / G[0][0]]]
    else:
        det = G[0][0] * G[1][1] - G[0][1] * G[1][0]
        I = [[G[1][1] / det, -G[0][1] / det], [-G[1][0] / det, G[0][0] / det]]
    return mm(mm(P, I), tr(P))


def consistent(E, m, X, X0, y0, P, centre, centred, scaled, whiten, Q=None, numeric=True):
    """everything that follows from the loadings"""
    np = E.np
    n, p = X0.shape
    d = len(P[0])
    rows = [[X0[i, j] for j in range(p)] for i in range(n)]
    T = mm(rows, P)
    E.true("shapes", m.x_loadings_.shape == (p, d) and tuple(m.x_scores_.shape) == (n, d), str((m.x_loadings_.shape, m.x_scores_.shape)))
    E.eq("x_scores_", np.array(m.x_scores_), T)
    E.eq("proj_mat_", m.proj_mat_, proj2(E, P) if d <= 2 else numproj(fl(P)).tolist())
    E.eq("transform of the training data", m.transform(X), T)
    f = np.array(m.predict(X)).reshape(-1)
    E.true("one prediction per case", f.shape == (n,), str(f.shape))
    res = [y0[i] - f[i] for i in range(n)]
    E.eq("residuals sum to zero", vsum(res), 0.0)
    for k in range(d):
        E.eq("residuals orthogonal to scores", vsum([res[i] * T[i][k] for i in range(n)]), 0.0)
    if numeric:
        A = numpy.hstack([numpy.ones((n, 1)), fl(T)])
        C = numpy.linalg.solve(A.T @ A, A.T)
        b = [vsum([float(C[k][i]) * y0[i] for i in range(n)]) for k in range(d + 1)]
    else:
        t = [r[0] for r in T]
        mt, my = vmean(t), vmean([y0[i] for i in range(n)])
        stt = vsum([(a - mt) * (a - mt) for a in t])
        b1 = vsum([(t[i] - mt) * (y0[i] - my) for i in range(n)]) / stt
        b = [my - mt * b1, b1]
    if Q is not None:
        k = Q.shape[0]
        TQ = mm([[Q[i, j] for j in range(p)] for i in range(k)], P)
        want = [b[0] + dot(TQ[i], b[1:]) for i in range(k)]
        E.eq("transform new data", m.transform(Q), TQ)
        E.eq("predict new data", np.array(m.predict(Q)).reshape(-1), want)
        E.eq("transform a frame", m.transform(E.frame(Q)), TQ)
        E.eq("predict a frame", np.array(m.predict(E.frame(Q))).reshape(-1), want)
        E.eq("predict a single case", np.array(m.predict(Q[0:1])).reshape(-1), want[:1])
    mean = centre == "mean"
    if centred or whiten:
        E.eq("x_loc_", np.array(m.x_loc_).reshape(-1), LOC(E, X0, "mean" if mean else "median"))
        if not whiten and (mean or scaled):
            sx = [sqrt(E, vvar([X0[i, j] for i in range(n)], 1)) for j in range(p)] if mean else SCA(E, X0, "mad")
            E.eq("x_sca_", np.array(m.x_sca_).reshape(-1), sx)
        E.eq("y_loc_", np.array(m.y_loc_).reshape(-1), [vmean([y0[i] for i in range(n)])])
        E.eq("y_sca_ squared", [a * a for a in lst(np.array(m.y_sca_).reshape(-1))], [vvar([y0[i] for i in range(n)])])


def given(E, X, y, kind):
    if kind == "vec":
        return X, y
    if kind == "col":
        return X, y.reshape((-1, 1))
    if kind == "series":
        return E.frame(X), E.series(y)
    return E.frame(X), E.frame(y.reshape((-1, 1)))


def h_direct(E, meth, n, p, d, h, free, centre="mean", centred=True, scaled=True, whiten=False, kind="vec", seed=5, copy=True, new=True):
    X, y = data(E, n, p, free, seed)
    X0, y0 = X.copy(), y.copy()
    yv = lst(y0)
    if meth in ("phd", "iht"):
        for v in yv:
            if not isinstance(v, (int, float)) and not v.isconst():
                raise AssertionError("fixed y only")
    a, c = given(E, X, y, kind)
    m = mod().sudire(meth, n_components=d, center=centre, center_data=centred, scale_data=scaled, whiten_data=whiten, n_slices=h, copy=copy, verbose=False)
    r = quiet(m.fit, a, c)
    E.true("fit returns the model", r is m)
    Bs, val = reference(meth, fl(lst(X0)), yv, h, centred, scaled, whiten)
    P = lst(m.x_loadings_)
    if d == p or val[d - 1] - val[d] > 1e-6 * max(abs(val)):
        E.eq("estimated subspace", m.proj_mat_, numproj(Bs[:, :d]).tolist())
    consistent(E, m, a, X0, y0, P, centre, centred, scaled, whiten, E.array("q", (2, p), -4, 4) if new else None)
    E.eq("X untouched", X, X0)
    E.eq("y untouched", y, y0)


def h_same(E, meth, n, p, d, h, free, seed=5):
    """the subspace does not depend on how the data were standardised, nor on the units of X"""
    X, y = data(E, n, p, free, seed)
    k = dict(n_components=d, n_slices=h, verbose=False)
    S = mod().sudire
    r = quiet(S(meth, **k).fit, X, y).proj_mat_
    E.eq("median and mad scaling", quiet(S(meth, center="median", **k).fit, X, y).proj_mat_, lst(r))
    if meth in ("sir", "phd", "iht"):
        E.eq("whitening", quiet(S(meth, whiten_data=True, **k).fit, X, y).proj_mat_, lst(r))
    E.eq("shifted X", quiet(S(meth, **k).fit, X + E.const([[5.0, -3.0, 1.0][:p]]), y).proj_mat_, lst(r))
    u = [2.0, 0.25, 8.0][:p]
    m = quiet(S(meth, **k).fit, X * E.const([u]), y)
    m0 = quiet(S(meth, **k).fit, X, y)
    E.eq("predictions do not depend on units of X", E.np.array(m.predict(X * E.const([u]))).reshape(-1), E.np.array(m0.predict(X)).reshape(-1))


def h_label(E, meth, labels, p, d, seed=9):
    """discrete responses"""
    n = len(labels)
    X = E.const(rng_matrix(n, p, seed))
    k = max(labels) + 1
    L = E.array("lab", k, -4, 4)
    for i in range(k):
        for j in range(i):
            E.assume(abs(L[i] - L[j]), ">", 0.0625)
    y = E.np.array([L[i] for i in labels])
    m = mod().sudire(meth, n_components=d, response_type="discrete", n_slices=k, verbose=False)
    quiet(m.fit, X, y)
    Bs, val = reference(meth, fl(lst(X)), labels, k, True, True, False, "discrete")
    E.eq("estimated subspace", m.proj_mat_, numproj(Bs[:, :d]).tolist())
    consistent(E, m, X, X, y, lst(m.x_loadings_), "mean", True, True, False)


class Ipopt:
    """stands for the optimiser: prepared answers, objective and constraints evaluated at probe points"""

    def __init__(self, answers, probes):
        self.answers, self.probes, self.calls = answers, probes, []

    def __call__(self, fun, x0, args=(), kwargs=None, method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None,
                 options=None):
        k = len(self.calls)
        args = args if isinstance(args, tuple) else (args,)
        cons = [constraints] if isinstance(constraints, dict) else list(constraints)
        r = types.SimpleNamespace(value=[fun(b, *args) for b in self.probes], x0=x0, options=options, fun=fun, args=args,
                                  cons=[[(c["type"], c["fun"](b, *c.get("args", ()))) for c in cons] for b in self.probes])
        self.calls.append(r)
        x = self.answers[min(k, len(self.answers) - 1)]
        return types.SimpleNamespace(x=x.copy(), fun=fun(x, *args) if False else None, success=True, status=0)


def back_matrix(F, centre, scaled, whiten):
    n, p = F.shape
    if whiten or (scaled and centre == "mean"):
        w, Q = numpy.linalg.eigh(cov(F))
        B = Q @ numpy.diag(w ** -0.5) @ Q.T
        return B * numpy.sqrt(p / (n - 1)) if whiten else B
    if not scaled:
        return numpy.eye(p)
    med = numpy.median(F, 0)
    return numpy.diag(1 / (numpy.median(abs(F - med), 0) / 0.6744897501960817))


def mcentre(A):
    return A - numpy.median(A, 0)[None] - numpy.median(A, 1)[:, None] + numpy.median(A)


def divergence(E, what, B, F, y, dm="euclidean", centre="mean"):
    """dependence between the projected data and y"""
    n, d = len(F), B.shape[1]
    T = F @ B
    if dm == "euclidean":
        D = numpy.sqrt(((T[:, None, :] - T[None, :, :]) ** 2).sum(-1))
    elif dm == "cityblock":
        D = abs(T[:, None, :] - T[None, :, :]).sum(-1)
    else:
        D = abs(T[:, None, :] - T[None, :, :]).max(-1)
    if centre == "median":
        v = numpy.array([float(t) for t in y])
        A, G = mcentre(D), v[:, None] - v[None]
        return float(numpy.median(A * mcentre(abs(G)))) if what == "dcov" else float((A * mcentre(G * G / 2)).mean())
    if what == "dcov":
        C = D - D.mean(0)[None] - D.mean(1)[:, None] + D.mean()
        ay = [[abs(y[i] - y[j]) if i != j else 0.0 for j in range(n)] for i in range(n)]
        return vsum([float(C[i][j]) * ay[i][j] for i in range(n) for j in range(n)]) / (n * n)
    my = vmean(y)
    return -vsum([float(D[i][j]) * ((y[i] - my) * (y[j] - my)) for i in range(n) for j in range(n)]) / (n * n)


def custom(beta, *args):
    X, Y, h = args[0], args[1], args[2]
    B = beta.reshape((-1, h), order="F")
    t = X @ B
    return -vsum([t[i, 0] * Y[i, 0] for i in range(X.shape[0])])


def probes(p, d, seed):
    return [numpy.array(rng_matrix(p * d, 1, s))[:, 0] for s in (seed, seed + 1)]


def h_opt(E, meth, n, p, d, free=(), asym=(), centre="mean", centred=True, scaled=True, whiten=False, kind="vec", seed=5, dmetric=None, twice=False, start=None,
          options=None, where="init"):
    """whatever the optimiser answers: the model belongs to that answer; objective and constraints are those of the current data"""
    np = E.np
    X, y = data(E, n, p, free, seed)
    X0, y0 = X.copy(), y.copy()
    yv = lst(y0)
    F = fl(lst(X0))
    base = [[0.75, -0.5, 1.25, 0.5, 0.25, -1.0], [-0.25, 1.0, 0.5, 1.5, -0.75, 0.5], [0.5, 0.5, -1.0, 0.25, 1.0, 0.75]]
    ans = []
    for k in range(3):
        b = E.const(base[k][:p * d])
        ans.append(b)
    last = 0 if meth == "dcov-sdr" else 1
    for j in asym:
        ans[last][j] = E.scalar("b%d" % j, -2, 2)
    if len(asym):
        E.assume(vsum([ans[last][j] * ans[last][j] for j in range(p * d)]), ">", 0.0625)
    pr = [E.const(q.tolist()) for q in probes(p, d, 21)]
    opt = Ipopt(ans, pr)
    iw = importlib.import_module("direpack.ipopt_temp.ipopt_wrapper")
    kw = dict(n_components=d, center=centre, center_data=centred, scale_data=scaled, whiten_data=whiten, verbose=False)
    fk = {}
    if dmetric and where == "init":
        kw["dmetric"] = dmetric
    elif dmetric:
        fk["dmetric"] = dmetric
    if start is not None:
        kw["optimizer_start"] = start
    if options is not None:
        kw["optimizer_options"] = options
    m = mod().sudire(custom if meth == "custom" else meth, **kw)
    a, c = given(E, X, y, kind)
    with E.patch([(iw, "minimize_ipopt", opt)]):
        if twice:
            X2, y2 = E.const(rng_matrix(n + 1, p, seed + 7)), E.const([v[0] for v in rng_matrix(n + 1, 1, seed + 8)])
            quiet(m.fit, X2, y2)
            del opt.calls[:]
        quiet(m.fit, a, c, **fk)
    if not opt.calls:
        return
    BK = back_matrix(F, centre, scaled, whiten)
    b = ans[min(len(opt.calls) - 1, 2)]
    B = [[b[j + p * k] for k in range(d)] for j in range(p)]
    # the whitening matrix is determined up to a rotation: take what the model reports
    if whiten:
        K = fl(lst(m.whitening_)) * numpy.sqrt(p)
        E.eq("whitening_ whitens the data", (K.T @ cov(F) @ K * (n - 1) / p).tolist(), numpy.eye(p).tolist())
        BK = K
    P = mm(BK.tolist(), B)
    E.eq("x_loadings_ are the directions found, in units of X", m.x_loadings_, P)
    W = (F - F.mean(0)) @ BK
    dm = dmetric or "euclidean"
    for k, call in enumerate(opt.calls):
        what = "dcov" if k == 0 else "mdd" if meth == "mdd-sdr" else "custom"
        Bp = [numpy.array([float(v) for v in lst(q)]).reshape((p, d), order="F") for q in pr]
        if what == "custom":
            my = 0.0
            loc = F.mean(0) if centre == "mean" else numpy.median(F, 0)
            if not centred and not whiten:
                loc = loc * 0
            ref = [vsum([float(t) * yv[i] for i, t in enumerate((((F - loc) @ BK) @ q)[:, 0])]) for q in Bp]
        elif what == "dcov":
            ref = [divergence(E, "dcov", q, W, yv, dm, centre) for q in Bp]
        else:
            ref = [divergence(E, "mdd", q, W, yv, "euclidean", centre) for q in Bp]
        v = call.value
        if what == "mdd" and centre == "median" and min(ref) < 0.0001:
            continue
        if what == "mdd" or what == "dcov" and centre == "mean":
            v = [t * t for t in v]
            E.le("the objective decreases with dependence", call.value[0], 0.0)
        elif what == "dcov":
            for t, r in zip(v, ref):
                E.ge("the objective decreases with dependence", -t * r, 0.0)
        E.eq("objective of step %d follows the dependence with y" % (k + 1), v[0] * ref[1], v[1] * ref[0])
        if what != "custom":
            E.ge("objective is not constant", abs(v[0]), 0.0001 * abs(ref[0]))
        M = numpy.eye(p) if scaled and not whiten else cov((F - F.mean(0)) @ BK)
        for q, cs in zip(Bp, call.cons):
            G = q.T @ M @ q - numpy.eye(d)
            E.true("equality constraints", all(t[0] == "eq" for t in cs))
            got = sorted(float(t[1]) for t in cs)
            E.eq("constraints ask for orthonormal directions", E.const(got), sorted(float(t) for t in G.reshape(-1)))
    if options is not None:
        E.true("options reach the optimiser", all(t.options == options for t in opt.calls), str([t.options for t in opt.calls]))
    if start is not None:
        E.eq("starting value reaches the optimiser", opt.calls[0].x0, lst(start))
    consistent(E, m, a, X0, y0, P, centre, centred, scaled, whiten, E.array("q", (1, p), -2, 2) if not asym else None, numeric=not asym)
    E.eq("X untouched", X, X0)
    E.eq("y untouched", y, y0)


def h_dim(E, meth, n, p, B, free, seed=5, h0=4):
    """the dimension with the smallest mean distance to the subspaces of resampled cases"""
    X, y = data(E, n, p, free, seed)
    X0, y0 = X.copy(), y.copy()
    yv = lst(y0)
    F = fl(lst(X0))
    idx = []
    used = []
    for k in range(60):
        r = [int(round(abs(v[0]) * 100)) % n for v in rng_matrix(n, 1, 300 + k)]
        if len(set(r)) >= n - 3:
            idx.append(r)

    ranges = []
    real, rchoice = numpy.random.randint, numpy.random.choice

    def draw(low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        if size in (n, (n,), n - 1, n + 1, (n - 1,), (n + 1,)):
            ranges.append((int(lo), int(hi), size if isinstance(size, int) else size[0]))
            if ranges[-1] == (0, n, n):
                used.append(idx[len(used) % len(idx)])
                return numpy.array(used[-1])
        return real(low, high, size, dtype)

    def choice(a, size=None, replace=True, p=None):
        if replace and p is None and (isinstance(a, (int, numpy.integer)) or len(a) == n and list(a) == list(range(n))):
            return draw(0, a if isinstance(a, (int, numpy.integer)) else n, size)
        return rchoice(a, size, replace, p)

    with E.patch([(numpy.random, "randint", draw), (numpy.random, "choice", choice)]):
        h, md = quiet(mod().estimate_structural_dim, meth, X, y, B, n_slices=h0)
    E.true("one mean difference per dimension below p", len(md) == p - 1, str(len(md)))
    md = [float(v) for v in md]
    E.true("dimension of smallest difference", int(h) == 1 + int(numpy.argmin(md)), str((h, md)))
    E.true("every resample draws n of all n cases", all(r == (0, n, n) for r in ranges), str(ranges[:3]))
    if used:
        E.true("B resamples per dimension", len(used) == B * (p - 1), str(len(used)))
        for k in range(1, p):
            V, val = reference(meth, F, yv, h0, True, True, False)
            R = numproj(V[:, :k])
            clear = val[k - 1] - val[k] > 1e-6 * max(abs(val))
            dif = []
            for r in used[(k - 1) * B:k * B]:
                V, val = reference(meth, F[r], [yv[i] for i in r], h0, True, True, False)
                clear = clear and val[k - 1] - val[k] > 1e-6 * max(abs(val))
                dif.append(numpy.linalg.svd(R - numproj(V[:, :k]))[1].max())
            if clear:
                E.eq("mean difference", E.const([md[k - 1]]), [float(numpy.mean(dif))])
    E.eq("X untouched", X, X0)
    E.eq("y untouched", y, y0)


def h_params(E, what):
    from direpack.utils.utils import MyException
    S = mod().sudire
    X, y = data(E, 7, 3, [1], 4)
    if what == "init":
        E.raises("refuses unknown centre", ValueError, S, center="l1median")
        E.raises("refuses unknown method", ValueError, S, "pca")
        for q in ("sir", "save", "dr", "dcov-sdr", "bcov-sdr", "mdd-sdr", "phd", "iht"):
            S(q)
        p = S("sir", n_components=3).get_params()
        E.true("get_params", p["n_components"] == 3 and p["sudiremeth"] == "sir")
        E.true("set_params", S("sir").set_params(n_components=4).n_components == 4)
        E.raises("refuses unknown parameter", ValueError, lambda: S("sir").set_params(foo=1))
    elif what == "sizes":
        E.raises("refuses too many components", MyException, quiet, S("sir", n_components=4).fit, X, y)
        E.raises("refuses more components than cases", MyException, quiet, S("sir", n_components=3).fit, X[:2], y[:2])
        E.raises("refuses other number of cases", MyException, quiet, S("sir", n_components=1).fit, X, y[:6])
    elif what == "cols":
        m = quiet(S("sir", n_components=2, n_slices=2).fit, X, y)
        for q in (2, 4):
            Q = E.array("z%d" % q, (3, q))
            E.raises("predict refuses %d columns" % q, ValueError, m.predict, Q)
            E.raises("transform refuses %d columns" % q, ValueError, m.transform, Q)
    elif what == "history":
        m = S("sir", n_components=2, n_slices=2)
        quiet(m.fit, E.const(rng_matrix(9, 4, 30)), E.const([r[0] for r in rng_matrix(9, 1, 31)]))
        m0 = quiet(S("sir", n_components=2, n_slices=2).fit, X, y)
        quiet(m.fit, X, y)
        E.eq("refit: loadings", m.x_loadings_, lst(m0.x_loadings_))
        E.eq("refit: predictions", m.predict(X), lst(m0.predict(X)))
        E.true("settings unchanged", m.n_components == 2 and m.n_slices == 2 and m.center == "mean" and m.scale_data is True)
    elif what == "containers":
        k = dict(n_components=1, n_slices=2)
        m0 = quiet(S("save", **k).fit, X, y)
        for kind in ("col", "series", "frame"):
            a, c = given(E, X, y, kind)
            m = quiet(S("save", **k).fit, a, c)
            E.eq(kind + ": loadings", m.x_loadings_, lst(m0.x_loadings_))
            E.eq(kind + ": scores", E.np.array(m.x_scores_), lst(m0.x_scores_))
            E.eq(kind + ": predictions", E.np.array(m.predict(a)).reshape(-1), lst(E.np.array(m0.predict(X)).reshape(-1)))


def cases(tier):
    T = tier == "thorough"
    out = []
    b = 600 if T else 60
    conf = [("mean", True, True, False), ("mean", True, False, False), ("mean", False, False, False), ("median", True, True, False), ("mean", True, False, True)]
    for meth in DIRECT:
        fixedy = meth in ("phd", "iht")
        for centre, cd, sc, wh in conf:
            nm = "%s-%s%d%d%d" % (meth, centre, cd, sc, wh)
            k = dict(meth=meth, centre=centre, centred=cd, scaled=sc, whiten=wh)
            out.append(Case("fit-" + nm, h_direct, "n=8 p=3 d=2, one free y" if not fixedy else "n=8 p=3 d=1, any new data", budget=b, n=8, p=3, d=1 if meth == "iht" else 2,
                            h=3, free=[] if fixedy else [3], **k))
            out.append(Case("two-" + nm, h_direct, "n=7 p=2 d=1", budget=b, n=7, p=2, d=1, h=2, free=[] if fixedy else [1, 4] if T else [1], seed=8, new=False, **k))
        for kind in ("col", "series", "frame"):
            out.append(Case("kind-%s-%s" % (meth, kind), h_direct, "n=7 p=2, y as %s" % kind, budget=b, meth=meth, n=7, p=2, d=1, h=2, free=[] if fixedy else [2],
                            kind=kind, seed=6))
        out.append(Case("nocopy-" + meth, h_direct, "n=7 p=2, copy=False", budget=b, meth=meth, n=7, p=2, d=2 if meth != "iht" else 1, h=2, free=[] if fixedy else [2],
                        copy=False, seed=6))
        out.append(Case("same-" + meth, h_same, "n=8 p=3", budget=b, meth=meth, n=8, p=3, d=1 if meth == "iht" else 2, h=4, free=[] if fixedy else [3]))
    for meth in ("sir", "save", "dr"):
        out.append(Case("label-" + meth, h_label, "n=8 p=2, three free labels", budget=b, meth=meth, labels=(0, 1, 2, 0, 1, 2, 1, 0), p=2, d=1))
    for meth in ("dcov-sdr", "mdd-sdr", "custom"):
        for centre, cd, sc, wh in conf:
            nm = "%s-%s%d%d%d" % (meth, centre, cd, sc, wh)
            k = dict(meth=meth, centre=centre, centred=cd, scaled=sc, whiten=wh)
            out.append(Case("obj-" + nm, h_opt, "n=7 p=3 d=2, one free y", budget=b, n=7, p=3, d=2, free=[2] if centre == "mean" else [], **k))
            out.append(Case("ans-" + nm, h_opt, "n=6 p=2 d=1, free answers", budget=b, n=6, p=2, d=1, asym=[0, 1], seed=7, **k))
        for kind in ("col", "series", "frame"):
            out.append(Case("okind-%s-%s" % (meth, kind), h_opt, "n=6 p=2, y as %s" % kind, budget=b, meth=meth, n=6, p=2, d=1, free=[1], kind=kind, seed=9))
        out.append(Case("again-" + meth, h_opt, "second fit on other data", budget=b, meth=meth, n=7, p=3, d=1, free=[1], twice=True, seed=9))
    for dm in ("cityblock",):
        for w in ("init", "fit"):
            out.append(Case("metric-%s-%s" % (dm, w), h_opt, "n=6 p=2 d=2", budget=b, meth="dcov-sdr", n=6, p=2, d=2, free=[1], dmetric=dm, where=w, seed=9))
    out.append(Case("start", h_opt, "n=6 p=2 d=1", budget=b, meth="dcov-sdr", n=6, p=2, d=1, start=numpy.array([0.5, -0.5]), options={"max_iter": 7}, seed=9))
    for meth in ("sir", "save", "dr") if T else ("sir", "dr"):
        out.append(Case("dim-" + meth, h_dim, "n=8 p=3, two resamples, one free y", budget=b, meth=meth, n=8, p=3, B=2, free=[3]))
    for w in ("init", "sizes", "cols", "history", "containers"):
        out.append(Case("params-" + w, h_params, "n=7 p=3, one free y", budget=b, what=w))
    return out
