"""Settings: an estimator is what its settings say, before and after any fit, and fitting leaves the settings alone."""
import importlib
import inspect
import types
import warnings
import numpy
from checks.common import *
from checks.C14 import Adversary
from checks.C21 import FakeProblem, wrapper
from engine.harness import Case

ASSUMPTIONS = ["numerical settings are free values in a box where the constructor takes any number; fits on small fixed data with free cells, free responses, "
               "free new cases or free projection index values",
               "IPOPT is the stand-in of C21"]
WHERE = {"VersatileScaler": "preprocessing.robcent", "GenSpatialSignPreProcessor": "preprocessing.gsspp", "dicomo": "dicomo.dicomo", "capi": "ppdire.capi",
         "rm": "sprm.rm", "snipls": "sprm.snipls", "sprm": "sprm.sprm", "ppdire": "ppdire.ppdire", "sudire": "sudire.sudire"}


def cls(who):
    return getattr(importlib.import_module("direpack." + WHERE[who]), who)


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def dic():
    from direpack.dicomo.dicomo import dicomo
    return dicomo


def snap(v):
    """a copy of a setting that later changes inside it do not reach"""
    if isinstance(v, dict):
        return {k: snap(t) for k, t in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(snap(t) for t in v)
    if hasattr(v, "ndim") and v.ndim:
        return v.copy()
    return v


def num(v):
    return (hasattr(v, "num") or isinstance(v, (int, float, numpy.number))) and not isinstance(v, (bool, numpy.bool_))


def eqv(E, lab, a, b):
    """the same setting"""
    if isinstance(b, dict):
        ok = isinstance(a, dict) and set(a) == set(b)
        E.true(lab, ok, "%s, was %s" % (a, b))
        for k in b if ok else ():
            eqv(E, lab, a[k], b[k])
    elif isinstance(b, (list, tuple)) or (hasattr(b, "ndim") and getattr(b, "ndim", 0)):
        ok = len(a) == len(b)
        E.true(lab, ok, "%s, was %s" % (a, b))
        for x, y in zip(a, b):
            eqv(E, lab, x, y)
    elif num(b):
        E.true(lab, num(a), str(a))
        if num(a):
            E.eq(lab, a, b)
    else:
        E.true(lab, a is b or a == b, "%s, was %s" % (a, b))


def cfun(X, trimming=0):
    return X[0, :] * 0 + 1.5


def values(E, who):
    """a value for every setting that differs from its default"""
    s = E.scalar
    if who == "VersatileScaler":
        return dict(center=cfun, scale="mad", trimming=s("t", 0, 0.5))
    if who == "GenSpatialSignPreProcessor":
        return dict(center="mean", fun="ball")
    if who == "dicomo":
        return dict(mode="cov", est="distance", center="median")
    if who == "capi":
        return dict(max_degree=3, projection_index=dic(), pi_arguments={"mode": "cov", "est": "distance"}, weights=[s("w%d" % i, -3, 3) for i in range(6)], centring=True,
                    scaling=False, options=[2])
    hampel = dict(probp1=s("p1", 0.5, 0.7), probp2=s("p2", 0.75, 0.9), probp3=s("p3", 0.95, 1))
    if who == "rm":
        return dict(fun="Huber", centre="mean", scale="std", start_cutoff_mode="none", verbose=False, maxit=7, tol=s("tol", 0.001, 1), copy=False, **hampel)
    if who == "snipls":
        return dict(eta=s("eta", 0, 0.875), n_components=2, verbose=False, columns=["a", "b"], centre="median", scale="mad", copy=False)
    if who == "sprm":
        return dict(n_components=2, eta=0.25, fun="Fair", centre="mean", scale="std", verbose=False, maxit=3, tol=s("tol", 0.001, 1), start_cutoff_mode="none",
                    start_X_init="all", columns=["a", "b"], copy=False, **hampel)
    if who == "ppdire":
        return dict(projection_index=dic(), pi_arguments={"mode": "var"}, n_components=2, trimming=s("t", 0, 0.5), alpha=s("al", 0, 2), optimizer="grid",
                    optimizer_options={"maxiter": 5, "ndir": 7}, optimizer_constraints={"type": "ineq"}, regopt="quantile", center="median", center_data=False,
                    scale_data=False, whiten_data=True, square_pi=True, compression=True, copy=False, verbose=False, return_scaling_object=False)
    return dict(sudiremeth="sir", n_components=1, trimming=s("t", 0, 0.5), optimizer_options={"max_iter": 3}, optimizer_constraints={"type": "eq"},
                optimizer_arguments={"a": 1}, optimizer_start=[1.0, 2.0], center_data=False, center="median", scale_data=False, whiten_data=True, compression=True,
                n_slices=3, dmetric="sqeuclidean", fit_ols=False, copy=False, response_type="categorical", verbose=False, return_scaling_object=False)


NEED = {"ppdire": dict(optimizer="grid"), "capi": {}, "sudire": {}}


def required(E, who):
    """arguments the constructor asks for"""
    return dict(projection_index=dic()) if who == "ppdire" else {}


def defaults(C):
    return {k: p.default for k, p in inspect.signature(C.__init__).parameters.items() if k != "self"}


def h_params(E, who):
    """constructor, get_params, set_params and clone agree about every setting"""
    from sklearn.base import clone
    C = cls(who)
    v = values(E, who)
    d0 = snap(defaults(C))
    with E.patch([]):
        m = C(**v)
        E.true("every setting of the constructor is listed", set(m.get_params(deep=False)) == set(d0), str(sorted(m.get_params(deep=False))))
        for k in v:
            eqv(E, "get_params returns %s" % k, m.get_params(deep=False)[k], v[k])
            eqv(E, "attribute %s" % k, getattr(m, k), v[k])
        E.true("all settings are tried", set(v) == set(d0), str(set(v) ^ set(d0)))
        for k in v:
            q = C(**required(E, who))
            before = snap(q.get_params(deep=False))
            r = q.set_params(**{k: v[k]})
            E.true("set_params returns the estimator", r is q)
            for j, t in q.get_params(deep=False).items():
                eqv(E, "setting %s: %s" % (k, j), t, v[k] if j == k else before[j])
        q = C(**required(E, who))
        before = snap(q.get_params(deep=False))
        E.raises("unknown settings are refused", ValueError, lambda: q.set_params(nonsense=3))
        for j, t in q.get_params(deep=False).items():
            eqv(E, "after a refused setting: %s" % j, t, before[j])
        c = clone(m)
        E.true("a clone is another object", c is not m and type(c) is C)
        for k in v:
            eqv(E, "the clone's %s" % k, c.get_params(deep=False)[k], v[k])
        eqv(E, "the defaults", defaults(C), d0)


# ---- fits
def outputs(m, names):
    out = []
    for k in names:
        v = getattr(m, k)
        out.append((k, v))
    return out


def flat(v):
    if v is None or isinstance(v, (str, bool)):
        return v
    if hasattr(v, "reshape"):
        return v.reshape(-1)
    return v


def data(E, who):
    """(training data, other training data) with free cells; new cases are free"""
    X = mix(E, "x", 5, 2, 41, [], -2, 2)
    y = E.const([v[0] for v in rng_matrix(5, 1, 42)])
    return X, y


def scen(E, who, fitted):
    """settings A and B, fit on data set 0/1, and what to compare"""
    np = E.np
    D = [(rng_matrix(5, 2, 41), [v[0] for v in rng_matrix(5, 1, 42)]), (rng_matrix(6, 2, 43), [v[0] for v in rng_matrix(6, 1, 44)])]
    X = [E.const(a) for a, _ in D]
    y = [E.const(b) for _, b in D]
    s = E.array("c", 2, -2, 2)
    N = E.array("N", (2, 2), -4, 4)
    if who == "VersatileScaler":
        X[1][0, 0], X[1][3, 1] = s[0], s[1]
        E.assume(vvar([X[1][i, 0] for i in range(6)]), ">", 0.0625)
        E.assume(vvar([X[1][i, 1] for i in range(6)]), ">", 0.0625)
        A, B = dict(center="median", scale="mad", trimming=0), dict(center="mean", scale="std", trimming=0)
        out = lambda m: [("col_loc_", m.col_loc_), ("col_sca_", m.col_sca_), ("transform", m.transform(N)), ("predict", m.predict(N))]
        return A, B, lambda m, i: m.fit(X[i]), out
    if who == "GenSpatialSignPreProcessor":
        X[1][0, 0] = s[0]
        A, B = dict(center="median", fun="ball"), dict(center="mean", fun="ss")
        return A, B, lambda m, i: m.fit_transform(X[i]), lambda m: [("X_gsspp_", m.X_gsspp_), ("transform", m.transform(X[0]))]
    if who == "dicomo":
        y[1][2], X[1][1, 0] = s[0], s[1]
        A, B = dict(mode="var", center="median"), dict(mode="cov", est="arithmetic", center="mean")

        def fit(m, i):
            if i:
                m.fit(X[1][:, 0], y=y[1])
            else:
                m.fit(X[0][:, 0], y=y[0])
        return A, B, fit, lambda m: [("moment_", m.moment_)]
    if who == "capi":
        y[1][2], X[1][1, 0] = s[0], s[1]
        w = [E.scalar("w%d" % i, -3, 3) for i in range(6)]
        A = dict(projection_index=dic(), pi_arguments={"mode": "cov"}, max_degree=4)
        B = dict(projection_index=dic(), pi_arguments={"mode": "cov", "center": "median"}, weights=w, max_degree=3, scaling=False, options=[1])
        return A, B, lambda m, i: m.fit(X[i][:, 0], y[i]), lambda m: [("capi_index_", m.capi_index_), ("moments_", m.moments_)]
    rob = dict(verbose=False, maxit=2)
    if who == "rm":
        A, B = dict(rob, fun="Hampel"), dict(rob, fun="Huber", probp1=0.9, centre="mean", scale="std", start_cutoff_mode="other")
        return A, B, lambda m, i: m.fit(X[i], y[i]), lambda m: [(k, getattr(m, k)) for k in ("coef_", "intercept_", "residuals_", "fitted_", "caseweights_")] + [("predict", m.predict(N))]
    if who == "snipls":
        y[1][2] = s[0]
        A, B = dict(eta=0.25, n_components=1, verbose=False), dict(eta=0.5, n_components=2, scale="std", centre="median", verbose=False)
        out = lambda m: [(k, getattr(m, k)) for k in ("coef_", "intercept_", "x_scores_", "x_weights_", "x_Rweights_", "fitted_", "residuals_")] + [("predict", m.predict(N)), ("transform", m.transform(N))]
        E.assume(s[0], ">", 1.5)
        return A, B, lambda m, i: m.fit(X[i], y[i]), out
    if who == "sprm":
        A, B = dict(rob, n_components=1, eta=0.5), dict(rob, n_components=2, eta=0.1, fun="Fair", centre="mean", scale="std", start_X_init="all", probp1=0.9)
        out = lambda m: [(k, getattr(m, k)) for k in ("coef_", "intercept_", "x_scores_", "x_Rweights_", "caseweights_", "x_caseweights_", "y_caseweights_", "fitted_")] + [("predict", m.predict(N)), ("transform", m.transform(N))]
        return A, B, lambda m, i: m.fit(X[i], y[i]), out
    if who == "ppdire":
        log = []

        class Ind(Adversary):
            zero = None
        Ind.log, Ind.E = log, E
        A = dict(projection_index=Ind, n_components=1, optimizer="grid", optimizer_options={"ndir": 3, "maxiter": 2}, verbose=False)
        B = dict(projection_index=Ind, n_components=1, optimizer="grid", optimizer_options={"ndir": 4, "maxiter": 1}, center="median", scale_data=False, square_pi=True, verbose=False)
        out = lambda m: [(k, getattr(m, k)) for k in ("x_loadings_", "x_scores_", "coef_", "fitted_", "x_loc_")] + [("predict", m.predict(N)), ("transform", m.transform(N))]
        return A, B, lambda m, i: m.fit(X[i], y[i]), out
    y[1][2] = s[0]
    A = dict(sudiremeth="sir", n_components=2, n_slices=2, verbose=False)
    B = dict(sudiremeth="save", n_components=1, n_slices=3, center_data=False, scale_data=False, verbose=False)
    out = lambda m: [(k, getattr(m, k)) for k in ("x_loadings_", "x_scores_", "proj_mat_")] + [("predict", m.predict(N)), ("transform", m.transform(N))]
    return A, B, lambda m, i: m.fit(X[i], y[i]), out


def h_refit(E, who, how):
    """an estimator used before and given new settings is a new estimator with these settings"""
    C = cls(who)
    A, B, fit, out = scen(E, who, True)
    A0, B0, d0 = snap(A), snap(B), snap(defaults(C))
    with E.patch([]):
        if how == "set":
            m = C(**A)
            quiet(fit, m, 0)
            for k, v in A0.items():
                eqv(E, "fitting leaves %s alone" % k, m.get_params(deep=False)[k], v)
            full = C(**required(E, who)).get_params(deep=False)
            m.set_params(**dict({k: v for k, v in full.items() if k in A}, **B))
        elif how == "clone":
            from sklearn.base import clone
            m0 = C(**B)
            quiet(fit, m0, 0)
            m = clone(m0)
        else:
            m = C(**B)
            other = C(**A)
            quiet(fit, other, 0)
        quiet(fit, m, 1)
        if how == "other":
            quiet(fit, other, 0)
        g = C(**B)
        quiet(fit, g, 1)
        for (k, a), (_, b) in zip(quiet(out, m), quiet(out, g)):
            a, b = flat(a), flat(b)
            if b is None or isinstance(b, str):
                E.true(k, a == b)
            else:
                E.eq(k, a, b)
        for k, v in B0.items():
            eqv(E, "fitting leaves %s alone" % k, m.get_params(deep=False)[k], v)
            eqv(E, "the caller's %s" % k, B[k], v)
        for k, v in A0.items():
            eqv(E, "the caller's %s" % k, A[k], v)
        eqv(E, "the defaults", defaults(C), d0)


def h_switch(E, who, white):
    """whitening (or anything else a setting turns on for one fit) leaves the other settings alone, and can be turned off again"""
    C = cls(who)
    X = E.const(rng_matrix(7, 2, 41))
    y = E.const([v[0] for v in rng_matrix(7, 1, 42)])
    N = E.array("N", (2, 2), -4, 4)
    log = []

    class Ind(Adversary):
        zero = None
    Ind.log, Ind.E = log, E
    if who == "ppdire":
        A = dict(projection_index=Ind, n_components=1, optimizer="grid", optimizer_options={"ndir": 3, "maxiter": 1}, compression=True, verbose=False)
    else:
        A = dict(sudiremeth="save", n_components=1, n_slices=2, compression=True, verbose=False)
    names = ("x_loadings_", "x_scores_", "x_loc_", "x_sca_") + (("coef_", "x_weights_") if who == "ppdire" else ("proj_mat_",))
    with E.patch([]):
        m = C(**dict(A, whiten_data=white))
        for w in (white, not white, white):
            m.set_params(whiten_data=w)
            before = snap(m.get_params(deep=False))
            quiet(m.fit, X, y)
            for k, v in before.items():
                eqv(E, "fitting leaves %s alone" % k, m.get_params(deep=False)[k], v)
            g = C(**dict(A, whiten_data=w))
            quiet(g.fit, X, y)
            for k in names:
                E.eq(k, flat(getattr(m, k)), flat(getattr(g, k)))
            E.eq("predict", flat(quiet(m.predict, N)), flat(quiet(g.predict, N)))
            E.eq("transform", flat(quiet(m.transform, N)), flat(quiet(g.transform, N)))


def h_verbose(E, who):
    """messages change no result"""
    C = cls(who)
    A, B, fit, out = scen(E, who, True)
    with E.patch([]):
        a, b = C(**dict(B, verbose=True)), C(**dict(B, verbose=False))
        quiet(fit, a, 1)
        quiet(fit, b, 1)
        for (k, u), (_, v) in zip(quiet(out, a), quiet(out, b)):
            u, v = flat(u), flat(v)
            if v is None or isinstance(v, str):
                E.true(k, u == v)
            else:
                E.eq(k, u, v)


def h_unfit(E, who, bad):
    """data an estimator refuses, or warns about, change no setting and leave no trace in the next fit"""
    C = cls(who)
    s = E.scalar("c", -3, 3)
    N = E.array("N", (2, 3), -4, 4)
    X = E.const(rng_matrix(8, 3, 45))
    y = E.const([v[0] for v in rng_matrix(8, 1, 46)])
    Z, w = X.copy(), y.copy()
    nc = 3
    if bad == "constant":
        for i in range(8):
            Z[i, 1] = s
    elif bad == "few":
        Z, N0 = E.const(rng_matrix(8, 2, 47)), N
    elif bad == "length":
        w = E.const([v[0] for v in rng_matrix(7, 1, 46)])
    elif bad == "short":
        Z, w = E.const(rng_matrix(2, 3, 48)), y[:2]
    B = {"VersatileScaler": dict(center="median", scale="mad"), "GenSpatialSignPreProcessor": dict(center="median", fun="ball"),
         "dicomo": dict(mode="cov", center="mean"), "capi": dict(projection_index=dic(), pi_arguments={"mode": "cov"}, max_degree=3),
         "rm": dict(verbose=False, maxit=2, centre="mean", scale="std"), "snipls": dict(eta=0.0, n_components=nc, verbose=False),
         "sprm": dict(verbose=False, maxit=2, n_components=nc, eta=0.1, centre="mean", scale="std", start_X_init="all"),
         "ppdire": dict(projection_index=dic(), pi_arguments={"mode": "var"}, n_components=nc, optimizer="grid", optimizer_options={"ndir": 3, "maxiter": 1}, verbose=False),
         "sudire": dict(sudiremeth="sir", n_components=nc, n_slices=3, verbose=False)}[who]
    outs = {"rm": ("coef_", "intercept_", "caseweights_"), "snipls": ("coef_", "intercept_", "x_scores_"), "sprm": ("coef_", "x_scores_", "caseweights_"),
            "ppdire": ("x_scores_", "coef_"), "sudire": ("x_scores_", "proj_mat_"), "dicomo": ("moment_",), "capi": ("moments_",), "VersatileScaler": ("col_loc_", "col_sca_"),
            "GenSpatialSignPreProcessor": ("X_gsspp_",)}[who]

    def fit(m, X, y):
        if who == "VersatileScaler":
            m.fit_transform(X)
        elif who == "GenSpatialSignPreProcessor":
            m.fit_transform(X)
        elif who == "dicomo":
            m.fit(X[:, 0], y=y)
        elif who == "capi":
            m.fit(X[:, 0], y)
        else:
            m.fit(X, y)
    with E.patch([]):
        m = C(**B)
        before = snap(m.get_params(deep=False))
        try:
            quiet(fit, m, Z, w)
        except Exception:
            pass
        for k, v in before.items():
            eqv(E, "%s is left alone" % k, m.get_params(deep=False)[k], v)
        quiet(fit, m, X, y)
        g = C(**B)
        quiet(fit, g, X, y)
        for k in outs:
            E.eq(k, flat(getattr(m, k)), flat(getattr(g, k)))
        if who in ("rm", "snipls", "sprm", "ppdire", "sudire"):
            E.eq("predict", flat(quiet(m.predict, N)), flat(quiet(g.predict, N)))


def h_default_options(E, who):
    """default settings are not shared between objects: fitting one leaves the next as it was"""
    C = cls(who)
    d0 = snap(defaults(C))
    wrapper()
    X = E.const(rng_matrix(6, 2, 43))
    y = E.const([v[0] for v in rng_matrix(6, 1, 44)])
    ans = E.array("ans", 2, 0.25, 3)
    FakeProblem.made = []
    FakeProblem.script = lambda p, z: (ans.copy(), {"status": 0, "status_msg": b"", "obj_val": 0.0})
    import scipy.optimize as spo
    stub = [(spo, "minimize", lambda *a, **k: types.SimpleNamespace(x=ans.copy(), success=True, fun=0.0))]
    with E.patch(stub):
        for kw in ([dict(optimizer="SLSQP"), dict(optimizer="IPOPT"), dict(optimizer="grid")] if who == "ppdire" else [dict(sudiremeth="dcov-sdr"), dict(sudiremeth="mdd-sdr")]):
            m = C(n_components=1, verbose=False, **dict(required(E, who), **kw, **({"pi_arguments": {"mode": "var"}} if who == "ppdire" else {})))
            before = snap(m.get_params(deep=False))
            quiet(m.fit, X, *(() if who == "ppdire" else (y,)))
            for k, v in before.items():
                eqv(E, "fitting leaves %s alone" % k, m.get_params(deep=False)[k], v)
            eqv(E, "the defaults", defaults(C), d0)
            q = C(**required(E, who))
            for k, v in q.get_params(deep=False).items():
                if k in d0 and d0[k] is not inspect.Parameter.empty:
                    eqv(E, "the next object's %s" % k, v, required(E, who).get(k, d0[k]))


def cases(tier):
    out = []
    for who in WHERE:
        out.append(Case("params-" + who, h_params, "every setting, any value of the numerical ones", who=who))
        for how in ("set", "clone", "other"):
            out.append(Case("refit-%s-%s" % (who, how), h_refit, "n<=6, p=2 fixed data with up to 2 free cells or responses, free new cases", who=who, how=how, budget=120))
    for who in WHERE:
        for bad in ("constant", "few", "length", "short"):
            if bad == "length" and who in ("VersatileScaler", "GenSpatialSignPreProcessor"):
                continue
            out.append(Case("unfit-%s-%s" % (who, bad), h_unfit, "8x3 fixed data after data of another shape or with a constant column at any value, free new cases", who=who, bad=bad))
    for who in ("ppdire", "sudire"):
        for white in (True, False):
            out.append(Case("switch-%s-%s" % (who, white), h_switch, "7x2 fixed data, free index values, free new cases", who=who, white=white))
    for who in ("rm", "snipls", "sprm", "ppdire", "sudire"):
        out.append(Case("verbose-" + who, h_verbose, "as in refit", who=who, budget=120))
    for who in ("ppdire", "sudire"):
        out.append(Case("defaults-" + who, h_default_options, "6x2 fixed data, any answer of the optimiser", who=who))
    return out
