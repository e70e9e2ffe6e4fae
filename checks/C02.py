"""inverse_transform undoes transform."""
from checks.common import *
from engine.harness import Case

ASSUMPTIONS = ["n<=5, p<=3 fully symbolic; fixed data with a few symbolic cells up to 12x4"]


def h_rt(E, n, p, center, scale, trimming=0, k=2):
    from direpack.preprocessing.robcent import VersatileScaler
    X = E.array("x", (n, p))
    Y = E.array("y", (k, p))
    vs = VersatileScaler(center=center, scale=scale, trimming=trimming)
    Xs = vs.fit_transform(X)
    E.eq("training round trip", vs.inverse_transform(Xs), X)
    E.eq("training round trip, stored data", vs.inverse_transform(), X)
    E.eq("new data round trip", vs.inverse_transform(vs.transform(Y)), Y)
    E.eq("predict round trip", vs.inverse_transform(vs.predict(Y)), Y)
    vs.fit_transform(X)
    vs.predict(E.const(rng_matrix(n, p, 12)))
    E.eq("training data, after a prediction", vs.inverse_transform(), X)
    E.eq("transform of inverse", vs.transform(vs.inverse_transform(Y)), Y)


def h_any(E, p, k, kind="array"):
    """any estimates whatsoever (callable estimators), zero scales included"""
    from direpack.preprocessing.robcent import VersatileScaler
    m, s = E.array("m", p), E.array("s", p, lo=0, hi=8)
    X = E.const(rng_matrix(4, p, 3))
    vs = VersatileScaler(center=lambda X, trimming=0: E.np.array(m), scale=lambda X, trimming=0: E.np.array(s))
    vs.fit(X)
    Y = E.array("y", (k, p))
    Y0 = Y.copy()
    u = unit(list(s))
    arg = E.frame(Y) if kind == "frame" else Y
    E.eq("inverse is multiplication and shift", vs.inverse_transform(arg),
         [[Y0[i, j] * u[j] + m[j] for j in range(p)] for i in range(k)])
    E.eq("new data round trip", vs.inverse_transform(vs.transform(arg)), Y0)
    E.eq("transform of inverse", vs.transform(vs.inverse_transform(arg)), Y0)
    E.eq("scaled data untouched", Y, Y0)
    E.eq("estimates untouched", vs.scale_, s)
    E.eq("centre untouched", vs.center_, m)
    T = vs.transform(Y)
    E.eq("no argument: the last transformed data", vs.inverse_transform(), Y0)
    vs.predict(E.const(rng_matrix(k + 1, p, 9)))
    E.eq("no argument, after a prediction: the last transformed data", vs.inverse_transform(), Y0)
    vs.predict(E.const(rng_matrix(k, p, 11)))
    E.eq("no argument, after a prediction of as many cases: the last transformed data", vs.inverse_transform(), Y0)
    E.eq("new data do not change the estimates", vs.scale_, s)


def h_big(E, n, p, cells, center, scale, lo=-8, hi=8):
    from direpack.preprocessing.robcent import VersatileScaler
    X = mix(E, "x", n, p, 17 + n + p, cells, lo, hi)
    vs = VersatileScaler(center=center, scale=scale)
    Xs = vs.fit_transform(X)
    E.eq("training round trip", vs.inverse_transform(Xs), X)
    Y = mix(E, "y", 7, p, 5, [(0, 0), (6, p - 1)])
    E.eq("new data round trip", vs.inverse_transform(vs.transform(Y)), Y)


def h_ints(E, n, p, center, scale):
    from direpack.preprocessing.robcent import VersatileScaler
    A = int_matrix(n, p, 53)
    vs = VersatileScaler(center=center, scale=scale)
    Z = vs.fit_transform(E.ints(A))
    E.eq("integer training data round trip", vs.inverse_transform(Z), E.const(A))
    Y = E.array("y", (2, p), -4, 4)
    E.eq("new data round trip", vs.inverse_transform(vs.transform(Y)), Y)
    E.eq("integer new data", vs.inverse_transform(vs.transform(E.ints(A[:2]))), E.const(A[:2]))


def cases(tier):
    T = tier == "thorough"
    out = []
    B = "n=%d, p=%d, all cells symbolic in [-8,8], new rows symbolic"
    for c, s in [("mean", "std"), ("median", "mad"), ("None", "std"), ("mean", "None"), ("None", "None"),
                 ("median", "std"), ("None", "mad"), ("mean", "mad"), ("median", "None")]:
        for n, p in [(3, 1), (3, 2)] + ([(4, 1), (5, 1), (2, 3), (4, 2)] if T else []):
            out.append(Case("rt-%s-%s-%dx%d" % (c, s, n, p), h_rt, B % (n, p), n=n, p=p, center=c, scale=s,
                            budget=300 if T else 60, max_paths=6000))
        out.append(Case("big-%s-%s" % (c, s), h_big, "fixed 12x4 data, 1 symbolic cell", n=12, p=4, cells=[(5, 2)],
                        center=c, scale=s))
        for n, p in [(60, 2), (13, 14)]:
            out.append(Case("large-%s-%s-%d" % (c, s, n), h_big, "fixed %dx%d data, 1 symbolic cell in [-1/32,1/32]" % (n, p), n=n, p=p, cells=[(5, 1)],
                            center=c, scale=s, lo=-0.03125, hi=0.03125))
        out.append(Case("ints-%s-%s" % (c, s), h_ints, "fixed integers, symbolic new data", n=7, p=3, center=c, scale=s))
    out.append(Case("rt-trimmed-4x1", h_rt, B % (4, 1), n=4, p=1, center="mean", scale="std", trimming=0.25))
    for p, k in [(1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (3, 3), (4, 2)]:
        for kind in ("array", "frame"):
            out.append(Case("any-%d-%d-%s" % (p, k, kind), h_any, "any centre in [-8,8]^%d, scale in [0,8]^%d" % (p, p),
                            p=p, k=k, kind=kind))
    return out
