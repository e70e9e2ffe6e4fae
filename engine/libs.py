"""Models of the scipy / statsmodels / dcor / sklearn / pandas entry points used by the code
under test, and the patch context that puts them in place inside the direpack modules."""
import sys
import builtins
import types
import numpy as np
import pandas as pd
import scipy
import scipy.stats
import scipy.optimize
import scipy.linalg
import scipy.spatial
import scipy.spatial.distance
import statsmodels.api as sm
import statsmodels.robust
import statsmodels.robust.scale
import dcor
import sklearn.utils.extmath
import sklearn.metrics
from fractions import Fraction
from .poly import Unsupported
from .sym import Sym, NAN
from .arr import *
from .arr import _lsort, _lmean, _lsum, _lmedian, _axisapply, _mm2, _nn, _ucall
from . import arr


def guard(orig, f):
    """use the model only when a symbolic value is involved"""
    f = arr.named(orig, f)

    def g(*a, **k):
        if has_sym(a) or has_sym(k):
            return f(*a, **k)
        r = orig(*a, **k)
        return r
    g.__name__ = getattr(orig, "__name__", "f")
    g.__wrapped__ = orig
    MODELS[orig] = f
    repl(orig, g)
    return g


def m_trim_mean(a, proportiontocut, axis=0, **k):
    q = Sym.lift(proportiontocut).c
    A = raw(a)
    n = A.size if axis is None else A.shape[axis]
    cut = int(q * n)
    if cut >= n - cut:
        raise ValueError("Proportion too big.")

    def f(v):
        if any(x.isnan() for x in v):
            return Sym(sp=NAN)
        s = _lsort(v) if cut else v
        return _lmean(s[cut:len(s) - cut])
    return _axisapply(f, A, axis)


guard(scipy.stats.trim_mean, m_trim_mean)


def m_moment(a, order=1, axis=0, center=None, **k):
    def f(v):
        m = _lmean(v) if center is None else Sym.lift(center)
        return _lmean([(x - m) ** order for x in v])
    if order == 1 and center is None:
        return _axisapply(lambda v: Sym.const(0), a, axis)
    return _axisapply(f, a, axis)


guard(scipy.stats.moment, m_moment)


def m_skew(a, axis=0, bias=True, **k):
    def f(v):
        n = len(v)
        m = _lmean(v)
        m2 = _lmean([(x - m) ** 2 for x in v])
        m3 = _lmean([(x - m) ** 3 for x in v])
        if m2 == 0:
            return Sym(sp=NAN)
        s = m3 / m2 ** Fraction(3, 2)
        if not bias and n > 2:
            s = s * (Sym.const(n * (n - 1)).sqrt() / (n - 2))
        return s
    return _axisapply(f, a, axis)


guard(scipy.stats.skew, m_skew)


def m_kurtosis(a, axis=0, fisher=True, bias=True, **k):
    def f(v):
        n = len(v)
        m = _lmean(v)
        m2 = _lmean([(x - m) ** 2 for x in v])
        m4 = _lmean([(x - m) ** 4 for x in v])
        if m2 == 0:
            return Sym(sp=NAN)
        s = m4 / (m2 * m2)
        if not bias and n > 3:
            s = 1 / Sym.const((n - 2) * (n - 3)) * ((n * n - 1) * s - 3 * (n - 1) ** 2) + 3
        return s - 3 if fisher else s
    return _axisapply(f, a, axis)


guard(scipy.stats.kurtosis, m_kurtosis)


def m_mad(a, c=0.6744897501960817, axis=0, center=np.median, **k):
    def f(v):
        m = _lmedian(v)
        return _lmedian([abs(x - m) for x in v]) / c
    return _axisapply(f, a, axis)


guard(statsmodels.robust.scale.mad, m_mad)
if statsmodels.robust.mad is not statsmodels.robust.scale.mad:
    guard(statsmodels.robust.mad, m_mad)

guard(scipy.linalg.inv, lambda a, *x, **k: arr.la_inv(a))
guard(scipy.linalg.pinv, lambda a, *x, **k: arr.la_pinv(a))
guard(scipy.linalg.sqrtm, arr.sl_sqrtm)
guard(scipy.linalg.orth, arr.sl_orth)
guard(scipy.linalg.solve, lambda a, b, *x, **k: arr.la_solve(a, b))
guard(scipy.linalg.lstsq, lambda a, b, *x, **k: arr.la_lstsq(a, b))
guard(scipy.linalg.svd, lambda a, full_matrices=True, compute_uv=True, **k: arr.la_svd(a, full_matrices, compute_uv))
guard(scipy.linalg.eigh, lambda a, *x, **k: arr.la_eigh(a))
guard(scipy.linalg.norm, lambda a, ord=None, axis=None, keepdims=False, **k: arr.la_norm(a, ord, axis, keepdims))


def _dist(u, v, metric):
    if metric in ("euclidean", "sqeuclidean"):
        s = _lsum([(a - b) * (a - b) for a, b in zip(u, v)])
        return s.sqrt() if metric == "euclidean" else s
    if metric in ("cityblock", "manhattan"):
        return _lsum([abs(a - b) for a, b in zip(u, v)])
    if metric == "chebyshev":
        m = abs(u[0] - v[0])
        for a, b in zip(u[1:], v[1:]):
            d = abs(a - b)
            if d > m:
                m = d
        return m
    raise Unsupported("metric %s" % (metric,))


def m_pdist(X, metric="euclidean", **k):
    X = raw(X)
    n = len(X)
    return asym([_dist(X[i], X[j], metric) for i in range(n) for j in range(i + 1, n)])


def m_cdist(A, B, metric="euclidean", **k):
    A, B = raw(A), raw(B)
    return asym([[_dist(u, v, metric) for v in B] for u in A])


def m_squareform(v, *a, **k):
    V = raw(v)
    if V.ndim == 1:
        n = int(round((1 + (1 + 8 * len(V)) ** 0.5) / 2))
        out = raw(np.zeros((n, n)))
        t = 0
        for i in range(n):
            for j in range(i + 1, n):
                out[i, j] = out[j, i] = V[t]
                t += 1
        return sa(out)
    n = len(V)
    return asym([V[i, j] for i in range(n) for j in range(i + 1, n)])


guard(scipy.spatial.distance.pdist, m_pdist)
guard(scipy.spatial.distance.cdist, m_cdist)
guard(scipy.spatial.distance.squareform, m_squareform)
guard(scipy.spatial.distance_matrix, lambda x, y, p=2, **k: m_cdist(x, y))


def _dm(x):
    X = raw(x)
    if X.ndim == 1:
        X = X.reshape(-1, 1)
    return raw(m_squareform(m_pdist(X)))


def _dcenter(D):
    n = len(D)
    r = [_lmean(list(D[i])) for i in range(n)]
    g = _lmean(r)
    return np.array([[D[i, j] - r[i] - r[j] + g for j in range(n)] for i in range(n)], dtype=object)


def _ucenter(D):
    n = len(D)
    r = [_lsum(list(D[i])) / (n - 2) for i in range(n)]
    g = _lsum(list(D.ravel())) / ((n - 1) * (n - 2))
    return np.array([[Sym.const(0) if i == j else D[i, j] - r[i] - r[j] + g for j in range(n)] for i in range(n)], dtype=object)


def m_dcov2(x, y, **k):
    A, B = _dcenter(_dm(x)), _dcenter(_dm(y))
    n = len(A)
    return _lsum([a * b for a, b in zip(A.ravel(), B.ravel())]) / (n * n)


def m_udcov2(x, y, **k):
    A, B = _ucenter(_dm(x)), _ucenter(_dm(y))
    n = len(A)
    return _lsum([a * b for a, b in zip(A.ravel(), B.ravel())]) / (n * (n - 3))


guard(dcor.distance_covariance_sqr, m_dcov2)
guard(dcor.u_distance_covariance_sqr, m_udcov2)
guard(dcor.distance_covariance, lambda x, y, **k: m_dcov2(x, y).sqrt())
guard(dcor.distance_correlation_sqr, lambda x, y, **k: m_dcov2(x, y) / (m_dcov2(x, x) * m_dcov2(y, y)).sqrt())


def m_svd_flip(u, v, u_based_decision=True):
    U, V = raw(u).copy(), raw(v).copy()
    for j in range(U.shape[1]):
        col = list(U[:, j]) if u_based_decision else list(V[j])
        k = 0
        for i in range(1, len(col)):
            if abs(col[i]) > abs(col[k]):
                k = i
        if col[k] < 0:
            U[:, j] = [-t for t in U[:, j]]
            V[j] = [-t for t in V[j]]
    return sa(U), sa(V)


guard(sklearn.utils.extmath.svd_flip, m_svd_flip)


def m_mse(yt, yp, **k):
    a, b = raw(yt).ravel(), raw(yp).ravel()
    if len(a) != len(b):
        raise ValueError("Found input variables with inconsistent numbers of samples")
    w = k.get("sample_weight")
    if w is None:
        return _lmean([(x - y) ** 2 for x, y in zip(a, b)])
    w = list(raw(w).ravel())
    if len(w) != len(a):
        raise ValueError("sample_weight length")
    return _lsum([u * (x - y) ** 2 for u, x, y in zip(w, a, b)]) / _lsum(w)


guard(sklearn.metrics.mean_squared_error, m_mse)


class OLSModel:
    def __init__(self, y, X=None, **k):
        self.y = raw(y)
        self.X = raw(X)

    def fit(self, *a, **k):
        X = self.X if self.X.ndim == 2 else self.X.reshape(-1, 1)
        y = self.y.reshape(len(self.y), -1)
        b = arr.la_pinv(sa(X))
        beta = _mm2(raw(b), y)
        return OLSRes(X, y, beta)


class OLSRes:
    def __init__(self, X, y, beta):
        self.params = sa(beta[:, 0].copy()) if beta.shape[1] == 1 else sa(beta)
        self.X = X
        self.fittedvalues = sa(_mm2(X, beta)[:, 0])
        self.resid = sa(y[:, 0]) - self.fittedvalues

    def predict(self, X=None):
        X = self.X if X is None else raw(X)
        return arr.np_matmul(sa(X), self.params)


def m_ols(endog, exog=None, *a, **k):
    return OLSModel(endog, exog)


guard(sm.OLS, m_ols)


def m_add_constant(data, prepend=True, has_constant="skip"):
    X = raw(data)
    if X.ndim == 1:
        X = X.reshape(-1, 1)
    n = X.shape[0]
    isc = False
    for j in range(X.shape[1]):
        col = list(X[:, j])
        if all(c.isconst() for c in col):
            if all(bool(c == col[0]) for c in col) and bool(col[0] != 0):
                isc = True
        else:
            if n > 1 and all(bool(c == col[0]) for c in col) and bool(col[0] != 0):
                isc = True
            if n == 1 and bool(col[0] != 0):
                isc = True
    if isc:
        if has_constant == "skip":
            return sa(X)
        if has_constant == "raise":
            raise ValueError("data already contains a constant")
    one = raw(np.ones((n, 1)))
    return sa(np.concatenate([one, X] if prepend else [X, one], axis=1))


guard(sm.add_constant, m_add_constant)


# ----------------------------------------------------------------- pandas
class SymFrame:
    """data frame with symbolic cells; the patched pandas.DataFrame type"""

    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        if isinstance(data, dict):
            columns = list(data) if columns is None else columns
            data = sa(np.stack([raw(data[c]).ravel() for c in columns], axis=1))
        a = asym(data)
        if a.ndim == 1:
            a = a.reshape(-1, 1)
        self._a = a
        self.columns = pd.Index(columns if columns is not None else range(a.shape[1]))
        self.index = pd.Index(index if index is not None else range(a.shape[0]))

    def _sym_values(self):
        return self._a

    shape = property(lambda s: s._a.shape)
    ndim = 2
    values = property(lambda s: s._a.copy())

    @property
    def dtypes(self):
        return pd.Series([np.dtype("float64")] * self.shape[1], index=self.columns)

    @property
    def T(self):
        return SymFrame(self._a.T, index=self.columns, columns=self.index)

    def to_numpy(self, *a, **k):
        return self._a.copy()

    def astype(self, *a, **k):
        return self

    def copy(self, deep=True):
        return SymFrame(self._a.copy(), self.index, self.columns)

    __copy__ = copy

    def __deepcopy__(self, memo=None):
        return self.copy()

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, k):
        if isinstance(k, list):
            idx = [list(self.columns).index(c) for c in k]
            return SymFrame(self._a[:, idx], self.index, [self.columns[i] for i in idx])
        return SymSeries(self._a[:, list(self.columns).index(k)], index=self.index, name=k)

    @property
    def iloc(self):
        return _ILoc(self)

    def mean(self, axis=0):
        return SymSeries(NP.mean(self._a, axis=axis), index=self.columns)

    def isnull(self):
        return pd.DataFrame(np.isnan(self._a))

    isna = isnull

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return arr.ufunc_handler(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return call_np(func, args, kwargs)

    def __getattr__(self, name):
        raise AttributeError(name)


class _ILoc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        r = self.f._a[i]
        if isinstance(r, np.ndarray):
            return SymFrame(r) if r.ndim == 2 else SymSeries(r)
        return r


class SymSeries:
    def __init__(self, data=None, index=None, dtype=None, name=None, copy=None):
        self._a = asym(data).reshape(-1)
        self.name = name
        self.index = pd.Index(index if index is not None else range(len(self._a)))

    def _sym_values(self):
        return self._a

    shape = property(lambda s: s._a.shape)
    ndim = 1
    values = property(lambda s: s._a.copy())
    dtype = np.dtype("float64")

    def to_numpy(self, *a, **k):
        return self._a.copy()

    def astype(self, *a, **k):
        return self

    def copy(self, deep=True):
        return SymSeries(self._a.copy(), self.index, name=self.name)

    __copy__ = copy

    def __deepcopy__(self, memo=None):
        return self.copy()

    def __len__(self):
        return len(self._a)

    def to_frame(self, *a, **k):
        return SymFrame(self._a.reshape(-1, 1))

    @property
    def iloc(self):
        return _ILoc(self)

    def __getitem__(self, k):
        if isinstance(k, slice) or isinstance(k, (np.ndarray, list)):
            return SymSeries(self._a[k])
        return self._a[list(self.index).index(k)]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return arr.ufunc_handler(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return call_np(func, args, kwargs)


for _n in ("add", "sub", "mul", "truediv", "pow", "radd", "rsub", "rmul", "rtruediv"):
    def _mkop(n):
        def f(self, o):
            o = o._sym_values() if hasattr(o, "_sym_values") else o
            return getattr(self._a, "__%s__" % n)(o)
        return f
    setattr(SymFrame, "__%s__" % _n, _mkop(_n))
    setattr(SymSeries, "__%s__" % _n, _mkop(_n))

MODELS_PD = {pd.DataFrame: SymFrame, pd.Series: SymSeries}


repl(pd.DataFrame, SymFrame)
repl(pd.Series, SymSeries)
repl(pd, Proxy(pd))
repl(scipy, Proxy(scipy))
repl(scipy.stats, Proxy(scipy.stats))
repl(scipy.optimize, Proxy(scipy.optimize))
repl(scipy.linalg, Proxy(scipy.linalg))
repl(scipy.spatial, Proxy(scipy.spatial))
repl(scipy.spatial.distance, Proxy(scipy.spatial.distance))
repl(sm, Proxy(sm))
repl(statsmodels.robust, Proxy(statsmodels.robust))
repl(statsmodels.robust.scale, Proxy(statsmodels.robust.scale))
repl(dcor, Proxy(dcor))
repl(np.linalg, NP.linalg)
for _f in ("inv", "pinv", "svd", "eigh", "norm", "lstsq", "solve"):
    _o = getattr(np.linalg, _f)
    repl(_o, getattr(NP.linalg, _f))
for _f in ("float64",):
    repl(getattr(np, _f), arr.c_float64)


def direpack_modules():
    return [m for n, m in list(sys.modules.items())
            if (n == "direpack" or n.startswith("direpack.")) and m is not None and ".test" not in n]


def direpack_functions():
    seen = set()
    for m in direpack_modules():
        for v in list(vars(m).values()):
            for f in [v] + (list(vars(v).values()) if isinstance(v, type) else []):
                if isinstance(f, types.FunctionType) and id(f) not in seen and (f.__module__ or "").startswith("direpack"):
                    seen.add(id(f))
                    if f.__defaults__ or f.__kwdefaults__:
                        yield f


class Patched:
    """put the models (and harness stubs) into the globals of the direpack modules.
    stubs: list of (owner module, attribute name, replacement)"""

    def __init__(self, symbolic=True, stubs=None):
        self.map = {}
        self.stubs = stubs or []
        if symbolic:
            self.map.update(REPL)
        for owner, name, new in self.stubs:
            o = getattr(owner, name)
            try:
                new._vstub = True
            except AttributeError:
                pass
            self.map[id(o)] = (o, new)
        self.saved = []

    def lookup(self, v):
        t = self.map.get(id(v))
        if t is not None and t[0] is v:
            return t[1]
        return None

    def __enter__(self):
        for m in direpack_modules():
            d = vars(m)
            for k, v in list(d.items()):
                if k.startswith("__"):
                    continue
                n = self.lookup(v)
                if n is not None:
                    self.saved.append((d, k, v))
                    d[k] = n
        self.defs = []
        for fn in direpack_functions():
            for at in ("__defaults__", "__kwdefaults__"):
                dv = getattr(fn, at)
                if not dv:
                    continue
                items = dv.items() if isinstance(dv, dict) else enumerate(dv)
                rep = {k: n for k, n in ((k, self.lookup(v)) for k, v in items) if n is not None}
                if rep:
                    self.defs.append((fn, at, dv))
                    if isinstance(dv, dict):
                        setattr(fn, at, dict(dv, **rep))
                    else:
                        setattr(fn, at, tuple(rep.get(k, v) for k, v in enumerate(dv)))
        for owner, name, new in self.stubs:
            self.saved.append((vars(owner), name, getattr(owner, name)))
            setattr(owner, name, new)
        self._clear()
        self.imp = builtins.__import__
        real = self.imp
        look = self.lookup

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            m = real(name, globals, locals, fromlist, level)
            g = (globals or {}).get("__name__") or ""
            if g.startswith("direpack"):
                if fromlist:
                    if any(look(getattr(m, f, None)) is not None for f in fromlist):
                        ns = types.SimpleNamespace()
                        for f in fromlist:
                            v = getattr(m, f)
                            r = look(v)
                            setattr(ns, f, v if r is None else r)
                        return ns
                else:
                    r = look(m)
                    if r is not None:
                        return r
            return m
        builtins.__import__ = imp
        return self

    def _clear(self):
        for o, n in REPL.values():
            if isinstance(n, Proxy):
                n._cache.clear()
        NP.linalg._cache.clear()

    def __exit__(self, *a):
        builtins.__import__ = self.imp
        for fn, at, dv in reversed(self.defs):
            setattr(fn, at, dv)
        for d, k, v in reversed(self.saved):
            d[k] = v
        self._clear()
        return False
