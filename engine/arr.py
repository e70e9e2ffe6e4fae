"""SymArray: an object-dtype ndarray subclass holding Sym scalars, plus the models of the
numpy / scipy / statsmodels / dcor / pandas operations the code under test calls."""
import functools
import inspect
import sys
import types
import builtins
import math
import numbers
import numpy as np
from fractions import Fraction
from .poly import Unsupported, CTX, DROP
from .sym import Sym, NAN, PINF, NINF

F64 = np.dtype("float64")
_lift1 = np.frompyfunc(Sym.lift, 1, 1)


class _Meta(type):
    def __instancecheck__(cls, x):
        if cls is SymArray:
            return isinstance(x, np.ndarray)
        return type.__instancecheck__(cls, x)


def raw(a):
    """base object ndarray of Sym (no copy for SymArray)"""
    if type(a) is SymArray:
        return a.view(np.ndarray)
    if isinstance(a, Sym):
        r = np.empty((), object)
        r[()] = a
        return r
    if isinstance(a, np.ndarray):
        a = a.view(np.ndarray)
        if a.dtype == object:
            return lift_obj(a)
        if a.size == 0:
            return a.astype(object)
        return lift_obj(a.astype(object))
    return raw(asym(a))


def lift_obj(a):
    r = _lift1(a)
    if not isinstance(r, np.ndarray):
        t = np.empty((), object)
        t[()] = r
        return t
    return r


def sa(a):
    """wrap an object ndarray"""
    if isinstance(a, Sym):
        return a
    if isinstance(a, np.ndarray) and a.dtype == object:
        return a.view(SymArray)
    return a


def has_sym(x, depth=0):
    if isinstance(x, (Sym,)) or type(x) is SymArray:
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict) and depth < 2:
        return any(has_sym(y, depth + 1) for y in x.values())
    if type(x).__name__ in ("SymFrame", "SymSeries"):
        return True
    return False


def strip(x):
    if type(x) is SymArray:
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return type(x)(strip(y) for y in x) if type(x) in (list, tuple) else x
    return x


def wrap(x):
    if isinstance(x, np.ndarray) and type(x) is not SymArray and x.dtype == object:
        return lift_obj(x).view(SymArray)
    if type(x) in (list, tuple):
        return type(x)(wrap(y) for y in x)
    return x


def asym(x):
    """SymArray from nested lists / arrays / scalars"""
    if type(x) is SymArray:
        return x
    if isinstance(x, Sym):
        return raw(x).view(SymArray)
    if isinstance(x, np.ndarray):
        return raw(x).view(SymArray)
    if hasattr(x, "_sym_values"):
        return x._sym_values()
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return np.empty((0,), object).view(SymArray)
        parts = [asym(y) for y in x]
        return np.stack([p.view(np.ndarray) for p in parts]).view(SymArray)
    if hasattr(x, "to_numpy"):
        return asym(x.to_numpy())
    if isinstance(x, (range,)):
        return asym(list(x))
    r = np.empty((), object)
    r[()] = Sym.lift(x)
    return r.view(SymArray)


def allconst(a):
    return all(x.isconst() for x in raw(a).ravel())


def tofloat(a):
    a = raw(a)
    out = np.empty(a.shape, float)
    for i in np.ndindex(a.shape):
        out[i] = float(a[i])
    return out


def fixidx(i):
    if type(i) is SymArray:
        f = tofloat(i) if allconst(i) else None
        if f is None:
            raise Unsupported("symbolic index")
        return f.astype(int)
    if isinstance(i, tuple):
        return tuple(fixidx(j) for j in i)
    if isinstance(i, Sym):
        return int(i)
    if isinstance(i, list) and has_sym(i):
        return [fixidx(j) for j in i]
    return i


class SymArray(np.ndarray, metaclass=_Meta):
    __array_priority__ = 100

    def __new__(cls, shape=(), *a, **k):
        if isinstance(shape, (int, tuple)):
            r = np.empty(shape, object)
            r[...] = Sym.const(0)
            return r.view(SymArray)
        return asym(shape)

    @property
    def dtype(self):
        return F64

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return np.zeros(self.shape, dtype=bool)
        return np.ndarray.__eq__(self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return np.ones(self.shape, dtype=bool)
        return np.ndarray.__ne__(self, o)

    __hash__ = None

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_handler(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return call_np(func, args, kwargs)

    def __getitem__(self, i):
        r = np.ndarray.__getitem__(self, fixidx(i))
        return r

    def __setitem__(self, i, v):
        if not isinstance(v, Sym):
            if isinstance(v, (numbers.Number, np.generic)):
                v = Sym.lift(v)
            else:
                v = raw(v)
        np.ndarray.__setitem__(self.view(np.ndarray), fixidx(i), v)

    def __deepcopy__(self, memo=None):
        return self.copy()

    def copy(self, order="C"):
        return np.array(self.view(np.ndarray), dtype=object, copy=True).view(SymArray)

    __copy__ = copy

    def __float__(self):
        if self.size == 1:
            return float(self.view(np.ndarray).ravel()[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __int__(self):
        if self.size == 1:
            return int(self.view(np.ndarray).ravel()[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).ravel()[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __contains__(self, x):
        return any(bool(y == x) for y in raw(self).ravel())

    def astype(self, dt, *a, **k):
        if dt in ("O", object):
            return self.copy()
        d = np.dtype(dt)
        if d.kind in "fc" or d == object:
            return self.copy()
        if d.kind == "b":
            r = np.empty(self.shape, bool)
            for i in np.ndindex(self.shape):
                r[i] = bool(raw(self)[i])
            return r
        if allconst(self):
            return tofloat(self).astype(d)
        raise Unsupported("astype %s" % d)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return NP.sum(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return NP.mean(self, axis=axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return NP.var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return NP.std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return NP.min(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return NP.max(self, axis=axis, keepdims=keepdims)

    def argsort(self, axis=-1, **k):
        return NP.argsort(self, axis=axis)

    def argmax(self, axis=None, out=None, **k):
        return NP.argmax(self, axis=axis)

    def argmin(self, axis=None, out=None, **k):
        return NP.argmin(self, axis=axis)

    def sort(self, axis=-1, **k):
        self[...] = NP.sort(self, axis=axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return self.astype(bool).any(axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return self.astype(bool).all(axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **k):
        return NP.prod(self, axis=axis)

    def cumsum(self, axis=None, **k):
        return NP.cumsum(self, axis=axis)

    def dot(self, b, out=None):
        return NP.dot(self, b)

    def round(self, decimals=0, out=None):
        return NP.round(self, decimals)

    def clip(self, a_min=None, a_max=None, **k):
        return NP.clip(self, a_min, a_max)

    def trace(self, *a, **k):
        return NP.trace(self)

    def nonzero(self):
        return self.astype(bool).nonzero()

    def conj(self):
        return self

    conjugate = conj

    @property
    def real(self):
        return self

    def __repr__(self):
        return "SymArray(%s)" % (self.view(np.ndarray).tolist(),)

    __str__ = __repr__


def _sym_array_ufunc(self, ufunc, method, *inputs, **kw):
    return ufunc_handler(ufunc, method, inputs, kw)


Sym.__array_ufunc__ = _sym_array_ufunc


def _sym_array_function(self, func, types_, args, kwargs):
    return call_np(func, args, kwargs)


Sym.__array_function__ = _sym_array_function

CMPS = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal, np.not_equal}


def _emap(f):
    return np.frompyfunc(f, 1, 1)


def _emap2(f):
    return np.frompyfunc(f, 2, 1)


def _max2(a, b):
    if a.isnan() or b.isnan():
        return Sym(sp=NAN)
    return a if a >= b else b


def _min2(a, b):
    if a.isnan() or b.isnan():
        return Sym(sp=NAN)
    return a if a <= b else b


def _fmax2(a, b):
    if a.isnan():
        return b
    if b.isnan():
        return a
    return a if a >= b else b


def _fmin2(a, b):
    if a.isnan():
        return b
    if b.isnan():
        return a
    return a if a <= b else b


def _trig(name):
    def f(x):
        if x.isconst():
            return Sym.lift(float(getattr(np, name)(float(x))))
        raise Unsupported(name)
    return f


def _hypot(a, b):
    return (a * a + b * b).sqrt()


BOOLU = {np.isnan: lambda x: x.isnan(), np.isfinite: lambda x: x.isfinite(), np.isinf: lambda x: x.isinf(),
         np.signbit: lambda x: x < 0, np.logical_not: lambda x: not bool(x)}
UN = {np.sqrt: Sym.sqrt, np.square: Sym.square, np.absolute: abs, np.fabs: abs, np.sign: Sym.sign,
      np.exp: Sym.exp, np.log: Sym.log, np.tanh: Sym.tanh, np.negative: lambda x: -x, np.positive: lambda x: x,
      np.floor: Sym.floor, np.ceil: Sym.ceil, np.rint: Sym.rint, np.trunc: Sym.floor,
      np.reciprocal: lambda x: 1 / x, np.conjugate: lambda x: x,
      np.cbrt: lambda x: x.root(3) if x >= 0 else -((-x).root(3)),
      np.expm1: lambda x: x.exp() - 1, np.log1p: lambda x: (1 + x).log()}
for _n in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "log2", "log10"):
    UN[getattr(np, _n)] = _trig(_n)
BIN = {np.add: lambda a, b: a + b, np.subtract: lambda a, b: a - b, np.multiply: lambda a, b: a * b,
       np.divide: lambda a, b: a / b, np.power: lambda a, b: a ** b, np.float_power: lambda a, b: a ** b,
       np.maximum: _max2, np.minimum: _min2, np.fmax: _fmax2, np.fmin: _fmin2,
       np.floor_divide: lambda a, b: a // b, np.remainder: lambda a, b: a % b, np.hypot: _hypot,
       np.copysign: lambda a, b: abs(a) if b >= 0 else -abs(a)}
_PYF = {}
for _u, _f in list(UN.items()):
    _PYF[_u] = np.frompyfunc(_f, 1, 1)
for _u, _f in list(BIN.items()):
    _PYF[_u] = np.frompyfunc(_f, 2, 1)


def ufunc_handler(ufunc, method, inputs, kw):
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("subok", None)
    inputs = tuple(x._sym_values() if hasattr(x, "_sym_values") else x for x in inputs)
    if method == "__call__":
        r = _ucall(ufunc, inputs)
    elif method == "reduce":
        r = _ureduce(ufunc, inputs[0], **kw)
    elif method == "accumulate":
        r = sa(_PYF[ufunc].accumulate(raw(inputs[0]), **kw))
    elif method == "outer":
        a, b = raw(inputs[0]), raw(inputs[1])
        r = _ucall(ufunc, (a.reshape(a.shape + (1,) * b.ndim).view(SymArray), b.view(SymArray)))
    elif method == "at":
        a, idx = inputs[0], inputs[1]
        for j, i in enumerate(np.atleast_1d(idx)):
            v = raw(inputs[2])
            a[i] = _ucall(ufunc, (a[i], v.ravel()[j % v.size]))
        return None
    else:
        raise Unsupported("ufunc method %s" % method)
    if where is not True:
        w = np.asarray(where)
        base = out[0] if out is not None else r
        rr = raw(r)
        ww = np.broadcast_to(w, rr.shape)
        tgt = raw(base).copy()
        tgt = np.broadcast_to(tgt, rr.shape).copy()
        tgt[ww] = rr[ww]
        r = sa(tgt)
    if out is not None:
        o = out[0]
        if type(o) is SymArray:
            o[...] = r
            return o
        if isinstance(o, np.ndarray) and o.dtype == bool:
            o[...] = r
            return o
        if isinstance(o, np.ndarray) and o.dtype == object:
            o[...] = raw(r)
            return o
        if allconst(r):
            o[...] = tofloat(r)
            return o
        raise Unsupported("in-place update of a concrete float array with a symbolic value")
    return r


def _ucall(ufunc, inputs):
    if ufunc is np.matmul:
        return np_matmul(*inputs)
    if ufunc in BOOLU:
        a = raw(inputs[0])
        r = np.empty(a.shape, bool)
        f = BOOLU[ufunc]
        for i in np.ndindex(a.shape):
            r[i] = f(a[i])
        return r if r.ndim else bool(r)
    if ufunc in CMPS:
        if any(isinstance(x, str) or x is None for x in inputs):
            return ufunc is np.not_equal
        if any(isinstance(x, np.ndarray) and x.dtype.kind in "US" for x in inputs):
            return ufunc is np.not_equal
        a, b = np.broadcast_arrays(raw(inputs[0]), raw(inputs[1]))
        r = np.empty(a.shape, bool)
        op = {np.less: "<", np.less_equal: "<=", np.greater: ">", np.greater_equal: ">=",
              np.equal: "==", np.not_equal: "!="}[ufunc]
        for i in np.ndindex(a.shape):
            r[i] = a[i]._cmp(b[i], op)
        return r if r.ndim else bool(r)
    if ufunc in (np.logical_and, np.logical_or, np.logical_xor, np.bitwise_and, np.bitwise_or, np.bitwise_xor, np.invert):
        return ufunc(*[asym(x).astype(bool) if has_sym(x) else x for x in inputs])
    if ufunc in _PYF:
        args = [raw(x) for x in inputs]
        r = _PYF[ufunc](*args)
        return sa(r)
    raise Unsupported("ufunc %s" % ufunc.__name__)


def _ureduce(ufunc, a, axis=0, keepdims=False, initial=None, **kw):
    a = raw(a)
    if ufunc in (np.logical_and, np.logical_or):
        b = sa(a).astype(bool)
        return ufunc.reduce(b, axis=axis, keepdims=keepdims)
    if ufunc not in _PYF:
        raise Unsupported("reduce %s" % ufunc.__name__)
    if ufunc in (np.maximum, np.minimum) and a.size == 0:
        raise ValueError("zero-size array to reduction operation which has no identity")
    ident = {np.add: 0, np.multiply: 1}.get(ufunc)
    f = _PYF[ufunc]
    if axis is None:
        v = a.ravel()
        if v.size == 0:
            r = Sym.const(ident)
        else:
            r = f.reduce(v)
        if keepdims:
            r = np.full((1,) * a.ndim, r, dtype=object)
        return sa(r)
    if isinstance(axis, tuple):
        r = a
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            r = raw(_ureduce(ufunc, r, axis=ax, keepdims=keepdims))
        return sa(r) if r.ndim else r[()]
    if a.shape[axis] == 0:
        sh = list(a.shape)
        sh[axis] = 1
        r = np.empty(sh, object)
        r[...] = Sym.const(ident)
        if not keepdims:
            r = r.reshape([s for i, s in enumerate(sh) if i != axis % a.ndim])
        return sa(r)
    r = f.reduce(a, axis=axis)
    if keepdims:
        r = np.expand_dims(raw(r), axis)
    return sa(r)


# ------------------------------------------------------------------ numpy function models
MODELS = {}


def named(orig, f):
    """the model under the parameter names of the original"""
    try:
        P, M = inspect.signature(orig).parameters.values(), inspect.signature(f).parameters.values()
    except (TypeError, ValueError):
        return f
    K = inspect.Parameter
    pos = (K.POSITIONAL_ONLY, K.POSITIONAL_OR_KEYWORD)
    P, M = [q.name for q in P if q.kind in pos], [q.name for q in M if q.kind in pos]
    ren = {a: b for a, b in zip(P, M) if a != b and a not in M and b not in P}
    if not ren:
        return f

    @functools.wraps(f)
    def g(*a, **k):
        return f(*a, **({ren.get(n, n): v for n, v in k.items()} if k else k))
    return g


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = named(f, g)
        return g
    return deco


def _zerod(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def call_np(func, args, kwargs):
    m = MODELS.get(func)
    args = tuple(x._sym_values() if hasattr(x, "_sym_values") else x for x in args)
    if m is not None:
        return m(*args, **kwargs)
    name = getattr(func, "__name__", str(func))
    if name in SAFE:
        kwargs = {k: strip(v) for k, v in kwargs.items()}
        if name in LIFTALL:
            args = tuple(raw(x) if isinstance(x, np.ndarray) and x.dtype.kind in "fib" and name != "take" else x for x in args)
        r = func(*[_zerod(x) if isinstance(x, Sym) else strip(x) for x in args], **kwargs)
        return wrap(r)
    raise Unsupported("numpy function %s" % name)


# structural functions that only move elements, or sum/multiply them natively
SAFE = {"reshape", "ravel", "transpose", "concatenate", "stack", "vstack", "hstack", "column_stack", "dstack",
        "tile", "repeat", "squeeze", "expand_dims", "atleast_1d", "atleast_2d", "atleast_3d", "broadcast_to",
        "broadcast_arrays", "moveaxis", "swapaxes", "rollaxis", "flip", "fliplr", "flipud", "roll", "rot90",
        "take", "take_along_axis", "delete", "insert", "append", "split", "array_split", "hsplit", "vsplit",
        "diag", "diagonal", "diagflat", "triu", "tril", "copy", "shape", "ndim", "size", "compress", "choose",
        "trace", "cumsum", "cumprod", "diff", "outer", "kron", "einsum", "inner", "vdot", "tensordot", "prod",
        "row_stack", "resize", "ediff1d", "block", "ix_", "may_share_memory", "shares_memory", "result_type",
        "iscomplexobj", "isrealobj", "real", "imag", "fill_diagonal", "put_along_axis", "extract", "common_type"}
LIFTALL = {"einsum", "kron", "outer", "inner", "tensordot", "vdot", "concatenate"}


def _axisapply(f, a, axis, keepdims=False):
    """apply f(1d list of Sym) -> Sym along axis"""
    a = raw(a)
    if axis is None:
        r = f(list(a.ravel()))
        if keepdims:
            o = np.empty((1,) * a.ndim, object)
            o[...] = r
            return sa(o)
        return r
    if isinstance(axis, tuple):
        ax = [x % a.ndim for x in axis]
        rest = [i for i in range(a.ndim) if i not in ax]
        b = a.transpose(rest + ax).reshape([a.shape[i] for i in rest] + [-1])
        r = _axisapply(f, b, -1)
        if keepdims:
            r = raw(r).reshape([1 if i in ax else s for i, s in enumerate(a.shape)]).view(SymArray)
        return r
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], object)
    for i in np.ndindex(out.shape):
        out[i] = f(list(b[i]))
    if keepdims:
        return sa(np.expand_dims(out, axis))
    if out.ndim == 0:
        return out[()]
    return sa(out)


ZERO = Sym.const(0)


def _lsum(v):
    s = ZERO
    for x in v:
        s = s + x
    return s


def _lmean(v):
    if not v:
        return Sym(sp=NAN)
    return _lsum(v) / len(v)


def _lvar(v, ddof=0):
    if len(v) - ddof <= 0:
        return Sym(sp=NAN)
    m = _lmean(v)
    return _lsum([(x - m) * (x - m) for x in v]) / (len(v) - ddof)


def _lsort(v):
    out = []
    nans = []
    for x in v:
        if x.isnan():
            nans.append(x)
            continue
        lo, hi = 0, len(out)
        while lo < hi:
            mid = (lo + hi) // 2
            if out[mid] <= x:
                lo = mid + 1
            else:
                hi = mid
        out.insert(lo, x)
    return out + nans


def _lmedian(v):
    if not v:
        return Sym(sp=NAN)
    if any(x.isnan() for x in v):
        return Sym(sp=NAN)
    s = _lsort(v)
    n = len(s)
    if n % 2:
        return s[n // 2]
    return (s[n // 2 - 1] + s[n // 2]) / 2


def _nn(f):
    return lambda v: f([x for x in v if not x.isnan()])


def _lquant(q):
    q = Sym.lift(q).c

    def f(v):
        if any(x.isnan() for x in v):
            return Sym(sp=NAN)
        s = _lsort(v)
        h = q * (len(s) - 1)
        k = int(h)
        if k + 1 >= len(s):
            return s[-1]
        return s[k] + (s[k + 1] - s[k]) * Sym.const(h - k)
    return f


def _lmax(v):
    if not v:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    r = v[0]
    for x in v[1:]:
        r = _max2(r, x)
    return r


def _lmin(v):
    if not v:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    r = v[0]
    for x in v[1:]:
        r = _min2(r, x)
    return r


def _red(f):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
        if keepdims is np._NoValue:
            keepdims = False
        return _axisapply(f, a, axis, keepdims)
    return g


model(np.sum)(_red(_lsum))
model(np.nansum)(_red(_nn(_lsum)))
model(np.mean)(_red(_lmean))
model(np.average)(lambda a, axis=None, weights=None, **k:
                  _axisapply(_lmean, a, axis) if weights is None else NP.sum(asym(a) * weights, axis=axis) / NP.sum(weights))
model(np.nanmean)(_red(_nn(_lmean)))
model(np.max)(_red(_lmax))
model(np.min)(_red(_lmin))
model(np.nanmax)(_red(_nn(_lmax)))
model(np.nanmin)(_red(_nn(_lmin)))
model(np.ptp)(_red(lambda v: _lmax(v) - _lmin(v)))


def _lprod(v):
    r = Sym.const(1)
    for x in v:
        r = r * x
    return r


model(np.prod)(_red(_lprod))


@model(np.median)
def np_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return _axisapply(_lmedian, a, axis, keepdims)


@model(np.nanmedian)
def np_nanmedian(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return _axisapply(_nn(_lmedian), a, axis, keepdims is True)


def _varm(nan, root):
    def g(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        if keepdims is np._NoValue:
            keepdims = False
        h = lambda v: _lvar(v, ddof)
        if nan:
            h = _nn(h)
        if root:
            return _axisapply(lambda v: h(v).sqrt(), a, axis, keepdims)
        return _axisapply(h, a, axis, keepdims)
    return g


model(np.var)(_varm(False, False))
model(np.nanvar)(_varm(True, False))
model(np.std)(_varm(False, True))
model(np.nanstd)(_varm(True, True))


@model(np.sort)
def np_sort(a, axis=-1, **kw):
    a = raw(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    b = np.moveaxis(a, axis, -1).copy()
    for i in np.ndindex(b.shape[:-1]):
        s = _lsort(list(b[i]))
        for j, x in enumerate(s):
            b[i + (j,)] = x
    return sa(np.moveaxis(b, -1, axis))


@model(np.partition)
def np_partition(a, kth, axis=-1, **kw):
    r = raw(a)
    ks = set(int(k) % r.size for k in np.atleast_1d(np.asarray(kth)))
    if r.ndim == 1 and ks <= {0, r.size - 1} and not allconst(r):
        # nothing is cut off: the order of the elements is not fixed by partition, leave it open (the replay on the real
        # library exposes code that depends on it)
        return sa(r.copy())
    return np_sort(a, axis)


def _o(x):
    if isinstance(x, Sym):
        o = np.empty((), object)
        o[()] = x
        return o
    return raw(x)


@model(np.vstack)
def np_vstack(tup, **kw):
    return sa(np.concatenate([t.reshape(1, -1) if t.ndim < 2 else t for t in map(_o, tup)], axis=0))


@model(np.hstack)
def np_hstack(tup, **kw):
    t = [x.reshape(-1) if x.ndim == 0 else x for x in map(_o, tup)]
    return sa(np.concatenate(t, axis=0 if t[0].ndim == 1 else 1))


@model(np.column_stack)
def np_column_stack(tup):
    return sa(np.concatenate([t.reshape(-1, 1) if t.ndim < 2 else t for t in map(_o, tup)], axis=1))


def _largsort(v):
    idx = []
    nans = []
    for k, x in enumerate(v):
        if x.isnan():
            nans.append(k)
            continue
        lo, hi = 0, len(idx)
        while lo < hi:
            mid = (lo + hi) // 2
            if v[idx[mid]] <= x:
                lo = mid + 1
            else:
                hi = mid
        idx.insert(lo, k)
    return idx + nans


@model(np.argsort, np.argpartition)
def np_argsort(a, axis=-1, *args, **kw):
    a = raw(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, int)
    for i in np.ndindex(b.shape[:-1]):
        out[i] = _largsort(list(b[i]))
    return np.moveaxis(out, -1, axis)


def _argx(better):
    def g(a, axis=None, out=None, **kw):
        a = raw(a)

        def f(v):
            k = 0
            for j in range(1, len(v)):
                if v[k].isnan():
                    break
                if v[j].isnan() or better(v[j], v[k]):
                    k = j
            return k
        if axis is None:
            return f(list(a.ravel()))
        b = np.moveaxis(a, axis, -1)
        out = np.empty(b.shape[:-1], int)
        for i in np.ndindex(out.shape):
            out[i] = f(list(b[i]))
        return out if out.ndim else int(out)
    return g


model(np.argmax)(_argx(lambda x, y: x > y))
model(np.argmin)(_argx(lambda x, y: x < y))


def _nanarg(better):
    def g(a, axis=None, **kw):
        if axis is not None:
            raise Unsupported("nanarg axis")
        v = list(raw(a).ravel())
        k = None
        for j, x in enumerate(v):
            if x.isnan():
                continue
            if k is None or better(x, v[k]):
                k = j
        return k
    return g


model(np.nanargmax)(_nanarg(lambda x, y: x > y))
model(np.nanargmin)(_nanarg(lambda x, y: x < y))


@model(np.quantile)
def np_quantile(a, q, axis=None, **kw):
    if np.ndim(q) == 0:
        return _axisapply(_lquant(q), a, axis)
    return asym([_axisapply(_lquant(x), a, axis) for x in np.ravel(q)])


model(np.percentile)(lambda a, q, axis=None, **k: np_quantile(a, np.asarray(strip(q), dtype=float) / 100 if np.ndim(q) else float(q) / 100, axis))


@model(np.where)
def np_where(cond, x=None, y=None):
    if type(cond) is SymArray or isinstance(cond, Sym):
        cond = asym(cond).astype(bool)
    cond = np.asarray(cond)
    if x is None:
        return np.nonzero(cond)
    c, a, b = np.broadcast_arrays(cond, raw(x), raw(y))
    out = np.empty(c.shape, object)
    for i in np.ndindex(c.shape):
        out[i] = a[i] if c[i] else b[i]
    return sa(out)


model(np.nonzero)(lambda a: asym(a).astype(bool).nonzero())
model(np.flatnonzero)(lambda a: asym(a).astype(bool).ravel().nonzero()[0])
model(np.count_nonzero)(lambda a, axis=None, **k: np.count_nonzero(asym(a).astype(bool), axis=axis))
model(np.argwhere)(lambda a: np.argwhere(asym(a).astype(bool)))
model(np.any)(lambda a, axis=None, **k: asym(a).any(axis=axis))
model(np.all)(lambda a, axis=None, **k: asym(a).all(axis=axis))
model(np.clip)(lambda a, a_min=None, a_max=None, out=None, **k:
               _clip(a, k.get("min", a_min), k.get("max", a_max)))


def _clip(a, lo, hi):
    r = a
    if lo is not None:
        r = _ucall(np.maximum, (r, lo))
    if hi is not None:
        r = _ucall(np.minimum, (r, hi))
    return r


@model(np.round, np.around)
def np_round(a, decimals=0, out=None):
    if allconst(a):
        return asym(np.round(tofloat(a), decimals))
    raise Unsupported("round")


@model(np.unique)
def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    if axis is not None:
        raise Unsupported("unique axis")
    v = list(raw(a).ravel())
    idx = _largsort(v)
    groups = []
    for k in idx:
        if groups and v[groups[-1][0]] == v[k]:
            groups[-1].append(k)
        else:
            groups.append([k])
    out = [asym([v[g[0]] for g in groups])]
    if return_index:
        out.append(np.array([min(g) for g in groups]))
    if return_inverse:
        inv = np.empty(len(v), int)
        for j, g in enumerate(groups):
            inv[g] = j
        out.append(inv)
    if return_counts:
        out.append(np.array([len(g) for g in groups]))
    return out[0] if len(out) == 1 else tuple(out)


model(np.union1d)(lambda a, b: np_unique(sa(np.concatenate([raw(a).ravel(), raw(b).ravel()]))))


@model(np.isin)
def np_isin(a, b, **kw):
    a, b = raw(a), list(raw(b).ravel())
    out = np.empty(a.shape, bool)
    for i in np.ndindex(a.shape):
        out[i] = any(a[i] == y for y in b)
    return out


@model(np.setdiff1d)
def np_setdiff1d(a, b, assume_unique=False):
    u = np_unique(a) if has_sym(a) else np.unique(np.asarray(a))
    k = np_isin(u, b)
    return u[~k]


def _cumnan(a):
    return a


@model(np.cov)
def np_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **kw):
    X = raw(m)
    if X.ndim == 1:
        X = X.reshape(1, -1)
    elif not rowvar:
        X = X.T
    if y is not None:
        Y = raw(y)
        if Y.ndim == 1:
            Y = Y.reshape(1, -1)
        elif not rowvar:
            Y = Y.T
        X = np.concatenate([X, Y], axis=0)
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    if fweights is not None or aweights is not None:
        raise Unsupported("cov weights")
    Xc = np.array([[x - m for x in row] for row, m in ((list(r), _lmean(list(r))) for r in X)], dtype=object)
    k = X.shape[0]
    out = np.empty((k, k), object)
    for i in range(k):
        for j in range(i, k):
            out[i, j] = out[j, i] = (_lsum([a * b for a, b in zip(Xc[i], Xc[j])]) / (n - ddof)) if n > ddof else Sym(sp=NAN)
    if k == 1:
        r = np.empty((), object)
        r[()] = out[0, 0]
        return sa(r)
    return sa(out)


@model(np.corrcoef)
def np_corrcoef(x, y=None, rowvar=True, **kw):
    c = raw(np_cov(x, y, rowvar))
    if c.ndim == 0:
        return Sym.const(1)
    d = [c[i, i].sqrt() for i in range(len(c))]
    out = np.empty(c.shape, object)
    for i in range(len(c)):
        for j in range(len(c)):
            out[i, j] = c[i, j] / d[i] / d[j]
    return sa(out)


def _mm2(A, B):
    n, k = A.shape
    k2, m = B.shape
    if k != k2:
        raise ValueError("matmul: shapes %s %s not aligned" % (A.shape, B.shape))
    out = np.empty((n, m), object)
    for i in range(n):
        for j in range(m):
            s = ZERO
            for t in range(k):
                a = A[i, t]
                if a.c is not None and a.c == 0 and not B[t, j].sp:
                    continue
                s = s + a * B[t, j]
            out[i, j] = s
    return out


@model(np.matmul)
def np_matmul(a, b, **kw):
    A, B = raw(a), raw(b)
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if A.ndim == 1 and B.ndim == 1:
        return _mm2(A.reshape(1, -1), B.reshape(-1, 1))[0, 0]
    if A.ndim == 1:
        if B.ndim != 2:
            raise Unsupported("matmul nd")
        return sa(_mm2(A.reshape(1, -1), B)[0])
    if B.ndim == 1:
        if A.ndim != 2:
            raise Unsupported("matmul nd")
        return sa(_mm2(A, B.reshape(-1, 1))[:, 0])
    if A.ndim == 2 and B.ndim == 2:
        return sa(_mm2(A, B))
    sh = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, sh + A.shape[-2:])
    B = np.broadcast_to(B, sh + B.shape[-2:])
    out = np.empty(sh + (A.shape[-2], B.shape[-1]), object)
    for i in np.ndindex(sh):
        out[i] = _mm2(A[i], B[i])
    return sa(out)


@model(np.dot)
def np_dot(a, b, out=None):
    A, B = raw(a), raw(b)
    if A.ndim == 0 or B.ndim == 0:
        return _ucall(np.multiply, (a, b))
    if A.ndim <= 2 and B.ndim <= 2:
        return np_matmul(a, b)
    raise Unsupported("dot nd")


model(np.vdot)(lambda a, b: np_matmul(raw(a).ravel(), raw(b).ravel()))
model(np.inner)(lambda a, b: np_matmul(raw(a).ravel(), raw(b).ravel()) if np.ndim(a) == 1 and np.ndim(b) == 1 else np_matmul(a, raw(b).T))


@model(np.linalg.multi_dot)
def np_multidot(l, **k):
    r = l[0]
    for x in l[1:]:
        r = np_dot(r, x)
    return r


@model(np.apply_along_axis)
def np_aaa(f, axis, arr, *args, **kw):
    a = raw(arr)
    b = np.moveaxis(a, axis, -1)
    res = {}
    for i in np.ndindex(b.shape[:-1]):
        res[i] = asym(f(b[i].view(SymArray), *args, **kw))
    keys = list(res)
    sh = res[keys[0]].shape
    out = np.empty(b.shape[:-1] + sh, object)
    for i in keys:
        out[i] = raw(res[i]) if sh else raw(res[i])[()]
    if sh:
        # result dims replace the axis
        k = len(sh)
        out = np.moveaxis(out, list(range(out.ndim - k, out.ndim)), list(range(axis % a.ndim, axis % a.ndim + k)))
    return sa(out)


@model(np.allclose)
def np_allclose(a, b, rtol=1e-05, atol=1e-08, **k):
    return bool(np.all(np_isclose(a, b, rtol, atol)))


@model(np.isclose)
def np_isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    A, B = asym(a), asym(b)
    return _ucall(np.less_equal, (_ucall(np.absolute, (A - B,)), atol + rtol * _ucall(np.absolute, (B,))))


@model(np.array_equal)
def np_array_equal(a, b, **k):
    if np.shape(a) != np.shape(b):
        return False
    return bool(np.all(_ucall(np.equal, (a, b))))


@model(np.zeros_like)
def np_zeros_like(a, dtype=None, *x, **k):
    return _fill(np.shape(a), 0, dtype)


@model(np.ones_like)
def np_ones_like(a, dtype=None, *x, **k):
    return _fill(np.shape(a), 1, dtype)


@model(np.empty_like)
def np_empty_like(a, dtype=None, *x, **k):
    return _fill(np.shape(a), 0, dtype)


@model(np.full_like)
def np_full_like(a, v, dtype=None, *x, **k):
    return _fill(np.shape(a), v, dtype)


def _fill(shape, v, dtype=None):
    if dtype is not None and dtype not in (float, "float", "float64", np.float64, object, "O"):
        if not (isinstance(dtype, np.dtype) and dtype.kind in "f"):
            return np.full(shape, v, dtype=dtype)
    r = np.empty(shape, object)
    if np.ndim(v):
        r[...] = raw(v)
    else:
        r[...] = Sym.lift(v)
    return sa(r)


@model(np.copyto)
def np_copyto(dst, src, **k):
    dst[...] = src


@model(np.nan_to_num)
def np_nan_to_num(a, copy=True, nan=0.0, **k):
    a = raw(a)
    out = a.copy()
    for i in np.ndindex(a.shape):
        if a[i].isnan():
            out[i] = Sym.lift(nan)
        elif a[i].sp:
            raise Unsupported("nan_to_num inf")
    return sa(out) if out.ndim else out[()]


@model(np.searchsorted)
def np_searchsorted(a, v, side="left", sorter=None):
    A = list(raw(a))
    def f(x):
        k = 0
        for y in A:
            if (y < x) if side == "left" else (y <= x):
                k += 1
            else:
                break
        return k
    V = raw(v)
    if V.ndim == 0:
        return f(V[()])
    return np.array([f(x) for x in V.ravel()]).reshape(V.shape)


@model(np.digitize)
def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, side="left" if right else "right")


@model(np.trace)
def np_trace(a, *x, **k):
    a = raw(a)
    return _lsum([a[i, i] for i in range(min(a.shape))])


@model(np.einsum)
def np_einsum(spec, *ops, **k):
    r = np.einsum(spec, *[raw(o) for o in ops], optimize=False)
    return wrap(r) if isinstance(r, np.ndarray) else r


@model(np.cumsum)
def np_cumsum(a, axis=None, *x, **k):
    a = raw(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return sa(_PYF[np.add].accumulate(a, axis=axis))


@model(np.array_repr, np.array_str)
def np_repr(a, *x, **k):
    return repr(a)


# ------------------------------------------------------------------ linear algebra
@model(np.linalg.norm)
def la_norm(x, ord=None, axis=None, keepdims=False):
    a = raw(x)
    if ord not in (None, 2, "fro", 1, np.inf):
        raise Unsupported("norm ord")
    if ord == 2 and axis is None and a.ndim == 2:
        if min(a.shape) > 1:
            s = raw(la_svd(x, compute_uv=False))
            return s[0]
    if ord == 1 and (axis is not None or a.ndim == 1):
        return _axisapply(lambda v: _lsum([abs(t) for t in v]), a, axis, keepdims)
    if ord == np.inf and (axis is not None or a.ndim == 1):
        return _axisapply(lambda v: _lmax([abs(t) for t in v]), a, axis, keepdims)
    return _axisapply(lambda v: _lsum([t * t for t in v]).sqrt(), a, axis, keepdims)


def exact_inv(A):
    n = A.shape[0]
    bad = next((t for t in A.ravel() if t.isnan()), None)
    if bad is not None:
        r = np.empty((n, n), object)
        r[...] = bad
        return r
    if n == 1:
        r = np.empty((1, 1), object)
        if A[0, 0] == 0:
            raise np.linalg.LinAlgError("Singular matrix")
        r[0, 0] = 1 / A[0, 0]
        return r
    if n <= 3 and not allconst(A):
        d = exact_det(A)
        if d == 0:
            raise np.linalg.LinAlgError("Singular matrix")
        r = np.empty((n, n), object)
        for i in range(n):
            for j in range(n):
                M = np.delete(np.delete(A, j, 0), i, 1)
                c = exact_det(M)
                r[i, j] = (c if (i + j) % 2 == 0 else -c) / d
        return r
    M = np.concatenate([A.copy(), raw(np.eye(n))], axis=1)
    for k in range(n):
        piv = None
        for i in range(k, n):
            if M[i, k].isconst():
                if M[i, k].c != 0 and (piv is None or abs(M[i, k].c) > abs(M[piv, k].c)):
                    piv = i
        if piv is None:
            for i in range(k, n):
                if not M[i, k].isconst() and M[i, k] != 0:
                    piv = i
                    break
        if piv is None:
            raise np.linalg.LinAlgError("Singular matrix")
        if piv != k:
            M[[k, piv]] = M[[piv, k]]
        p = M[k, k]
        for j in range(2 * n):
            M[k, j] = M[k, j] / p
        for i in range(n):
            if i != k:
                f = M[i, k]
                if f.c is not None and f.c == 0:
                    continue
                for j in range(2 * n):
                    M[i, j] = M[i, j] - f * M[k, j]
    return M[:, n:]


def exact_det(A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    s = ZERO
    for j in range(n):
        if A[0, j].c is not None and A[0, j].c == 0:
            continue
        M = np.delete(np.delete(A, 0, 0), j, 1)
        t = A[0, j] * exact_det(M)
        s = s + t if j % 2 == 0 else s - t
    return s


@model(np.linalg.inv)
def la_inv(a, *args, **kw):
    A = raw(a)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return sa(exact_inv(A))


model(np.linalg.det)(lambda a: exact_det(raw(a)))


@model(np.linalg.solve)
def la_solve(a, b, **kw):
    return np_matmul(la_inv(a), b)


@model(np.linalg.pinv)
def la_pinv(a, *args, **kw):
    A = raw(a)
    if A.ndim != 2:
        raise np.linalg.LinAlgError("pinv needs 2d")
    n, p = A.shape
    if n >= p:
        G = _mm2(A.T, A)
        if exact_det(G) == 0:
            return _rankdef_pinv(A)
        return sa(_mm2(exact_inv(G), A.T))
    G = _mm2(A, A.T)
    if exact_det(G) == 0:
        return _rankdef_pinv(A)
    return sa(_mm2(A.T, exact_inv(G)))


def _rankdef_pinv(A):
    """pinv of a rank deficient matrix by deleting dependent columns (A = C F full rank factorisation)"""
    n, p = A.shape
    M = A.copy()
    piv = []
    r = 0
    for j in range(p):
        k = None
        for i in range(r, n):
            if M[i, j] != 0:
                k = i
                break
        if k is None:
            continue
        M[[r, k]] = M[[k, r]]
        pv = M[r, j]
        M[r] = [x / pv for x in M[r]]
        for i in range(n):
            if i != r:
                f = M[i, j]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        piv.append(j)
        r += 1
        if r == n:
            break
    if r == 0:
        return sa(raw(np.zeros((p, n))))
    C = A[:, piv]
    Fm = M[:r]
    return sa(_mm2(_mm2(Fm.T, exact_inv(_mm2(Fm, Fm.T))), _mm2(exact_inv(_mm2(C.T, C)), C.T)))


@model(np.linalg.lstsq)
def la_lstsq(a, b, rcond=None):
    x = np_matmul(la_pinv(a), b)
    return x, asym([]), min(np.shape(a)), asym([])


@model(np.linalg.matrix_rank)
def la_rank(a, *x, **k):
    if allconst(a):
        return np.linalg.matrix_rank(tofloat(a))
    raise Unsupported("matrix_rank")


@model(np.linalg.svd)
def la_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    A = raw(a)
    if allconst(A):
        r = np.linalg.svd(tofloat(A), full_matrices=full_matrices, compute_uv=compute_uv)
        if not compute_uv:
            return asym(r)
        return tuple(asym(x) for x in r)
    raise Unsupported("svd of a symbolic matrix")


def _eig2(A):
    """closed form of the symmetric 2x2 eigenproblem; eigenvalues ascending"""
    a, b, d = A[0, 0], A[0, 1], A[1, 1]
    if b == 0:
        one, zero = Sym.const(1), ZERO
        if a <= d:
            return [a, d], [[one, zero], [zero, one]]
        return [d, a], [[zero, one], [one, zero]]
    h = (a - d) / 2
    r = (h * h + b * b).sqrt()
    m = (a + d) / 2
    out = []
    for lam in (m - r, m + r):
        v = (b, lam - a)
        nn = (v[0] * v[0] + v[1] * v[1]).sqrt()
        out.append((v[0] / nn, v[1] / nn))
    return [m - r, m + r], [[out[0][0], out[1][0]], [out[0][1], out[1][1]]]


@model(np.linalg.eigh)
def la_eigh(a, UPLO="L", **kw):
    A = raw(a)
    if allconst(A):
        w, v = np.linalg.eigh(tofloat(A))
        return asym(w), asym(v)
    if A.shape == (1, 1):
        return sa(A[0].copy()), asym([[1.0]])
    if A.shape == (2, 2):
        w, v = _eig2(A)
        return asym(w), asym(v)
    raise Unsupported("eigh of a symbolic %dx%d matrix" % A.shape)


model(np.linalg.eigvalsh)(lambda a, **k: la_eigh(a)[0])


@model(np.linalg.eig)
def la_eig(a):
    A = raw(a)
    if allconst(A):
        w, v = np.linalg.eig(tofloat(A))
        return asym(np.real(w)), asym(np.real(v))
    raise Unsupported("eig of a symbolic matrix")


@model(np.linalg.qr)
def la_qr(a, mode="reduced"):
    if allconst(a):
        r = np.linalg.qr(tofloat(a), mode)
        return tuple(asym(x) for x in r)
    raise Unsupported("qr")


def sl_sqrtm(a, *x, **k):
    A = raw(a)
    if A.ndim == 0:
        A = A.reshape(1, 1)
    if A.shape == (1, 1):
        r = np.empty((1, 1), object)
        r[0, 0] = A[0, 0].sqrt()
        return sa(r)
    if allconst(A):
        import scipy.linalg
        return asym(np.real(scipy.linalg.sqrtm(tofloat(A))))
    if A.shape == (2, 2):
        s = (A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]).sqrt()
        t = (A[0, 0] + A[1, 1] + 2 * s).sqrt()
        r = np.empty((2, 2), object)
        for i in range(2):
            for j in range(2):
                r[i, j] = (A[i, j] + (s if i == j else ZERO)) / t
        return sa(r)
    raise Unsupported("sqrtm symbolic")


def sl_orth(a, *x, **k):
    if allconst(a):
        import scipy.linalg
        return asym(scipy.linalg.orth(tofloat(a)))
    raise Unsupported("orth symbolic")


# ------------------------------------------------------------------ creation wrappers
def _isfl(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind in "fO"
    except TypeError:
        return False


def c_array(obj, dtype=None, copy=True, **kw):
    ndmin = kw.get("ndmin", 0)
    if has_sym(obj):
        if dtype is not None and not _isfl(dtype):
            return asym(obj).astype(dtype)
        a = asym(obj)
        if copy:
            a = a.copy()
        while a.ndim < ndmin:
            a = a.reshape((1,) + a.shape)
        return a
    r = np.array(obj, dtype=dtype, **kw)
    if r.dtype.kind == "f":
        return asym(r)
    return r


def c_asarray(obj, dtype=None, **kw):
    if type(obj) is SymArray and _isfl(dtype):
        return obj
    if isinstance(obj, np.ndarray) and type(obj) is not SymArray and obj.dtype != object:
        r = np.asarray(obj, dtype=dtype)
        return asym(r) if r.dtype.kind == "f" else r
    return c_array(obj, dtype=dtype, copy=False)


def _mk(v):
    def f(shape, dtype=None, order="C", **k):
        return _fill(fixshape(shape), v, dtype)
    return f


def fixshape(s):
    if isinstance(s, Sym):
        return int(s)
    if isinstance(s, tuple):
        return tuple(fixshape(x) for x in s)
    return s


def c_full(shape, v, dtype=None, **k):
    if dtype is None and isinstance(v, (bool, int, np.integer, np.bool_)) and not isinstance(v, Sym):
        return np.full(shape, v)
    return _fill(shape, v, dtype)


def c_eye(n, M=None, k=0, dtype=None, **kw):
    r = np.eye(n, M, k)
    return asym(r) if _isfl(dtype) else r.astype(dtype)


def c_linspace(*a, **k):
    return asym(np.linspace(*[float(x) if isinstance(x, Sym) else x for x in a], **k))


def c_arange(*a, **k):
    r = np.arange(*[float(x) if isinstance(x, Sym) else x for x in a], **k)
    return asym(r) if r.dtype.kind == "f" else r


def c_repeat(a, *x, **k):
    r = np.repeat(strip(a), *x, **k)
    if r.dtype == object:
        return wrap(r)
    return asym(r) if r.dtype.kind == "f" else r


def c_fromiter(it, dtype=float, count=-1, **k):
    return c_array(list(it), dtype=dtype)


def c_isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def c_float64(x=0.0):
    if isinstance(x, Sym):
        return x
    if type(x) is SymArray:
        return x if x.size != 1 or x.ndim else x[()]
    return np.float64(x)


c_float64.dtype = np.dtype(float)  # usable as a dtype argument


def c_vectorize(f, *a, **k):
    def g(*args):
        b = np.broadcast_arrays(*[raw(x) for x in args])
        out = np.empty(b[0].shape, object)
        for i in np.ndindex(out.shape):
            out[i] = f(*[x[i] for x in b])
        return wrap(out) if out.ndim else out[()]
    return g


CREATE = {"array": c_array, "asarray": c_asarray, "asanyarray": c_asarray, "ascontiguousarray": c_asarray,
          "asfortranarray": c_asarray, "asfarray": c_asarray,
          "zeros": _mk(0), "ones": _mk(1), "empty": _mk(0), "full": c_full, "eye": c_eye,
          "identity": lambda n, dtype=None, **k: c_eye(n, dtype=dtype), "linspace": c_linspace,
          "arange": c_arange, "repeat": c_repeat, "fromiter": c_fromiter, "isscalar": c_isscalar,
          "float64": c_float64, "vectorize": c_vectorize}


class Proxy:
    """stand-in for a library module: same attributes, symbolic models where there is one"""

    def __init__(self, mod, over=None):
        object.__setattr__(self, "_mod", mod)
        object.__setattr__(self, "_over", over or {})
        object.__setattr__(self, "_cache", {})

    def __getattr__(self, name):
        o = self._over
        if name in o:
            return o[name]
        c = self._cache
        if name in c:
            return c[name]
        v = getattr(self._mod, name)
        r = v
        if isinstance(v, types.ModuleType):
            if id(v) in REPL:
                r = REPL[id(v)][1]
            elif v.__name__.split(".")[0] in ("numpy", "scipy", "pandas", "statsmodels", "dcor") and not v.__name__.startswith("numpy.random"):
                r = Proxy(v)
        elif id(v) in REPL:
            r = REPL[id(v)][1]
        elif isinstance(v, np.ufunc):
            r = _fwrap(v)
        elif getattr(v, "_vstub", False):
            pass
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)) or \
                type(v).__name__ in ("_ArrayFunctionDispatcher", "vectorize", "guvectorize", "DUFunc", "GUFunc"):
            r = _fwrap(v)
        c[name] = r
        return r


def _fwrap(v):
    m = MODELS.get(v)
    name = getattr(v, "__name__", "")

    def f(*a, **k):
        if has_sym(a) or has_sym(k):
            if isinstance(v, np.ufunc):
                kw = dict(k)
                o = kw.pop("out", None)
                if o is not None:
                    kw["out"] = o if isinstance(o, tuple) else (o,)
                inputs = a[: v.nin]
                if len(a) > v.nin:
                    kw["out"] = tuple(a[v.nin:])
                return ufunc_handler(v, "__call__", inputs, kw)
            if m is not None:
                a2 = tuple(x._sym_values() if hasattr(x, "_sym_values") else x for x in a)
                return m(*a2, **k)
            if getattr(v, "__module__", "") and (v.__module__ or "").split(".")[0] == "numpy":
                return call_np(v, a, k)
            raise Unsupported("library function %s.%s" % (getattr(v, "__module__", ""), name))
        return v(*a, **k)
    f.__name__ = name
    f.__wrapped__ = v
    if isinstance(v, np.ufunc):
        f.reduce = lambda a, *x, **k: ufunc_handler(v, "reduce", (a,), dict(k, **({"axis": x[0]} if x else {}))) if has_sym(a) else v.reduce(a, *x, **k)
        f.outer = lambda a, b: ufunc_handler(v, "outer", (a, b), {}) if has_sym((a, b)) else v.outer(a, b)
        f.accumulate = lambda a, *x, **k: ufunc_handler(v, "accumulate", (a,), dict(k)) if has_sym(a) else v.accumulate(a, *x, **k)
        f.at = v.at
    return f


REPL = {}       # id(original object) -> (original, replacement)


def repl(orig, new):
    REPL[id(orig)] = (orig, new)


NP = Proxy(np, dict(CREATE, ndarray=SymArray, float_=c_float64, linalg=Proxy(np.linalg)))
repl(np, NP)
