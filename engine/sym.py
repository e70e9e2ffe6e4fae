"""Sym: a symbolic real scalar that the real numpy code computes with."""
from fractions import Fraction
import numbers
import math
from .poly import *
from .poly import _acc

NAN, PINF, NINF = "nan", "inf", "-inf"


def psqrt_exact(P):
    """polynomial square root if P is a perfect square (root generators are treated as
    plain variables), else None"""
    if not P:
        return {}
    m, c = lead(P)
    for i, e in mono_exps(m):
        if e % 2:
            return None
    if c < 0:
        return None
    lo = min(P)
    for i, e in mono_exps(lo):
        if e % 2:
            return None
    rc = fsqrt(c)
    if rc is None:
        return None
    hm = 0
    for i, e in mono_exps(m):
        hm += (e // 2) << (BITS * i)
    Q = {hm: rc}
    R = dict(P)
    del R[m]
    steps = 0
    while R:
        mm = max(R)
        q = mono_div(mm, hm)
        if q is None or q >= hm:
            return None
        t = R[mm] / (2 * rc)
        # R -= 2 t q Q + t^2 q^2
        for qm, qc in Q.items():
            k = qm + q
            v = R.get(k, 0) - 2 * t * qc
            if v == 0:
                R.pop(k, None)
            else:
                R[k] = v
        k = 2 * q
        v = R.get(k, 0) - t * t
        if v == 0:
            R.pop(k, None)
        else:
            R[k] = v
        Q[q] = t
        steps += 1
        if steps > 400 or len(R) > 4 * len(P) + 50:
            return None
    return Q


class Rounded:
    """round(x, digits) of a symbolic value: good for printing only"""

    def __init__(self, x):
        self.x = x

    def __str__(self):
        return "<rounded>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<rounded>"

    def _no(self, *a):
        raise Unsupported("arithmetic with a rounded symbolic value")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __float__ = __pow__ = _no
    __hash__ = None


class Sym:
    __slots__ = ("c", "num", "den", "sp")
    __array_priority__ = 1000

    def __init__(self, c=None, num=None, den=None, sp=None):
        self.c = c          # Fraction when constant
        self.num = num      # poly
        self.den = den      # dict factor id -> exponent
        self.sp = sp        # 'nan' | 'inf' | '-inf'

    # ---- constructors
    @staticmethod
    def const(x):
        return Sym(c=x if isinstance(x, Fraction) else tofrac(x))

    @staticmethod
    def special(s):
        return Sym(sp=s)

    @staticmethod
    def var(name, nonneg=False):
        v = CTX.var(name, nonneg)
        return Sym(num={1 << (BITS * v.idx): ONE}, den={})

    @staticmethod
    def ofvar(v):
        return Sym(num={1 << (BITS * v.idx): ONE}, den={})

    @staticmethod
    def make(num, den):
        """normalising constructor"""
        if not num:
            return Sym(c=Fraction(0))
        if den:
            den2 = {}
            for f, e in den.items():
                F = CTX.factors[f]
                while e > 0:
                    q = pdivexact(num, F)
                    if q is None:
                        break
                    num = q
                    e -= 1
                if e:
                    den2[f] = e
            den = den2
        if not den and len(num) == 1:
            (m, c), = num.items()
            if m == 0:
                return Sym(c=c)
        return Sym(num=num, den=den)

    @staticmethod
    def lift(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, (bool, int)):
            return Sym(c=Fraction(int(x)))
        if isinstance(x, Fraction):
            return Sym(c=x)
        if isinstance(x, numbers.Real) or hasattr(x, "__float__"):
            try:
                f = float(x)
            except TypeError:
                raise Unsupported("lift " + str(type(x)))
            if math.isnan(f):
                return Sym(sp=NAN)
            if math.isinf(f):
                return Sym(sp=PINF if f > 0 else NINF)
            return Sym(c=tofrac(f))
        raise TypeError("cannot lift %r" % type(x))

    def key(self):
        if self.sp:
            return ("s", self.sp)
        if self.c is not None:
            return ("c", self.c)
        return ("p", pkey(self.num), tuple(sorted(self.den.items())))

    def isconst(self):
        return self.c is not None or self.sp is not None

    def parts(self):
        if self.c is not None:
            return ({0: self.c} if self.c else {}), {}
        return self.num, self.den

    # ---- arithmetic
    @staticmethod
    def _co(o):
        if isinstance(o, Sym):
            return o
        try:
            return Sym.lift(o)
        except TypeError:
            return None

    def __add__(self, o):
        if type(o) is not Sym:
            if hasattr(o, "__array_ufunc__") and not isinstance(o, numbers.Number):
                return NotImplemented
            o = Sym._co(o)
            if o is None:
                return NotImplemented
        if self.sp or o.sp:
            return _spadd(self, o)
        a, b = self.c, o.c
        if a is not None and b is not None:
            t = a + b
            if CTX.inexact and t != 0 and abs(t) < DROP * abs(a):
                t = Fraction(0)
            return Sym(c=rnd(t))
        if a is not None and a == 0:
            return o
        if b is not None and b == 0:
            return self
        return _addsub(self, o, 1)

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        if self.sp:
            return Sym(sp={NAN: NAN, PINF: NINF, NINF: PINF}[self.sp])
        if self.c is not None:
            return Sym(c=-self.c)
        return Sym(num={m: -c for m, c in self.num.items()}, den=self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is not Sym:
            if hasattr(o, "__array_ufunc__") and not isinstance(o, numbers.Number):
                return NotImplemented
            o = Sym._co(o)
            if o is None:
                return NotImplemented
        return self.__add__(-o)

    def __rsub__(self, o):
        o = Sym._co(o)
        if o is None:
            return NotImplemented
        return o.__add__(-self)

    def __mul__(self, o):
        if type(o) is not Sym:
            if hasattr(o, "__array_ufunc__") and not isinstance(o, numbers.Number):
                return NotImplemented
            o = Sym._co(o)
            if o is None:
                return NotImplemented
        if self.sp or o.sp:
            return _spmul(self, o)
        a, b = self.c, o.c
        if a is not None:
            if b is not None:
                return Sym(c=rnd(a * b))
            if a == 0:
                return self
            if a == 1:
                return o
            return Sym(num=pscale(o.num, a), den=o.den)
        if b is not None:
            if b == 0:
                return o
            if b == 1:
                return self
            return Sym(num=pscale(self.num, b), den=self.den)
        # cross-cancel first
        n1, d2 = _cancel(self.num, o.den)
        n2, d1 = _cancel(o.num, self.den)
        num = pmul(n1, n2)
        if not d1 and not d2:
            return Sym.make(num, {})
        den = dict(d1)
        for f, e in d2.items():
            den[f] = den.get(f, 0) + e
        den, num = _fixroots(den, num)
        return Sym.make(num, den)

    def __rmul__(self, o):
        return self.__mul__(o)

    def recip(self):
        """1/self for a value known to be nonzero"""
        if self.c is not None:
            return Sym(c=rnd(1 / self.c))
        num = {0: ONE}
        for f, e in self.den.items():
            num = pmul(num, ppow(CTX.factors[f], e))
        den = {}
        P = self.num
        # split monomial content
        ms = None
        for m in P:
            ms = m if ms is None else _mono_gcd(ms, m)
            if ms == 0:
                break
        lm, lc = lead(P)
        num = pscale(num, 1 / lc)
        P = pscale(P, 1 / lc)
        if ms:
            P = {m - ms: c for m, c in P.items()}
            for i, e in mono_exps(ms):
                f = CTX.factor({1 << (BITS * i): ONE})
                den[f] = den.get(f, 0) + e
        if not (len(P) == 1 and 0 in P):
            f = CTX.factor(P)
            den[f] = den.get(f, 0) + 1
        else:
            num = pscale(num, 1 / P[0])
        den, num = _fixroots(den, num)
        return Sym.make(num, den)

    def __truediv__(self, o):
        if type(o) is not Sym:
            if hasattr(o, "__array_ufunc__") and not isinstance(o, numbers.Number):
                return NotImplemented
            o = Sym._co(o)
            if o is None:
                return NotImplemented
        if self.sp or o.sp:
            return _spdiv(self, o)
        if o == 0:
            if self == 0:
                return Sym(sp=NAN)
            return Sym(sp=PINF if self > 0 else NINF)
        if o.c is not None:
            if self.c is not None:
                return Sym(c=rnd(self.c / o.c))
            return Sym(num=pscale(self.num, 1 / o.c), den=self.den)
        if self.c is not None and self.c == 0:
            return self
        # proportional numerators: x/(k x)
        return self * o.recip()

    def __rtruediv__(self, o):
        o = Sym._co(o)
        if o is None:
            return NotImplemented
        return o.__truediv__(self)

    def __floordiv__(self, o):
        o = Sym._co(o)
        if self.c is not None and o.c is not None:
            return Sym(c=Fraction(self.c // o.c))
        raise Unsupported("floor division")

    def __rfloordiv__(self, o):
        return Sym._co(o).__floordiv__(self)

    def __mod__(self, o):
        o = Sym._co(o)
        if self.c is not None and o.c is not None:
            return Sym(c=Fraction(self.c % o.c))
        raise Unsupported("mod")

    def __rmod__(self, o):
        return Sym._co(o).__mod__(self)

    def __pow__(self, o, mod=None):
        if hasattr(o, "__array_ufunc__") and not isinstance(o, (Sym, numbers.Number)):
            return NotImplemented
        if isinstance(o, Sym):
            if o.c is None:
                if self.c is not None and self.c == 1:
                    return self
                raise Unsupported("symbolic exponent")
            e = o.c
        else:
            e = tofrac(o)
        return self.rpow(Fraction(e))

    def __rpow__(self, o):
        o = Sym._co(o)
        return o.__pow__(self)

    def rpow(self, e):
        if self.sp:
            if e == 0:
                return Sym(c=ONE)
            v = float(self.sp) ** float(e)
            if isinstance(v, complex):
                return Sym(sp=NAN)
            return Sym.lift(v)
        if e.denominator == 1:
            k = e.numerator
            if k >= 0:
                if self.c is not None:
                    return Sym(c=rnd(self.c ** k))
                if k == 0:
                    return Sym(c=ONE)
                r = self
                for _ in range(k - 1):
                    r = r * self
                return r
            if self == 0:
                return Sym(sp=PINF)
            return self.recip().rpow(-e)
        if e < 0:
            if self == 0:
                return Sym(sp=PINF)
            return self.rpow(-e).recip()
        if self.c is None and self < 0:
            return Sym(sp=NAN)
        if self.c is not None and self.c < 0:
            return Sym(sp=NAN)
        q = e.denominator
        if q > 8:
            if self.c is not None:
                return Sym.const(float(self.c) ** float(e))
            raise Unsupported("power %s" % e)
        return self.root(q).rpow(Fraction(e.numerator))

    def root(self, q):
        """self**(1/q); self already known to be >= 0"""
        if self.c is not None:
            return Sym(c=fapproxroot(self.c, q)) if self.c else self
        # power of |x|: extract from numerator / denominator
        num, den = self.num, self.den
        out = Sym(c=ONE)
        rest = num
        for f, e in den.items():
            F = CTX.factors[f]
            k, r = divmod(e, q)
            if r:
                # F^-e = F^(q-r) / F^((k+1) q)
                rest = pmul(rest, ppow(F, q - r))
                k += 1
            out = out * _absroot(Sym.make(F, {}), k, q).recip()
        return out * _polyroot(rest, q)

    def sqrt(self):
        return self.rpow(HALF)

    def cbrt(self):
        return self.root(3)

    def square(self):
        return self * self

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym(c=Fraction(0))

    def __abs__(self):
        if self.sp:
            return Sym(sp=NAN if self.sp == NAN else PINF)
        if self.c is not None:
            return Sym(c=abs(self.c))
        return self if self >= 0 else -self

    fabs = __abs__
    absolute = __abs__

    def sign(self):
        if self.sp == NAN:
            return self
        if self > 0:
            return Sym(c=ONE)
        if self < 0:
            return Sym(c=-ONE)
        return Sym(c=Fraction(0))

    # ---- transcendental
    def _fn(self, name, f):
        if self.sp:
            try:
                return Sym.lift(f(float(self.sp)))
            except (ValueError, OverflowError):
                return Sym(sp=NAN)
        if self.c is not None:
            try:
                return Sym.const(f(float(self.c)))
            except (ValueError, OverflowError):
                return Sym(sp=NAN)
        return Sym.ofvar(CTX.fn(name, self))

    def tanh(self):
        if self.c is not None and self.c == 0:
            return self
        return self._fn("tanh", math.tanh)

    def exp(self):
        if self.c is not None and self.c == 0:
            return Sym(c=ONE)
        return self._fn("exp", math.exp)

    def log(self):
        if not self.sp:
            if self == 0:
                return Sym(sp=NINF)
            if self < 0:
                return Sym(sp=NAN)
        return self._fn("log", math.log)

    def floor(self):
        if self.c is not None:
            return Sym(c=Fraction(math.floor(self.c)))
        raise Unsupported("floor")

    def ceil(self):
        if self.c is not None:
            return Sym(c=Fraction(math.ceil(self.c)))
        raise Unsupported("ceil")

    def rint(self):
        if self.c is not None:
            return Sym(c=Fraction(round(self.c)))
        raise Unsupported("rint")

    def isnan(self):
        return self.sp == NAN

    def isfinite(self):
        return self.sp is None

    def isinf(self):
        return self.sp in (PINF, NINF)

    # ---- comparisons: fork
    def _cmp(self, o, op):
        if self.sp or o.sp:
            if self.sp == NAN or o.sp == NAN:
                return op == "!="
            v = {PINF: 1, NINF: -1, None: 0}
            a, b = v[self.sp], v[o.sp]
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if self.c is not None and o.c is not None:
            a, b = self.c, o.c
            if CTX.inexact and a != b and abs(a - b) < DROP * max(abs(a), abs(b)):
                a = b
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        d = self - o
        return decide(d, op)

    def __lt__(self, o):
        if type(o) in (list, tuple):
            return _seq(o) > self
        o = Sym._cmpco(o)
        return o if o is NotImplemented else self._cmp(o, "<")

    def __le__(self, o):
        if type(o) in (list, tuple):
            return _seq(o) >= self
        o = Sym._cmpco(o)
        return o if o is NotImplemented else self._cmp(o, "<=")

    def __gt__(self, o):
        if type(o) in (list, tuple):
            return _seq(o) < self
        o = Sym._cmpco(o)
        return o if o is NotImplemented else self._cmp(o, ">")

    def __ge__(self, o):
        if type(o) in (list, tuple):
            return _seq(o) <= self
        o = Sym._cmpco(o)
        return o if o is NotImplemented else self._cmp(o, ">=")

    def __eq__(self, o):
        if o is self:
            return self.sp != NAN
        if type(o) in (list, tuple):
            return _seq(o) == self
        o = Sym._cmpco(o)
        return o if o is NotImplemented else self._cmp(o, "==")

    def __ne__(self, o):
        if o is self:
            return self.sp == NAN
        if type(o) in (list, tuple):
            return _seq(o) != self
        o = Sym._cmpco(o)
        return o if o is NotImplemented else self._cmp(o, "!=")

    @staticmethod
    def _cmpco(o):
        if type(o) is Sym:
            return o
        if isinstance(o, str) or o is None:
            return NotImplemented
        if hasattr(o, "__array_ufunc__") and not isinstance(o, numbers.Number):
            return NotImplemented
        try:
            return Sym.lift(o)
        except TypeError:
            return NotImplemented

    def __hash__(self):
        if self.c is not None:
            return hash(self.c)
        raise Unsupported("hash of a symbolic value")

    def __bool__(self):
        return self != 0

    def __float__(self):
        if self.sp:
            return float(self.sp)
        if self.c is not None:
            return float(self.c)
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        if self.c is not None:
            return int(self.c)
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.c is not None and self.c.denominator == 1:
            return int(self.c)
        raise TypeError("symbolic value used as index")

    def __round__(self, n=None):
        if self.c is not None:
            return Sym(c=Fraction(round(self.c, n))) if n is not None else int(round(self.c))
        if n:
            return Rounded(self)
        raise Unsupported("round of a symbolic value")

    def __floor__(self):
        return int(self.floor())

    def __trunc__(self):
        return int(self)

    def item(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    shape = ()
    ndim = 0
    size = 1

    def __repr__(self):
        if self.sp:
            return self.sp
        if self.c is not None:
            return str(self.c) if len(str(self.c)) < 30 else repr(float(self.c))
        s = "(" + pstr(self.num) + ")"
        for f, e in self.den.items():
            s += "/(" + pstr(CTX.factors[f]) + ")" + ("^%d" % e if e > 1 else "")
        return s

    __str__ = __repr__

    def __format__(self, spec):
        if self.isconst():
            return format(float(self), spec)
        return repr(self)[:60]


numbers.Real.register(Sym)


def _seq(o):
    """a numpy scalar meets a list: the list is an array"""
    from .arr import asym
    return asym(list(o))


def _mono_gcd(a, b):
    r = 0
    sh = 0
    while a and b:
        r |= min(a & FMASK, b & FMASK) << sh
        a >>= BITS
        b >>= BITS
        sh += BITS
    return r


def _cancel(num, den):
    if not den:
        return num, den
    out = {}
    for f, e in den.items():
        F = CTX.factors[f]
        while e:
            q = pdivexact(num, F)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out[f] = e
    return num, out


def _fixroots(den, num):
    """denominator powers g**q of a root generator become the radicand"""
    changed = False
    for f in list(den):
        F = CTX.factors[f]
        if len(F) == 1:
            (m, c), = F.items()
            ex = mono_exps(m)
            if len(ex) == 1 and ex[0][1] == 1:
                v = CTX.vars[ex[0][0]]
                if v.kind == "root" and den[f] >= v.q:
                    k, r = divmod(den[f], v.q)
                    if r:
                        den[f] = r
                    else:
                        del den[f]
                    inv = Sym(num=v.P, den={}).recip()
                    for _ in range(k):
                        num = pmul(num, inv.num if inv.num is not None else {0: inv.c})
                        for g, e in (inv.den or {}).items():
                            den[g] = den.get(g, 0) + e
                    changed = True
    if changed:
        return _fixroots(den, num)
    return den, num


def _addsub(x, y, sign):
    n1, d1 = x.parts()
    n2, d2 = y.parts()
    if d1 == d2:
        return Sym.make(padd(n1, n2), dict(d1))
    den = dict(d1)
    for f, e in d2.items():
        if den.get(f, 0) < e:
            den[f] = e
    a, b = n1, n2
    for f, e in den.items():
        F = CTX.factors[f]
        k1, k2 = e - d1.get(f, 0), e - d2.get(f, 0)
        if k1:
            a = pmul(a, ppow(F, k1))
        if k2:
            b = pmul(b, ppow(F, k2))
    return Sym.make(padd(a, b), den)


def _spadd(a, b):
    if a.sp == NAN or b.sp == NAN:
        return Sym(sp=NAN)
    if a.sp and b.sp:
        return a if a.sp == b.sp else Sym(sp=NAN)
    return a if a.sp else b


def _spmul(a, b):
    if a.sp == NAN or b.sp == NAN:
        return Sym(sp=NAN)
    if b.sp and not a.sp:
        a, b = b, a
    s = 1 if a.sp == PINF else -1
    if b.sp:
        t = 1 if b.sp == PINF else -1
    else:
        if b == 0:
            return Sym(sp=NAN)
        t = 1 if b > 0 else -1
    return Sym(sp=PINF if s * t > 0 else NINF)


def _spdiv(a, b):
    if a.sp == NAN or b.sp == NAN or (a.sp and b.sp):
        return Sym(sp=NAN)
    if b.sp:
        return Sym(c=Fraction(0))
    s = 1 if a.sp == PINF else -1
    t = 1 if b >= 0 else -1
    return Sym(sp=PINF if s * t > 0 else NINF)


def _absroot(x, k, q):
    """(x**(k*q))**(1/q) = |x|**k (x**k for odd q with x >= 0)"""
    x = abs(x)
    return x.rpow(Fraction(k))


def _polyroot(P, q):
    """P**(1/q) for a polynomial P >= 0"""
    if not P:
        return Sym(c=Fraction(0))
    # monomial content
    ms = None
    for m in P:
        ms = m if ms is None else _mono_gcd(ms, m)
        if ms == 0:
            break
    out = Sym(c=ONE)
    if ms:
        take = 0
        for i, e in mono_exps(ms):
            k = e // q
            if k:
                take += (k * q) << (BITS * i)
                out = out * _absroot(Sym(num={1 << (BITS * i): ONE}, den={}), k, q)
        if take:
            P = {m - take: c for m, c in P.items()}
    lm, lc = lead(P)
    s = abs(lc)
    out = out * Sym(c=fapproxroot(s, q))
    P = pscale(P, 1 / s)
    if len(P) == 1 and 0 in P:
        return out
    if q == 2:
        Q = psqrt_exact(P)
        if Q is not None:
            return out * abs(Sym.make(Q, {}))
    return out * Sym.ofvar(CTX.root(P, q))


def decide(d, op):
    """truth value of  d op 0  on the current path"""
    run = CTX.run
    if run is None:
        raise Unsupported("comparison outside a run")
    if d.isconst():
        return d._cmp(Sym(c=Fraction(0)), op)
    return run.decide(d, op)
