"""Exact symbolic scalars: rational functions over the input variables, extended
with algebraic roots (g = P**(1/q), g >= 0) and a few opaque monotone functions.

A polynomial is a dict  packed-monomial(int) -> Fraction.  Every variable owns a
field of BITS bits of the packed monomial, so monomial product is integer sum.
"""
from fractions import Fraction
import math

BITS = 12
FMASK = (1 << BITS) - 1
ONE = Fraction(1)
HALF = Fraction(1, 2)
MAXBITS = 700          # constants with more bits than this are rounded
KEEPBITS = 420
DROP = Fraction(1, 10 ** 60)
MAXTERMS = 60000


class Unsupported(Exception):
    """The engine has no symbolic model for this operation."""


class TooBig(Unsupported):
    pass


class Infeasible(BaseException):
    """The current path condition is unsatisfiable: path abandoned."""


# --------------------------------------------------------------- variables
class Var:
    __slots__ = ("idx", "name", "kind", "q", "P", "fn", "arg", "nonneg")

    def __init__(self, idx, name, kind, q=0, P=None, fn=None, arg=None, nonneg=False):
        self.idx = idx
        self.name = name
        self.kind = kind
        self.q = q
        self.P = P
        self.fn = fn
        self.arg = arg
        self.nonneg = nonneg


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.vars = []
        self.byname = {}
        self.roots = {}
        self.fns = {}
        self.mask2 = 0
        self.mask_other = []
        self.factors = []
        self.factor_ids = {}
        self.run = None          # the running path, set by explore
        self.inexact = False

    def var(self, name, nonneg=False):
        v = self.byname.get(name)
        if v is None:
            v = Var(len(self.vars), name, "in", nonneg=nonneg)
            self.vars.append(v)
            self.byname[name] = v
        return v

    def root(self, P, q):
        """generator g >= 0 with g**q == P (P a polynomial, assumed >= 0)"""
        k = (q, pkey(P))
        v = self.roots.get(k)
        if v is None:
            v = Var(len(self.vars), "root%d_%d" % (q, len(self.vars)), "root", q=q, P=dict(P), nonneg=True)
            self.vars.append(v)
            self.roots[k] = v
            sh = BITS * v.idx
            if q == 2:
                self.mask2 |= (FMASK & ~1) << sh
            else:
                self.mask_other.append((sh, q, v.idx))
        return v

    def fn(self, name, arg):
        """opaque function application name(arg) with arg a Sym"""
        k = (name, arg.key())
        v = self.fns.get(k)
        if v is None:
            v = Var(len(self.vars), "%s_%d" % (name, len(self.vars)), "fn", fn=name, arg=arg,
                    nonneg=(name in ("exp", "cdf")))
            self.vars.append(v)
            self.fns[k] = v
        return v

    def factor(self, P):
        k = pkey(P)
        i = self.factor_ids.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(P)
            self.factor_ids[k] = i
        return i


CTX = Ctx()


# --------------------------------------------------------------- polynomials
def pkey(P):
    return tuple(sorted(P.items()))


def rnd(c):
    """round a huge constant to KEEPBITS significant bits"""
    n, d = c.numerator, c.denominator
    if n.bit_length() + d.bit_length() <= MAXBITS:
        return c
    CTX.inexact = True
    if n == 0:
        return c
    s = -1 if n < 0 else 1
    n = abs(n)
    e = n.bit_length() - d.bit_length()
    sh = KEEPBITS - e
    if sh >= 0:
        m = (n << sh) // d
        return Fraction(s * m, 1 << sh)
    m = n // (d << (-sh))
    return Fraction(s * m * (1 << (-sh)))


def padd(A, B, sign=1):
    if len(B) > len(A) and sign == 1:
        A, B = B, A
    R = dict(A)
    inex = CTX.inexact
    for m, c in B.items():
        if sign != 1:
            c = -c
        o = R.get(m)
        if o is None:
            R[m] = c
        else:
            t = o + c
            if t == 0:
                del R[m]
            elif inex and abs(t) < DROP * abs(o):
                del R[m]
            else:
                R[m] = t
    return R


def pscale(A, c):
    if c == 0:
        return {}
    if c == 1:
        return A
    return {m: rnd(a * c) for m, a in A.items()}


def pmul(A, B):
    if not A or not B:
        return {}
    if len(A) > len(B):
        A, B = B, A
    if len(A) == 1:
        (m, c), = A.items()
        if m == 0:
            return pscale(B, c)
    if len(A) * len(B) > 4 * MAXTERMS:
        raise TooBig("polynomial product %d x %d terms" % (len(A), len(B)))
    R = {}
    inex = CTX.inexact
    for m1, c1 in A.items():
        for m2, c2 in B.items():
            m = m1 + m2
            t = c1 * c2
            o = R.get(m)
            if o is not None:
                t2 = o + t
                if inex and abs(t2) < DROP * abs(o):
                    t2 = 0
                t = t2
            R[m] = t
    R = {m: rnd(c) for m, c in R.items() if c != 0}
    R = preduce(R)
    if len(R) > MAXTERMS:
        raise TooBig("polynomial with %d terms" % len(R))
    return R


def preduce(R):
    """rewrite g**k for k >= q using g**q = P"""
    while True:
        bad = None
        mk = CTX.mask2
        if mk:
            for m in R:
                if m & mk:
                    bad = m
                    break
        if bad is None:
            for sh, q, idx in CTX.mask_other:
                for m in R:
                    if ((m >> sh) & FMASK) >= q:
                        bad = m
                        break
                if bad is not None:
                    break
        if bad is None:
            return R
        good, todo = {}, {}
        for m, c in R.items():
            r = _redmono(m)
            if r is None:
                _acc(good, m, c)
            else:
                todo[m] = (c, r)
        for m, (c, r) in todo.items():
            base, fac = r
            for m2, c2 in fac.items():
                _acc(good, base + m2, c * c2)
        R = {m: rnd(c) for m, c in good.items() if c != 0}


def _acc(D, m, c):
    o = D.get(m)
    if o is not None:
        t = o + c
        if CTX.inexact and abs(t) < DROP * abs(o):
            t = Fraction(0)
        c = t
    D[m] = c


_powcache = {}


def _redmono(m):
    i = 0
    mm = m
    base = m
    fac = None
    while mm:
        e = mm & FMASK
        if e:
            v = CTX.vars[i]
            if v.kind == "root" and e >= v.q:
                k, r = divmod(e, v.q)
                base -= (e - r) << (BITS * i)
                f = ppow(v.P, k)
                fac = f if fac is None else pmul(fac, f)
        mm >>= BITS
        i += 1
    if fac is None:
        return None
    return base, fac


def ppow(P, k):
    R = {0: ONE}
    B = P
    while k:
        if k & 1:
            R = pmul(R, B)
        k >>= 1
        if k:
            B = pmul(B, B)
    return R


def lead(P):
    m = max(P)
    return m, P[m]


def mono_div(m, d):
    """m / d for packed monomials or None"""
    r = 0
    sh = 0
    while m or d:
        e = (m & FMASK) - (d & FMASK)
        if e < 0:
            return None
        r |= e << sh
        m >>= BITS
        d >>= BITS
        sh += BITS
    return r


def pdivexact(N, F, limit=4000):
    """N / F if exact in the polynomial ring else None"""
    if not N:
        return {}
    lm, lc = lead(F)
    m0 = max(N)
    if mono_div(m0, lm) is None:
        return None
    # quick necessary test: lowest monomials must divide too
    if mono_div(min(N), min(F)) is None:
        return None
    if CTX.inexact and len(F) > 1 and len(N) > 1:
        return _pdiv_inexact(N, F)
    R = dict(N)
    Q = {}
    steps = 0
    while R:
        m = max(R)
        q = mono_div(m, lm)
        if q is None:
            return None
        c = R[m] / lc
        Q[q] = c
        for fm, fc in F.items():
            mm = fm + q
            t = R.get(mm, 0) - c * fc
            if t == 0:
                R.pop(mm, None)
            else:
                R[mm] = t
        steps += 1
        if steps > limit:
            return None
    return Q


def _pdiv_inexact(N, F):
    lm, lc = lead(F)
    R = dict(N)
    Q = {}
    tol = max(abs(c) for c in N.values()) * Fraction(1, 10 ** 50)
    steps = 0
    while R:
        m = max(R)
        if abs(R[m]) < tol:
            del R[m]
            continue
        q = mono_div(m, lm)
        if q is None:
            return None
        c = rnd(R[m] / lc)
        Q[q] = c
        del R[m]
        for fm, fc in F.items():
            if fm == lm:
                continue
            mm = fm + q
            R[mm] = rnd(R.get(mm, 0) - c * fc)
        steps += 1
        if steps > 2000:
            return None
    return Q


def pvars(P):
    acc = 0
    for m in P:
        acc |= m
    out = []
    i = 0
    while acc:
        if acc & FMASK:
            out.append(i)
        acc >>= BITS
        i += 1
    return out


def pdegree(P):
    d = 0
    for m in P:
        t = 0
        while m:
            t += m & FMASK
            m >>= BITS
        d = max(d, t)
    return d


def mono_exps(m):
    i = 0
    out = []
    while m:
        e = m & FMASK
        if e:
            out.append((i, e))
        m >>= BITS
        i += 1
    return out


def psyntactic_sign(P):
    """set of possible signs that is obvious from the shape of P, or None"""
    if not P:
        return {0}
    allpos = allneg = True
    strict = False
    for m, c in P.items():
        for i, e in mono_exps(m):
            if e % 2 and not CTX.vars[i].nonneg:
                return None
        if c > 0:
            allneg = False
        else:
            allpos = False
        if m == 0:
            strict = True
        if not allpos and not allneg:
            return None
    if allpos:
        return {1} if strict else {0, 1}
    return {-1} if strict else {0, -1}


def pstr(P):
    if not P:
        return "0"
    out = []
    for m in sorted(P, reverse=True)[:40]:
        s = str(P[m]) if len(str(P[m])) < 30 else "%.6g" % float(P[m])
        for i, e in mono_exps(m):
            s += "*" + CTX.vars[i].name + ("^%d" % e if e > 1 else "")
        out.append(s)
    return " + ".join(out)


# --------------------------------------------------------------- constants
def tofrac(x):
    """idealise a python number as an exact rational"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if x == int(x) if abs(x) < 1e15 else True:
        return Fraction(x)
    f = Fraction(x).limit_denominator(2000)
    if abs(float(f) - x) <= 2e-16 * abs(x):
        return f
    return Fraction(repr(x))


def fsqrt(c, q=2):
    """exact rational root if there is one, else None"""
    n, d = c.numerator, c.denominator
    if q == 2:
        a, b = math.isqrt(n), math.isqrt(d)
        if a * a == n and b * b == d:
            return Fraction(a, b)
        return None
    a, b = iroot(n, q), iroot(d, q)
    if a ** q == n and b ** q == d:
        return Fraction(a, b)
    return None


def iroot(n, q):
    if n < 2:
        return n
    x = 1 << -(-n.bit_length() // q)
    while True:
        y = ((q - 1) * x + n // x ** (q - 1)) // q
        if y >= x:
            return x
        x = y


def fapproxroot(c, q):
    """rational approximation of c**(1/q), c > 0, to about KEEPBITS bits"""
    r = fsqrt(c, q)
    if r is not None:
        return r
    CTX.inexact = True
    e = (c.numerator.bit_length() - c.denominator.bit_length())
    sh = q * max(0, KEEPBITS - e // q)
    n = (c.numerator << sh) // c.denominator
    return Fraction(iroot(n, q), 1 << (sh // q))
