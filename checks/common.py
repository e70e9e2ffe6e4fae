"""Reference definitions, written with plain Python arithmetic so that they run on floats and on
symbolic scalars alike, and shared helpers for the harnesses."""
from engine.harness import Case

MADC = 0.6744897501960817


def vsum(v):
    s = v[0]
    for x in v[1:]:
        s = s + x
    return s


def vmean(v):
    v = list(v)
    return vsum(v) / len(v)


def vsort(v):
    return sorted(v)


def vmed(v):
    s = sorted(v)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def vmad(v, c=MADC):
    m = vmed(v)
    return vmed([abs(x - m) for x in v]) / c


def vvar(v, ddof=0):
    m = vmean(v)
    return vsum([(x - m) * (x - m) for x in v]) / (len(v) - ddof)


def sqrt(E, x):
    return E.np.sqrt(x)


def vstd(E, v):
    return sqrt(E, vvar(v))


def vtrim(v, t):
    v = sorted(v)
    k = int(t * len(v))
    return vmean(v[k:len(v) - k])


def vtrimstd(E, v, t):
    m = vtrim(v, t)
    return sqrt(E, vtrim([(x - m) * (x - m) for x in v], t))


def colw(X, f):
    n, p = X.shape
    return [f([X[i, j] for i in range(n)]) for j in range(p)]


def LOC(E, X, center, trimming=0):
    p = X.shape[1]
    if center == "None":
        return [0.0] * p
    f = {"mean": (lambda v: vtrim(v, trimming) if trimming else vmean(v)), "median": vmed}[center]
    return colw(X, f)


def SCA(E, X, scale, trimming=0):
    p = X.shape[1]
    if scale == "None":
        return [1.0] * p
    f = {"std": (lambda v: vtrimstd(E, v, trimming) if trimming else vstd(E, v)), "mad": vmad}[scale]
    return colw(X, f)


def unit(s):
    """the zero-scale convention: a column with zero scale is divided by one"""
    return [1.0 if x == 0 else x for x in s]


def dot(a, b):
    return vsum([x * y for x, y in zip(a, b)])


def mm(A, B):
    """matrix product of lists / arrays, plain loops"""
    n, k, q = len(A), len(B), len(B[0])
    return [[vsum([A[i][t] * B[t][j] for t in range(k)]) for j in range(q)] for i in range(n)]


def tr(A):
    return [[A[i][j] for i in range(len(A))] for j in range(len(A[0]))]


def lst(a):
    """nested lists from an array"""
    if getattr(a, "ndim", 0) == 2:
        return [[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]
    return [a[i] for i in range(len(a))]


def rng_matrix(n, p, seed, scale=2.0):
    """fixed concrete matrix with short decimal entries"""
    import random
    r = random.Random(seed)
    return [[round(r.uniform(-scale, scale), 2) for _ in range(p)] for _ in range(n)]


def mix(E, name, n, p, seed, cells, lo=-8, hi=8, scale=2.0):
    """a fixed concrete n x p matrix in which the listed cells are symbolic"""
    A = E.const(rng_matrix(n, p, seed, scale))
    v = E.array(name, len(cells), lo, hi)
    for t, (i, j) in enumerate(cells):
        A[i, j] = v[t]
    return A


def skipnan(E, v):
    return [x for x in v if not bool(E.np.isnan(x))]


def int_matrix(n, p, seed, span=6):
    import random
    r = random.Random(seed)
    return [[r.randint(-span, span) for _ in range(p)] for _ in range(n)]
