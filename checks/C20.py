"""Plots: every case is drawn once, at its own values, in the group its case weight says, and carries its own name."""
import importlib
import types
import matplotlib
import matplotlib.pyplot
import numpy
from checks.common import *
from engine.harness import Case

ASSUMPTIONS = ["the fitted model is a real sprm/ppdire/sudire object whose estimates and predictions are free values in a box; up to 4 training and 3 new cases",
               "matplotlib is a recorder of what is drawn (scatter, plot, bar, annotate, text, lines, contour): rendering is outside"]

COL = ["pane", "ground", "fill", "diag", "edge", "newfill", "harshfill", "harshnew"]
MARK = ["o", "d", "v"]


class Quiet:
    """takes any call and does nothing"""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Quiet()

    def __call__(self, *a, **k):
        return Quiet()

    def __iter__(self):
        return iter([])


def cells(v):
    """flat list of the entries of a list, array or scalar"""
    if isinstance(v, str):
        return [v]
    if hasattr(v, "ndim"):
        v = v.reshape(-1) if v.ndim else [v]
    if hasattr(v, "__len__") or hasattr(v, "__iter__"):
        out = []
        for t in v:
            out += cells(t) if (hasattr(t, "__len__") or getattr(t, "ndim", 0)) and not isinstance(t, str) else [t]
        return out
    return [v]


class Draw(Quiet):
    """one axes, recording; also stands for the pyplot functions that act on the current axes"""

    def __init__(self):
        self.points, self.bars, self.notes, self.lines, self.contours, self.texts, self.ticks = [], [], [], [], [], [], []

    def scatter(self, x, y, s=None, c=None, marker=None, label=None, color=None, **k):
        x, y = cells(x), cells(y)
        c = c if c is not None else color
        for i in range(len(x)):
            ci = c if isinstance(c, str) or c is None else cells(c)[i if len(cells(c)) > 1 else 0]
            self.points.append((x[i], y[i] if i < len(y) else None, ci, marker or "o", label))
        if len(x) != len(y):
            raise ValueError("x and y must be the same size")
        return Quiet()

    def plot(self, x, y=None, fmt="", **k):
        if k.get("marker") or any(m in fmt for m in MARK):
            m = k.get("marker") or [m for m in MARK if m in fmt][0]
            self.scatter(x, y, c=k.get("markerfacecolor", k.get("color", k.get("c"))), marker=m, label=k.get("label"))
        else:
            self.lines.append((cells(x), cells(y)))
        return [Quiet()]

    def bar(self, x, height, width=0.8, bottom=None, color=None, tick_label=None, label=None, **k):
        x, h = cells(x), cells(height)
        if len(h) == 1:
            h = h * len(x)
        if len(x) == 1:
            x = x * len(h)
        if len(x) != len(h):
            raise ValueError("shape mismatch")
        for i in range(len(x)):
            c = color if isinstance(color, str) or color is None else cells(color)[i]
            if not isnan(h[i]):
                self.bars.append((x[i], h[i], c, label))
        if tick_label is not None:
            self.xticks(x, tick_label)
        return Quiet()

    def annotate(self, text, xy=None, *a, **k):
        self.notes.append((text, tuple(cells(xy))))
        return Quiet()

    def text(self, x, y, s, *a, **k):
        self.texts.append(s)
        self.notes.append((s, (x, y)))
        return Quiet()

    def add_line(self, l):
        self.lines.append((cells(l.x), cells(l.y)))
        return Quiet()

    def axline(self, xy1, xy2=None, slope=None, **k):
        self.lines.append(([xy1[0], xy2[0]], [xy1[1], xy2[1]]) if xy2 is not None else ([xy1[0], xy1[0] + 1], [xy1[1], xy1[1] + slope]))
        return Quiet()

    def tricontour(self, *a, **k):
        self.contours.append([cells(v) for v in a[:3]])
        return Quiet()

    tricontourf = tricontour

    def get_xbound(self):
        return (-1.5, 2.0)

    get_xlim = get_xbound
    get_ybound = get_ylim = lambda s: (-2.0, 2.5)

    def xticks(self, ticks=None, labels=None, **k):
        if labels is not None:
            self.ticks.append((cells(ticks), cells(labels)))
        return [], []

    def set_xticks(self, ticks, labels=None, **k):
        if labels is not None:
            self.ticks.append((cells(ticks), cells(labels)))
        else:
            self._t = cells(ticks)

    def set_xticklabels(self, labels, **k):
        self.ticks.append((getattr(self, "_t", None), cells(labels)))


class Fig(Quiet):
    def __init__(self, ax):
        self.ax = ax

    def add_subplot(self, *a, **k):
        return self.ax

    gca = add_axes = add_subplot

    def subplots(self, *a, **k):
        return self.ax


class Pyplot(Draw):
    def __init__(self):
        Draw.__init__(self)
        self.rcParams = {}
        self.shown = 0

    def figure(self, *a, **k):
        return Fig(self)

    gcf = figure

    def subplots(self, *a, **k):
        return Fig(self), self

    def gca(self, *a, **k):
        return self

    axes = subplot = gca

    def Line2D(self, x, y, **k):
        return types.SimpleNamespace(x=x, y=y)

    def show(self, *a, **k):
        self.shown += 1


def isnan(v):
    if getattr(v, "sp", None) is not None:
        return v.sp == "nan"
    if hasattr(v, "num"):
        return False
    return v != v


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and str(a) == str(b)
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    d = a - b
    return getattr(d, "c", d) == 0


def match(E, lab, got, want):
    """the drawn positions are the wanted ones, each once, in any order"""
    if len(got) != len(want):
        return E.true(lab, False, "%d drawn, %d expected" % (len(got), len(want)))
    left = list(got)
    rest = []
    for w in want:
        k = next((i for i, g in enumerate(left) if all(same(a, b) for a, b in zip(g, w))), None)
        if k is None:
            rest.append(w)
        else:
            left.pop(k)
    E.true(lab, True)
    for g, w in zip(left, rest):
        E.eq(lab, list(g), list(w))


def model(E, kind, n, m, p=2, h=2, shape="col", free=None, vals=None):
    """a real estimator object with free estimates; predictions for new cases are free values"""
    mod = importlib.import_module("direpack.%s.%s" % (kind, kind))
    base = getattr(mod, kind)
    asked = []
    yv = E.array("yv", m, -6, 6)
    Tv = E.array("Tv", (m, h), -6, 6)
    wv = E.array("wv", m, 0, 1)

    class Model(base):
        def predict(self, Xn):
            asked.append(Xn)
            return yv.reshape(-1, 1) if shape == "col" else yv.copy()

        def transform(self, Xn):
            asked.append(Xn)
            return Tv.copy()

        def weightnewx(self, Xn):
            asked.append(Xn)
            return wv.copy()
    r = Model.__new__(Model)
    y = E.array("y", n, -6, 6)
    f = E.array("f", n, -6, 6)
    T = E.array("T", (n, h), -6, 6)
    r.y = r.y0 = y.reshape(-1, 1) if shape == "col" else y.copy()
    r.fitted_ = f.reshape(-1, 1) if shape == "col" else f.copy()
    r.ols_obj_ = types.SimpleNamespace(fittedvalues=f.copy())
    r.x_scores_ = T.copy()
    w = E.array("w", n, 0, 1)
    wx = E.array("wx", n, 0, 1)
    wy = E.array("wy", n, 0, 1)
    r.caseweights_, r.x_caseweights_, r.y_caseweights_ = w.copy(), wx.copy(), wy.copy()
    return types.SimpleNamespace(r=r, y=y, f=f, T=T, w=w, wx=wx, wy=wy, yv=yv, Tv=Tv, wv=wv, asked=asked)


def drawn(E, f):
    pl = Pyplot()
    with E.patch([(matplotlib, "pyplot", pl)]):
        f()
    return pl


def plotter(kind, M):
    mod = importlib.import_module("direpack.plot.%s_plot" % kind)
    return getattr(mod, kind + "_plot")(M.r, list(COL), list(MARK))


def groups(w):
    """index sets: regular, moderate, harsh"""
    g = [[], [], []]
    for i in range(len(w)):
        g[0 if w[i] == 1 else 2 if w[i] == 0 else 1].append(i)
    return g


def check_points(E, kind, pl, M, old, new, xy, xyv):
    """old/new: which blocks are expected; xy(i), xyv(i): positions"""
    want = {}
    names = ["Regular", "Moderate", "Harsh"]
    for on, w, pos, fill, harsh, block in ((old, M.w, xy, "fill", "harshfill", "Training"), (new, M.wv, xyv, "newfill", "harshnew", "Test")):
        if not on:
            continue
        g = groups(w) if kind == "sprm" else [list(range(len(w))), [], []]
        for k in range(3):
            for i in g[k]:
                want.setdefault((harsh if k == 2 else fill, MARK[k]), []).append(pos(i))
            got = [t for t in pl.points if t[2] == (harsh if k == 2 else fill) and t[3] == MARK[k]]
            if kind != "sudire":
                for t in got:
                    E.true("the legend names the block", block in (t[4] or ""), str(t[4]))
                    if kind == "sprm":
                        E.true("the legend names the group", names[k] in (t[4] or ""), str(t[4]))
    got = {}
    for x, y, c, m, l in pl.points:
        got.setdefault((c, m), []).append((x, y))
    for k in sorted(set(want) | set(got), key=str):
        match(E, "cases drawn as %s" % (k,), got.get(k, []), want.get(k, []))


def data_new(E, m, p=3):
    return E.const(rng_matrix(m, p, 77))


def check_names(E, pl, names, xy, namesv, xyv):
    want = [(s, xy(i)) for i, s in enumerate(names)] + [(s, xyv(i)) for i, s in enumerate(namesv)]
    got = {str(t): pos for t, pos in pl.notes}
    E.true("every name is written once", sorted(str(t) for t, _ in pl.notes) == sorted(s for s, _ in want), str([t for t, _ in pl.notes]))
    for s, pos in want:
        if s in got:
            E.eq("%s is written at its own case" % s, list(got[s]), list(pos))


def block(E, M, n, m, val, names):
    Xn = data_new(E, m)
    kw = {}
    if val:
        kw["Xn"] = Xn
    if names:
        kw["names"] = ["c%d" % i for i in range(n)]
        if val:
            kw["namesv"] = ["n%d" % i for i in range(m)]
    return Xn, kw


def h_yyp(E, kind, n, m, mode, shape="col", names=True, title=False):
    M = model(E, kind, n, m, shape=shape)
    Xn, kw = block(E, M, n, m, mode != "train", names)
    truth = E.array("truth", m, -6, 6)
    if mode != "train":
        kw["ytruev"] = truth.reshape(-1, 1) if shape == "col" else truth.copy()
    if mode == "only":
        kw["onlyval"] = True
    if title:
        kw["title"] = "a title"
        kw["label"] = "mpg"
    y0, f0 = M.r.y.copy(), M.r.fitted_.copy()
    pl = drawn(E, lambda: plotter(kind, M).plot_yyp(**kw))
    xy = lambda i: (M.y[i], M.f[i])
    xyv = lambda i: (truth[i], M.yv[i])
    check_points(E, kind, pl, M, mode != "only", mode != "train", xy, xyv)
    if names:
        check_names(E, pl, kw["names"] if mode != "only" else [], xy, kw.get("namesv", []), xyv)
    else:
        E.true("no names asked for, none written", not pl.notes)
    E.true("the diagonal is drawn", len(pl.lines) == 1)
    for x, y in pl.lines:
        E.eq("the diagonal is y = x", x, y)
    for a in M.asked:
        E.eq("the new cases are the ones given", a, Xn)
    E.eq("the model is left as it was", M.r.y, y0)
    E.eq("the model is left as it was", M.r.fitted_, f0)


def h_proj(E, kind, n, m, mode, comp, names=True):
    M = model(E, kind, n, m, h=max(comp) + 1)
    Xn, kw = block(E, M, n, m, mode != "train", names)
    if mode == "only":
        kw["onlyval"] = True
    if list(comp) != [0, 1]:
        kw["components"] = list(comp)
    pl = drawn(E, lambda: plotter(kind, M).plot_projections(**kw))
    xy = lambda i: (M.T[i, comp[0]], M.T[i, comp[1]])
    xyv = lambda i: (M.Tv[i, comp[0]], M.Tv[i, comp[1]])
    check_points(E, kind, pl, M, mode != "only", mode != "train", xy, xyv)
    if names:
        check_names(E, pl, kw["names"] if mode != "only" else [], xy, kw.get("namesv", []), xyv)
    for a in M.asked:
        E.eq("the new cases are the ones given", a, Xn)


def h_weights(E, n, m, mode, which, names=True):
    M = model(E, "sprm", n, m)
    Xn, kw = block(E, M, n, m, mode != "train", names)
    if mode == "only":
        kw["onlyval"] = True
    pl = drawn(E, lambda: plotter("sprm", M).plot_caseweights(mode=which, **kw))
    w = {"overall": M.w, "x": M.wx, "y": M.wy}[which]
    old = [(w[i], "fill") for i in range(n)] if mode != "only" else []
    new = [(M.wv[i], "newfill") for i in range(m)] if mode != "train" else []
    bars = sorted(pl.bars, key=lambda t: float(t[0]))
    E.true("one bar per case", len(bars) == len(old) + len(new) and len({float(t[0]) for t in bars}) == len(bars), str(len(bars)))
    for t, (h, c) in zip(bars, old + new):
        E.eq("the bar shows the weight of its case", t[1], h)
        E.true("training and new cases have their own colours", t[2] == c)
        E.true("the legend names the block", ("Training" if c == "fill" else "Test") in (t[3] or ""), str(t[3]))
    if names and len(bars) == len(old) + len(new):
        pos = lambda i: (bars[i][0], (old + new)[i][0])
        check_names(E, pl, kw["names"] if old else [], pos, kw.get("namesv", []), lambda i: pos(len(old) + i))
    for a in M.asked:
        E.eq("the new cases are the ones given", a, Xn)


def h_coeffs(E, p, kept, trunc, cols, entity="coef_", shape="col"):
    """bars carry the coefficient of the variable their label names; truncation keeps the smallest and the largest ones"""
    M = model(E, "sprm", 2, 1)
    q = len(kept)
    b = E.array("b", q, -6, 6)
    for i in range(q):
        for j in range(i):
            E.assume(abs(b[i] - b[j]), ">", 0.01)
    setattr(M.r, entity, b.reshape(-1, 1) if shape == "col" else b.copy())
    M.r.non_zero_scale_vars_ = numpy.array(kept)
    # names in an order that is not alphabetical
    names = ["v%d" % (7 * (i + 2) % 10) for i in range(p)]
    kw = dict(truncation=trunc) if trunc else {}
    if entity != "coef_":
        kw["entity"] = entity
    if cols:
        kw["columns"] = {"array": numpy.array(names), "list": list(names), "tuple": tuple(names)}[cols]
    pl = drawn(E, lambda: plotter("sprm", M).plot_coeffs(**kw))
    name = [names[j] for j in kept] if cols else [str(i) for i in range(q)]
    E.true("one bar per coefficient shown", len({str(t[0]) for t in pl.bars}) == len(pl.bars))
    lab = {str(t): None for t in ()}
    for tk, lb in pl.ticks[-1:]:
        lab.update({str(t): str(l) for t, l in zip(tk if tk is not None else [u[0] for u in pl.bars], lb)})
    shown = []
    for x, h, c, _ in pl.bars:
        l = lab.get(str(x), str(x))
        E.true("the label is a variable of the model", l in name, l)
        if l in name:
            E.eq("the bar labelled %s shows its coefficient" % l, h, b[name.index(l)])
            shown.append(name.index(l))
    k = int(numpy.ceil(q * (trunc / 2))) if trunc else q
    rank = [sum(1 for j in range(q) if b[j] < b[i]) for i in range(q)]
    want = [i for i in range(q) if not trunc or rank[i] < k or rank[i] >= q - k]
    E.true("the smallest and largest coefficients are shown, each once", sorted(shown) == want, "%s, want %s" % (sorted(shown), want))


def h_contour(E, n, holes):
    """the contour is drawn from every grid point with a finite score"""
    mod = importlib.import_module("direpack.plot.sprm_plot")
    sc = E.array("s", n, -6, 6)
    et = E.array("eta", n, 0, 1)
    for i, v in holes:
        sc[i] = v
    res = types.SimpleNamespace(cv_results_={"params": [{"eta": et[i], "n_components": i % 3 + 1} for i in range(n)], "mean_test_score": sc.copy()})
    P = mod.sprm_plot_cv(res, list(COL))
    for rep in range(2):
        pl = drawn(E, lambda: P.eta_ncomp_contour())
        keep = [i for i in range(n) if i not in dict(holes)]
        if len(keep) < 3:
            E.true("too few scores are said to be too few", not pl.contours and len(pl.texts) == 1)
            continue
        E.true("one contour", len(pl.contours) == 1)
        for x, y, z in pl.contours:
            match(E, "grid points", list(zip(x, y, z)), [(et[i], float(i % 3 + 1), sc[i]) for i in keep])


def h_refuse(E, kind, what):
    M = model(E, kind, 2, 1)
    if what == "class":
        mod = importlib.import_module("direpack.plot.%s_plot" % kind)
        E.raises("only a fitted %s is accepted" % kind, Exception, lambda: getattr(mod, kind + "_plot")(object(), list(COL)))
        return
    f = {"yyp": "plot_yyp", "proj": "plot_projections", "weights": "plot_caseweights"}.get(what)
    if f:
        E.raises("onlyval without new cases is refused", ValueError, lambda: drawn(E, lambda: getattr(plotter(kind, M), f)(onlyval=True)))
    else:
        E.raises("an unknown mode is refused", ValueError, lambda: drawn(E, lambda: plotter(kind, M).plot_caseweights(mode="z")))


def cases(tier):
    T = tier == "thorough"
    out = []
    n, m = (4, 3) if T else (3, 2)
    for kind in ("sprm", "ppdire", "sudire"):
        sizes = {"train": (n, 1), "both": (2, 2) if not T and kind == "sprm" else (3, 2), "only": (2, m)}
        for mode in ("train", "both", "only"):
            a, b = sizes[mode]
            bd = "%d training and %d new cases, any values and weights" % (a, b)
            for shape in ("col", "flat"):
                out.append(Case("%s-yyp-%s-%s" % (kind, mode, shape), h_yyp, bd, kind=kind, n=a, m=b, mode=mode, shape=shape, title=shape == "flat" and kind != "sprm"))
            out.append(Case("%s-yyp-%s-plain" % (kind, mode), h_yyp, bd, kind=kind, n=2, m=1, mode=mode, names=False))
            for comp in ((0, 1), (1, 0), (2, 0)):
                out.append(Case("%s-proj-%s-%d%d" % (kind, mode, *comp), h_proj, bd, kind=kind, n=a, m=b, mode=mode, comp=comp))
        for w in ("class", "yyp", "proj") + (("weights", "mode") if kind == "sprm" else ()):
            out.append(Case("%s-refuse-%s" % (kind, w), h_refuse, "", kind=kind, what=w))
    for mode in ("train", "both", "only"):
        for which in ("overall", "x", "y"):
            out.append(Case("weights-%s-%s" % (mode, which), h_weights, "4 training and 3 new cases, any weights", n=4, m=3, mode=mode, which=which))
    for cols in (None, "array", "list", "tuple"):
        for p, kept in ((4, [0, 1, 2, 3]), (5, [0, 2, 3, 4])):
            for tr in (0, 0.4, 0.6) + ((0.9,) if T else ()):
                out.append(Case("coeffs-%s-%d-%s" % (cols, p, tr), h_coeffs, "any %d distinct coefficients" % len(kept), p=p, kept=kept, trunc=tr, cols=cols))
    out.append(Case("coeffs-entity", h_coeffs, "any 4 distinct coefficients", p=4, kept=[0, 1, 2, 3], trunc=0.5, cols="array", entity="coef_scaled_", shape="flat"))
    nan, inf = float("nan"), float("inf")
    for k, (sz, ho) in enumerate([(4, []), (5, [(1, nan)]), (5, [(0, nan), (4, nan)]), (4, [(1, nan), (2, nan)]), (2, []), (5, [(2, inf)])]):
        out.append(Case("contour-%d" % k, h_contour, "any etas and scores, %d grid points" % sz, n=sz, holes=ho))
    return out
