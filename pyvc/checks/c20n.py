"""C20 for every number of axes.

A root primitive that has a figure at an arbitrary path and an axes at each of N arbitrary
distinct paths key(0), ..., key(N - 1); axes i has its frame and any of the axis boxes and labels.
Path access is used by its contract (C01).  What the code tells the matplotlib objects is
recorded in one sequence of events per kind; obligation: in the sequence of each kind there is,
for each i, the event of axes i or, where the child is absent, none.
"""
from __future__ import annotations

from matplotlib import pyplot as plt
from matplotlib.figure import Figure as MplFigure

from .c21 import *
from .c21 import deviation2
from .tree import *
from .c20 import least
from ..seq import PyDict, PyList, VSeq, Tab, Join, Unit, DictContent, KeyMap, as_vseq, zint, to_content
from ..strs import SymStr
from ..same import same
from . import fakes

Rl = z3.RealSort()
key = z3.Function("axes_key", I, S)
number = z3.Function("number_of_axes_key", S, I)
figkey = z3.String("figure_key")
PARTS = {"Frame": None}     # part -> the axes that have it (each part on its own)
for _x in ("XAxis", "YAxis", "TwinXAxis", "TwinYAxis"):
    for _p in (_x, _x + "Label"):
        PARTS[_p] = z3.Function("has_" + _p, I, B)


class Axis(fakes.Fake):
    def __init__(self, fig, i, which):
        self.fig, self.i, self.which = fig, i, which

    def set_label_coords(self, *a, **k):
        tr = k.pop("transform", None)
        a = list(a)
        if len(a) == 3:
            tr = a.pop()
        x, y = fakes.pick2(a, k, ("x", "y"))
        if k:
            raise Unsupported("arguments of set_label_coords")
        self.fig.logs["label" + self.which].append((self.i, x, y, tr is self.fig.transFigure))

    def set_ticks_position(self, position):
        self.fig.logs["ticks" + self.which].append((self.i, position))

    def tick_bottom(self):
        self.set_ticks_position("bottom")

    def tick_top(self):
        self.set_ticks_position("top")

    def tick_left(self):
        self.set_ticks_position("left")

    def tick_right(self):
        self.set_ticks_position("right")


class Axes(fakes.Fake):
    def __init__(self, fig, i):
        self.fig, self.i = fig, i
        self.xaxis, self.yaxis = Axis(fig, i, "X"), Axis(fig, i, "Y")

    def get_xaxis(self):
        return self.xaxis

    def get_yaxis(self):
        return self.yaxis

    @property
    def figure(self):
        return self.fig

    def get_figure(self, root=False):
        return self.fig

    def set_position(self, pos, which="both"):
        if which != "both":
            raise Unsupported("arguments of set_position")
        b = list(pos.bounds) if isinstance(pos, fakes.Bbox) else fakes.seq(pos)
        if len(b) != 4:
            raise Unsupported("axes position with other than four numbers")
        self.fig.logs["position"].append((self.i, *[fakes.scalar(v) for v in b]))

    def __pyvc_same__(self, name, o):
        if not isinstance(o, Axes) or o.fig is not self.fig:
            return ctx().fail(name, f"an axes against {type(o).__name__}")
        ctx().prove(name, zint(self.i) == zint(o.i))


class Figure(fakes.Fake):
    def __init__(self):
        self.logs = {k: PyList() for k in ("size", "position", "labelX", "labelY", "ticksX", "ticksY", "made")}
        self.W, self.H = real("fig.W"), real("fig.H")
        self.transFigure = fakes.Scale(self.W, self.H)
        self.cache = {}

    def ax(self, i):
        d = ctx().store.setdefault("axes_of", {})
        k = (id(self), z3.simplify(zint(i)).sexpr())
        if k not in d:
            d = ctx().store["axes_of"] = {**d, k: Axes(self, i)}
        return d[k]

    def set_size_inches(self, *a, **k):
        k.pop("forward", None)
        w, h = fakes.pick2(a, k, ("w", "h"))
        if k:
            raise Unsupported("arguments of set_size_inches")
        self.logs["size"].append((w, h))

    def get_size_inches(self):
        v = self.logs["size"].state().concrete()
        if not v:
            raise Unsupported("size of the figure")
        return vec(*v[-1])

    def add_axes(self, rect=None, **kw):
        if kw:
            raise Unsupported("arguments of add_axes")
        i = self.logs["made"].state().length()
        self.logs["made"].append(i)
        return self.ax(i)


def raw(cls, value, children):
    """A primitive as its constructor makes it (C05)."""
    o = object.__new__(cls)
    o.__dict__.update(_value=value, _children=children)
    return o


def keyat(i):
    """The path of axes i (the paths are distinct)."""
    t = key(zint(i))
    ctx().assume(number(t) == zint(i))
    return SymStr.term(t)


class Tree:
    """The root primitive and its contracts."""

    def __init__(self, w):
        self.w = w
        self.N = z3.Int("number_of_axes")
        pr = w.pr

        class Root(pr.PrimitiveNode):
            pass

        class AxesView(pr.Axes):
            pass
        self.Root, self.AxesView = Root, AxesView
        self.root = object.__new__(Root)
        self.root.__dict__.update(_value=np.array(()), _children=PyDict())
        for m in ("__getitem__", "get_child"):
            Rec(w, "containers:Node." + m, self.getitem)
        Rec(w, "containers:Node.__contains__", self.contains)
        for m in ("keys", "values", "items", "__len__", "__iter__", "children"):
            self.hide(m)

    def hide(self, m):
        def spec(o, *a):
            if type(o) in (self.Root, self.AxesView):
                if m == "keys" and type(o) is self.Root:
                    return self.keys()
                raise Unsupported(f"{m} of the primitives")
            return NotImplemented
        Rec(self.w, "containers:Node." + m, spec)

    def keys(self):
        """Before axes i there are gap(i) other children, after the last one gap(N); axes are
        known by their names."""
        c = ctx()
        gap = z3.Function("children_before", I, I)
        name = z3.Function("other_key", I, I, S)

        def others(i):
            iz = zint(i)
            ctx().assume(gap(iz) >= 0)

            def other(j):
                t = name(iz, zint(j))
                ctx().assume(z3.Not(z3.Contains(t, z3.StringVal("Axes"))))
                return SymStr.term(t, noslash=True)
            return Tab(SymInt(gap(iz)), other)

        def group(i):
            k = keyat(i)
            ctx().assume(z3.Contains(k.t, z3.StringVal("Axes")))
            return VSeq([others(i), Unit(k)])
        return VSeq([Join(SymInt(self.N), group), others(self.N)], "view")

    def start(self):
        c = ctx()
        c.assume(self.N >= 0)
        self.fig_quad, self.fv = self.quad("figure", z3.IntVal(0), True)
        c.assume(z3.And(self.fv[0].x.t < self.fv[1].x.t, self.fv[1].y.t < self.fv[2].y.t))

    def quad(self, tag, i, frame=False):
        """Quadrilateral `tag` of axes i, with its specification view."""
        pr = self.w.pr
        d = ctx().store.setdefault("quads", {})
        k = (tag, z3.simplify(zint(i)).sexpr())
        if k not in d:
            def f(nm):
                return SymReal(z3.Function(f"{tag}.{nm}", I, Rl)(zint(i)))
            if frame:
                x0, x1, y0, y1 = f("x0"), f("x1"), f("y0"), f("y1")
                vs = [P2(x0, y0), P2(x1, y0), P2(x1, y1), P2(x0, y1)]
            else:
                vs = [P2(f(f"x{j}"), f(f"y{j}")) for j in range(4)]
            ps = [raw(pr.Point, vec(*v), {}) for v in vs]
            ls = [raw(pr.Line, np.array(()), {"Point0": ps[j], "Point1": ps[(j + 1) % 4]}) for j in range(4)]
            q = raw(pr.Quadrilateral, np.array(()), {f"Line{j}": l for j, l in enumerate(ls)})
            ctx().store["quads"] = {**d, k: (q, vs)}
        return ctx().store["quads"][k]

    def point(self, tag, i):
        x, y = (SymReal(z3.Function(f"{tag}.{nm}", I, Rl)(zint(i))) for nm in "xy")
        return raw(self.w.pr.Point, vec(x, y), {}), P2(x, y)

    def part(self, i, name):
        """Child `name` of axes i and its view."""
        if name.endswith("Label"):
            return self.point(name, i)
        return self.quad(name, i, name == "Frame")

    def has(self, i, name):
        f = PARTS.get(name, False)
        if f is False:
            return z3.BoolVal(False)
        return z3.BoolVal(True) if f is None else f(zint(i))

    def which(self, p):
        """(what, rest): ("figure" or the index of an axes, remaining path)."""
        if not isinstance(p, (str, SymStr)):
            raise Unsupported("a child that is not named by a string")
        ps = SymStr.of(p).ps
        if not ps or isinstance(ps[0], str) or not hasattr(ps[0], "t"):
            raise Unsupported("another child of the root primitive")
        t = ps[0].t
        rest = SymStr(ps[1:]).plain()
        if rest is None or (rest and rest[0] != "/"):
            raise Unsupported("another child of the root primitive")
        if t.eq(figkey):
            return "figure", rest[1:]
        if z3.is_app(t) and t.decl().eq(key):
            i = t.arg(0)
            if not ctx().entails(z3.And(i >= 0, i < self.N)):
                raise Unsupported("an axes out of range")
            return SymInt(i), rest[1:]
        raise Unsupported("another child of the root primitive")

    def view(self, i):
        d = ctx().store.setdefault("views", {})
        k = z3.simplify(zint(i)).sexpr()
        if k not in d:
            v = object.__new__(self.AxesView)
            v.__dict__.update(_value=np.array(()), _children=PyDict(), __pyvc_index__=i)
            ctx().store["views"] = {**d, k: v}
        return ctx().store["views"][k]

    def getitem(self, o, k):
        if type(o) is self.Root:
            what, rest = self.which(k)
            x = self.fig_quad if isinstance(what, str) else self.view(what)
            return self.w.it.getitem(x, rest) if rest else x
        if type(o) is self.AxesView:
            if not isinstance(k, str):
                raise Unsupported("a child that is not named by a known string")
            first, _, rest = k.partition("/")
            i = o.__dict__["__pyvc_index__"]
            if not ctx().branch(self.has(i, first)):
                raise KeyError(k)
            x = self.part(i, first)[0]
            return self.w.it.getitem(x, rest) if rest else x
        return NotImplemented

    def contains(self, o, k):
        if type(o) is self.Root:
            what, rest = self.which(k)
            if not rest:
                return True
            x = self.fig_quad if isinstance(what, str) else self.view(what)
            return self.w.it.contains(x, rest)
        if type(o) is self.AxesView:
            if not isinstance(k, str):
                raise Unsupported("a child that is not named by a known string")
            first, _, rest = k.partition("/")
            i = o.__dict__["__pyvc_index__"]
            h = self.has(i, first)
            if not rest:
                return mkbool(h)
            return ctx().branch(h) and self.w.it.contains(self.part(i, first)[0], rest)
        return NotImplemented


def events(n, log, N):
    """i -> the events of the i-th iteration, when the log has one part per axes."""
    segs = log.state().segs
    if any(not isinstance(s, (Tab, Join)) for s in segs) or len(segs) != 1 or \
            not ctx().entails(zint(segs[0].n) == N):
        con = log.state().concrete()
        if con == []:
            return lambda i: []
        raise Unsupported(f"events of another form: {segs}")
    s = segs[0]
    if isinstance(s, Tab):
        return lambda i: [s.f(i)]

    def at(i):
        v = s.f(i)
        v = (v if isinstance(v, VSeq) else as_vseq(v)).concrete()
        if v is None:
            raise Unsupported("events of another form")
        return v
    return at


def check(n, T, fig):
    c = ctx()
    o = T.fv[0]
    W, H = T.fv[1].x - T.fv[0].x, T.fv[2].y - T.fv[1].y
    sizes = fig.logs["size"].state().concrete()
    if sizes is None:
        raise Unsupported("the figure size is set in a loop")
    if not sizes:
        return c.fail(n + ".figure", "the figure size was not set")
    c.prove(n + ".figure", z3.And(R(sizes[-1][0]).t == W.t, R(sizes[-1][1]).t == H.t))

    def each(kind, nm, want, present):
        ev = events(n + nm, fig.logs[kind], T.N)

        def at(i):
            es = ev(i)
            there = True if present is None else c.branch(T.has(i, present))
            if not there:
                return c.prove(n + ".absent", True) if not es else c.fail(
                    n + ".absent", f"absent {present} was changed")
            if not es:
                return c.fail(n + nm, f"{kind} was not set")
            e = es[-1]
            for x in es:
                c.prove(n + nm, zint(x[0]) == zint(i))
            want(i, *e[1:])
        c.each(n + nm, SymInt(T.N), at)

    def rect(i, x, y, ww, hh):
        f = T.part(i, "Frame")[1]
        x, y, ww, hh = map(R, (x, y, ww, hh))
        c.prove(n + ".rect", (x * W).t == (f[0].x - o.x).t)
        c.prove(n + ".rect", (y * H).t == (f[0].y - o.y).t)
        c.prove(n + ".rect", (ww * W).t == (f[1].x - f[0].x).t)
        c.prove(n + ".rect", (hh * H).t == (f[2].y - f[1].y).t)
    each("position", ".rect", rect, None)
    for X in "XY":
        def label(i, lx, ly, infig, X=X):
            p = T.part(i, X + "AxisLabel")[1]
            c.prove(n + ".label", (R(lx) * W).t == (p.x - o.x).t)
            c.prove(n + ".label", (R(ly) * H).t == (p.y - o.y).t)
            c.prove(n + ".label-coordinates", infig)
        each("label" + X, ".label", label, X + "AxisLabel")

        def ticks(i, s, X=X):
            f, a = T.part(i, "Frame")[1], T.part(i, X + "Axis")[1]
            if not isinstance(s, (str, SymStr)):
                return c.fail(n + ".ticks", f"{s!r}")
            least(n + ".ticks", f, a, SymStr.of(s).t)
        each("ticks" + X, ".ticks", ticks, X + "Axis")


def prove_update(report, w, case):
    T = Tree(w)
    mu = w.matplotlibutils

    def update(n, g):
        c = ctx()
        T.start()
        fig = Figure()
        axs = PyDict.sym(DictContent([("map", KeyMap(SymInt(T.N), lambda i: keyat(i),
                                                     fig.ax, "given"))]))
        c.born.pop(id(axs), None)
        before = axs.state()
        r = evaluate(n, mu.update_subplots, T.root, SymStr.term(figkey), fig, axs)
        if not isinstance(r, tuple) or len(r) != 2:
            return c.fail(n + ".returned", f"returns {r!r}")
        c.prove(n + ".returned", r[0] is fig)
        if r[1] is not axs:
            same(n + ".returned", to_content(r[1]).items(), before.items())
        check(n, T, fig)
    case("update", update)
    return T


def prove_all(report, w, case):
    T = prove_update(report, w, case)
    for f in (plt.figure, MplFigure):
        w.it.models[f] = lambda it, a, k: Figure()
    prove_subplots(report, w, case, T)


def prove_subplots(report, w, case, T):
    mu = w.matplotlibutils

    def subplots(n, g, given):
        c = ctx()
        T.start()
        keys = PyList.sym(VSeq([Tab(SymInt(T.N), lambda i: keyat(i))], "list"))
        c.born.pop(id(keys), None)
        r = evaluate(n, mu.subplots, T.root, SymStr.term(figkey), *([keys] if given else []))
        if not isinstance(r, tuple) or len(r) != 2 or not isinstance(r[0], Figure):
            return c.fail(n + ".returned", f"returns {r!r}")
        fig, axs = r
        same(n + ".axes", to_content(axs).items(), VSeq([Tab(SymInt(T.N), lambda i: (
            keyat(i), fig.ax(i)))]))
        check(n, T, fig)
    case("subplots[any keys]", lambda n, g: subplots(n, g, True))
    case("subplots[axes children]", lambda n, g: subplots(n, g, False))
