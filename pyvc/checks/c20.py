"""C20: solved geometry maps to matplotlib figure, axes and labels exactly."""
import itertools

from matplotlib import pyplot as plt
from matplotlib.figure import Figure as MplFigure

from .world import *
from . import fakes
from .c21 import deviation2
from ..strs import SymStr


def tree(g, flags):
    """Primitive tree with a figure and one axes per entry of flags = (x, y, twinx, twiny)."""
    pr = g.w.pr
    q, fv = g.frame("Figure")
    c = ctx()
    c.assume(z3.And(fv[0].x.t < fv[1].x.t, fv[1].y.t < fv[2].y.t))
    kids, info = {}, {}
    for i, fl in enumerate(flags):
        ax = pr.Axes(None, None, *fl)
        prims, view = [], {}
        for k in ax.keys():
            p, v = g.point(k) if k.endswith("Label") else (g.frame(k) if k == "Frame" else g.quad(k))
            prims.append(p)
            view[k] = v
        kids[f"Axes{i}"] = pr.Axes(None, tuple(prims), *fl)
        info[f"Axes{i}"] = view
    kids["Figure"] = q
    kids["P"] = g.point("P")[0]
    return pr.PrimitiveNode(np.array(()), kids), fv, info


def least(name, f, a, s):
    """s names a side of least deviation."""
    c = ctx()
    if s.eq(position_terms(f, a)):
        # the contract of find_axis_position (C21)
        for x in SIDES:
            c.assume(z3.Implies(s == x, z3.And(*[deviation2(f, a, x).t <= deviation2(f, a, y).t
                                                 for y in SIDES])))
    c.prove(name, z3.Or(*[s == x for x in SIDES]))
    for x in SIDES:
        for y in SIDES:
            c.prove(name, z3.Implies(s == x, deviation2(f, a, x).t <= deviation2(f, a, y).t))


def check_axes(n, fig, ax, view, fv):
    c = ctx()
    o = fv[0]
    W, H = fv[1].x - fv[0].x, fv[2].y - fv[1].y
    if not ax.positions:
        return c.fail(n + ".rect", "the axes was not positioned")
    x, y, ww, hh = [R(v) for v in ax.positions[-1]]
    f = view["Frame"]
    c.prove(n + ".rect", (x * W).t == (f[0].x - o.x).t)
    c.prove(n + ".rect", (y * H).t == (f[0].y - o.y).t)
    c.prove(n + ".rect", (ww * W).t == (f[1].x - f[0].x).t)
    c.prove(n + ".rect", (hh * H).t == (f[2].y - f[1].y).t)
    for X, axis in (("X", ax.xaxis), ("Y", ax.yaxis)):
        k = X + "AxisLabel"
        if k in view:
            if not axis.label_coords:
                c.fail(n + ".label", f"{k} was not placed")
            else:
                lx, ly, tr = axis.label_coords[-1]
                c.prove(n + ".label", (R(lx) * W).t == (view[k].x - o.x).t)
                c.prove(n + ".label", (R(ly) * H).t == (view[k].y - o.y).t)
                if tr is not fig.transFigure:
                    c.fail(n + ".label-coordinates", "the label is not placed in figure coordinates")
                else:
                    c.prove(n + ".label-coordinates", True)
        elif axis.label_coords:
            c.fail(n + ".absent", f"absent {k} was placed")
        k = X + "Axis"
        if k in view:
            if not axis.ticks or not isinstance(axis.ticks[-1], (str, SymStr)):
                c.fail(n + ".ticks", f"ticks of {k}: {axis.ticks}")
            else:
                least(n + ".ticks", f, view[k], SymStr.of(axis.ticks[-1]).t)
        elif axis.ticks:
            c.fail(n + ".absent", f"ticks of absent {k} were moved")


def quad_view(q):
    return [P2(*[R(x) for x in q[f"Line{i}"]["Point0"].value]) for i in range(4)]


def position_terms(f, a):
    """The position of an axis, a function of the coordinates."""
    xs = [k.t for p in f + a for k in (p.x, p.y)]
    return z3.Function("axis_position", *[z3.RealSort()] * len(xs), z3.StringSort())(*xs)


def position_contract(w):
    """find_axis_position by its contract (proved as C21.position)."""
    def h(interp, fi, args, kw):
        names = [a.arg for a in fi.node.args.args]
        b = dict(zip(names, args))
        b.update(kw)
        if len(b) != 2:
            return NotImplemented
        f, a = [quad_view(b[k]) for k in names[:2]]
        c = ctx()
        c.report.contracts.add(fi.label)
        s = SymStr.term(position_terms(f, a))
        c.assume(z3.Or(*[s.t == o for o in SIDES]))
        return s
    w.it.contracts["mpllayout.matplotlibutils:find_axis_position"] = h


FLAGS = [f for f in itertools.product((False, True), repeat=4)
         if (f[0] or not f[2]) and (f[1] or not f[3])]


def prove(report, tier):
    w = World("matplotlibutils")
    mu = w.matplotlibutils
    case = Cases(report, "C20", w)
    position_contract(w)
    made = []

    def mkfig(interp, args, kw):
        f = fakes.Figure("newfig", figsize=tuple(kw.get("figsize", (1, 1))))
        made.append(f)
        return f
    w.it.models[plt.figure] = mkfig
    w.it.models[MplFigure] = mkfig

    def update(n, g, flags):
        root, fv, info = tree(g, flags)
        fig = fakes.Figure()
        axs = {k: fakes.Axes(fig, k) for k in info}
        other = fakes.Axes(fig, "other")
        r = evaluate(n, mu.update_subplots, root, "Figure", fig, dict(axs))
        f2, a2 = r
        c = ctx()
        (c.prove(n + ".returned", True) if f2 is fig and dict(a2) == axs else
         c.fail(n + ".returned", "figure and axes are not returned"))
        size(n, fig, fv)
        for k, ax in axs.items():
            check_axes(n, fig, ax, info[k], fv)
        if other.positions or other.xaxis.ticks or other.xaxis.label_coords:
            c.fail(n + ".others", "an axes that was not given was changed")

    def size(n, fig, fv):
        c = ctx()
        if not fig.sizes:
            return c.fail(n + ".figure", "the figure size was not set")
        c.prove(n + ".figure", z3.And(R(fig.sizes[-1][0]).t == (fv[1].x - fv[0].x).t,
                                      R(fig.sizes[-1][1]).t == (fv[2].y - fv[1].y).t))

    for fl in FLAGS:
        nm = "".join("xyXY"[i] for i in range(4) if fl[i]) or "none"
        case(f"update[{nm}]", lambda n, g, fl=fl: update(n, g, [fl]))
    case("update[no axes]", lambda n, g: update(n, g, []))
    case("update[two axes]", lambda n, g: update(n, g, [(True, False, False, False),
                                                        (False, True, False, False)]))

    def subplots(n, g, flags, keys):
        root, fv, info = tree(g, flags)
        del made[:]
        r = evaluate(n, mu.subplots, root, "Figure", keys) if keys is not None else \
            evaluate(n, mu.subplots, root, "Figure")
        fig, axs = r
        c = ctx()
        want = list(info) if keys is None else list(keys)
        if list(axs) != want or not isinstance(fig, fakes.Figure) or fig.axes != [axs[k] for k in want]:
            return c.fail(n + ".axes", f"axes created: {list(axs)}")
        c.prove(n + ".axes", True)
        size(n, fig, fv)
        for k in want:
            check_axes(n, fig, axs[k], info[k], fv)
    two = [(True, False, False, False), (False, False, False, False)]
    case("subplots", lambda n, g: subplots(n, g, two, None))
    case("subplots[keys]", lambda n, g: subplots(n, g, two, ["Axes1"]))
    from . import c20n
    w2 = World("matplotlibutils")
    position_contract(w2)
    c20n.prove_all(report, w2, Cases(report, "C20", w2))

    def rect(n, g):
        q, v = g.quad()
        o, s = P2(g.real("ox"), g.real("oy")), P2(g.real("sx"), g.real("sy"))
        c = ctx()
        c.assume(z3.And(s.x.t != 0, s.y.t != 0))
        r = [R(x) for x in flat4(evaluate(n, mu.rect_from_box, q, vec(*o), vec(*s)))]
        if len(r) != 4:
            return c.fail(n, "not four numbers")
        c.prove(n, (r[0] * s.x).t == (v[0].x - o.x).t)
        c.prove(n, (r[1] * s.y).t == (v[0].y - o.y).t)
        c.prove(n, (r[2] * s.x).t == (v[2].x - v[0].x).t)
        c.prove(n, (r[3] * s.y).t == (v[2].y - v[0].y).t)
    case("rect_from_box", rect)

    def wh(n, g):
        q, v = g.quad()
        same_values(n, np.array(flat4(evaluate(n, mu.width_and_height_from_quad, q)), dtype=object),
                    list(v[2] - v[0]))
    case("width_and_height_from_quad", wh)


def flat4(r):
    from ..models import native
    return [fakes.scalar(x) for x in list(native(r))]
