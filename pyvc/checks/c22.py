"""C22: geometry previews draw every primitive where it is."""
from fractions import Fraction

import matplotlib
matplotlib.use("Agg")
from matplotlib.patches import Polygon as MplPolygon

from .tree import *
from .world import *
from ..models import SymRows, is_subclass
from . import fakes


def rotation_is_direction(name, r, d):
    """r degrees is the direction angle of the vector d, modulo a full turn."""
    c = ctx()
    if not isinstance(r, (SymReal, int, float)):
        return c.fail(name, f"rotation {r!r}")
    r = R(r).t
    p = scal.pi().t
    ln = P2(d.x, d.y).norm.t
    for a, co, si in c.trig.values():
        for k in (0, 1, -1, 2, -2):
            if c.entails(r * p == 180 * a + 360 * k * p):
                c.prove(name, ln * co == d.x.t)
                c.prove(name, ln * si == d.y.t)
                return
    c.undecided(name, "the rotation is not recognised as an angle in degrees")


def prove(report, tier):
    w = World("ui")
    pr, ui, cn = w.pr, w.ui, w.cn
    w.it.symbolic_pi = True
    w.it.models[MplPolygon] = fakes.polygon_model
    case = Cases(report, "C22", w)

    def numbers(name, got, want):
        same_values(name, np.array([fakes.scalar(v) for v in got], dtype=object), list(want))

    def rotation(n, g):
        l, (a, b) = g.line()
        rotation_is_direction(n, evaluate(n, ui.rotation_from_line, l), b - a)
    case("rotation", rotation)

    def only(n, ax, **want):
        """Exactly this many artists of each kind."""
        c = ctx()
        for k in ("lines", "texts", "patches"):
            v = getattr(ax, k)
            if len(v) != want.get(k, 0):
                c.fail(f"{n}.{k}", f"{len(v)} {k} drawn instead of {want.get(k, 0)}")
                raise Infeasible()
        c.prove(n + ".once", True)

    def alpha(n, art, v):
        ctx().prove(n + ".opacity", eqz(art.kw.get("alpha", 1), v))

    LABELS = (None, "./L")

    def point(n, g):
        c = ctx()
        ax = fakes.PlotAxes()
        p, v = g.point()
        al = g.real("alpha")
        lab = LABELS[c.choose(2)]
        evaluate(n, ui.plot_point, ax, p, label=lab, alpha=al, color="red")
        only(n, ax, lines=1, texts=len(ax.texts))
        ln, = ax.lines
        numbers(n + ".at", ln.xs, [v.x])
        numbers(n + ".at", ln.ys, [v.y])
        alpha(n, ln, al)
        for t in ax.texts:
            numbers(n + ".label", t.xy, v)
            alpha(n, t, al)
    case("plot_point", point)

    def line(n, g):
        c = ctx()
        ax = fakes.PlotAxes()
        l, (a, b) = g.line()
        al = g.real("alpha")
        lab = LABELS[c.choose(2)]
        evaluate(n, ui.plot_line, ax, l, label=lab, alpha=al, color="red")
        if not ax.texts and lab is None:
            only(n, ax, lines=1)
        else:
            only(n, ax, lines=1, texts=1)
        ln, = ax.lines
        numbers(n + ".from-to", ln.xs, [a.x, b.x])
        numbers(n + ".from-to", ln.ys, [a.y, b.y])
        alpha(n, ln, al)
        for t in ax.texts:
            numbers(n + ".label-midpoint", t.xy, mid(a, b))
            alpha(n, t, al)
            rotation_is_direction(n + ".label-rotation", t.kw.get("rotation", 0), b - a)
    case("plot_line", line)

    def degenerate(n, g):
        ax = fakes.PlotAxes()
        p, v = g.point()
        q = pr.Point(value=vec(*v))
        evaluate(n, ui.plot_line, ax, pr.Line(prims=(p, q)), label=None, alpha=g.real("alpha"))
        ctx().prove(n, True)
    case("plot_line.zero-length", degenerate)

    def polygon(nv):
        def body(n, g):
            c = ctx()
            ax = fakes.PlotAxes()
            pts = [g.point() for _ in range(nv)]
            P = w.it.call(pr.Quadrilateral if nv == 4 and c.choose(2) else pr.Polygon,
                          [None, tuple(p for p, _ in pts)], {})
            al = g.real("alpha")
            lab = LABELS[c.choose(2)]
            evaluate(n, ui.plot_polygon, ax, P, label=lab, alpha=al, color="red")
            only(n, ax, patches=1, texts=len(ax.texts), lines=0)
            pt, = ax.patches
            xy = pt.xy
            if len(xy) == nv + 1:      # closed explicitly
                numbers(n + ".vertices", xy[nv], pts[0][1])
                xy = xy[:nv]
            if len(xy) != nv:
                return c.fail(n + ".vertices", f"{len(xy)} vertices instead of {nv}")
            for got, (_, v) in zip(xy, pts):
                numbers(n + ".vertices", got, v)
            alpha(n, pt, al * Fraction(1, 10))
            for t in ax.texts:
                alpha(n, t, al)
        return body

    def any_polygon(n, g):
        """A polygon with any number of vertices, as its constructor makes it."""
        c = ctx()
        np_ = SymInt(z3.Int("points"))
        c.assume(np_.t >= 1)
        X, Y = z3.Function("x", I, z3.RealSort()), z3.Function("y", I, z3.RealSort())

        def at(i):
            pts = c.store.setdefault("pts", {})
            k = z3.simplify(zint(i)).sexpr()
            if k not in pts:
                p = object.__new__(pr.Point)
                p.__dict__.update(_value=vec(SymReal(X(zint(i))), SymReal(Y(zint(i)))), _children={})
                c.store["pts"] = {**pts, k: p}
            return c.store["pts"][k]
        P = w.it.call(pr.Polygon, [None, VSeq.tab(np_, at)], {})
        ax = fakes.PlotAxes()
        al = g.real("alpha")
        evaluate(n, ui.plot_polygon, ax, P, label=LABELS[c.choose(2)], alpha=al, color="red")
        only(n, ax, patches=1, texts=len(ax.texts), lines=0)
        pt, = ax.patches
        alpha(n, pt, al * Fraction(1, 10))
        if not isinstance(pt.xy, SymRows):
            return c.undecided(n, "vertices")
        c.prove(n + ".vertices", pt.xy.shape[0] == np_)

        def vertex(i):
            numbers(n + ".vertices", pt.xy[i], at(i).value)
        c.each(n + ".vertices", np_, vertex)
    case("plot_polygon", any_polygon)
    for nv in (1, 2, 3, 4, 5):
        case(f"plot_polygon[{nv}]", polygon(nv))

    # ---- the tree is drawn node by node -----------------------------------------------
    tr = Trees(w)
    hgt = z3.Function("height", N, I)

    class Canvas(fakes.Fake):
        """An axes on which the plotting functions, by their contracts, leave events."""

        def __init__(self):
            self.log = PyList()

    def height_spec(node):
        c = ctx()
        t = term(node)
        c.assume(hgt(t) >= 0)
        return SymInt(hgt(t))
    nh = Rec(w, "containers:Node.node_height", height_spec)

    def height(n, g):
        """The contract of node_height that plot_prim relies on: it is not negative."""
        c = ctx()
        nd = tr.any()
        with nh:
            r = evaluate(n, nd.node_height)
        if isinstance(r, int) and not isinstance(r, bool):
            c.prove(n, r >= 0)
        elif isinstance(r, SymInt):
            c.prove(n, r.t >= 0)
        else:
            c.fail(n, f"height {r!r}")
        frame_clean(n + ".frame")
    case("node_height", height)
    case("node_height.overrides", lambda n, g: no_overrides(n, w, cn.Node, ("node_height", "items", "__len__")))

    def drawing(kind):
        def spec(ax, prim, label, kw):
            if not isinstance(ax, Canvas):
                return NotImplemented
            kw = dict(kw)
            a = kw.pop("alpha", 1)
            if kind == "polygon" and a == 1:
                pass                  # plot_polygon needs alpha: proved with it
            ax.log.append((kind, prim, a, tuple(sorted(kw)), label))
            return None

        def h(interp, fi, args, kw):
            names = [x.arg for x in fi.node.args.args]
            b = dict(zip(names, args))
            extra = dict(kw)
            for k in list(extra):
                if k in names:
                    b[k] = extra.pop(k)
            if len(names) < 2 or names[0] not in b or names[1] not in b:
                return NotImplemented
            return spec(b[names[0]], b[names[1]], b.get("label"), extra)
        label = f"mpllayout.ui:plot_{kind}"

        class On:
            def __enter__(self):
                w.it.contracts[label] = h

            def __exit__(self, *a):
                w.it.contracts.pop(label, None)
        return On()
    D = [drawing(k) for k in ("point", "line", "polygon")]

    class Prim:
        """plot_prim(ax, prim, key, depth, **kw): draws the whole tree of prim, with kw."""
        label = "mpllayout.ui:plot_prim"
        skip = 0

        def __call__(self, interp, fi, args, kw):
            if self.skip:
                self.skip -= 1
                return NotImplemented
            names = [x.arg for x in fi.node.args.args]
            b = dict(zip(names, args))
            extra = dict(kw)
            for k in list(extra):
                if k in names:
                    b[k] = extra.pop(k)
            if len(names) < 2 or names[0] not in b or names[1] not in b or \
                    not isinstance(b[names[0]], Canvas):
                return NotImplemented
            c = ctx()
            # precondition
            for k in ("alpha", "label"):
                if k in extra:
                    c.fail("C22.plot_prim.precondition", f"{k} is given twice")
            key = b.get("prim_key", "")
            if not isinstance(key, (str, SymStr)):
                c.fail("C22.plot_prim.precondition", "the key is not a string")
            c.prove("C22.plot_prim.precondition", True)
            b[names[0]].log.append(("tree", b[names[1]], None, tuple(sorted(extra)), key))
            return None

        def __enter__(self):
            w.it.contracts[self.label] = self
            for d in D:
                d.__enter__()

        def __exit__(self, *a):
            w.it.contracts.pop(self.label, None)
            for d in D:
                d.__exit__()
    rec = Prim()

    def log_of(n, ax):
        v = as_vseq(ax.log, w.it)
        return VSeq(v.segs)

    def subs(t, cls):
        r = is_subclass(SymType(typf(t), tr.Node), cls)
        return r.t if isinstance(r, SymBool) else z3.BoolVal(bool(r))

    KINDS = (("point", pr.Point), ("line", pr.Line), ("polygon", pr.Polygon))

    def exclusive(t):
        """No primitive is a point and a line at once, and so on (single inheritance)."""
        for i in range(3):
            for j in range(i):
                ctx().assume(z3.Not(z3.And(subs(t, KINDS[i][1]), subs(t, KINDS[j][1]))))

    def one(n, g):
        c = ctx()
        nd = tr.any()
        t = term(nd)
        exclusive(t)
        ax = Canvas()
        own_key = SymStr.term(z3.String("key"), noslash=True)
        above = SymStr.term(z3.String("above"), noslash=True)
        nested = above + "/" + own_key                 # a child, and a grandchild, of a child
        deeper = above + "/sub/" + own_key
        key = ("", own_key, SymStr.term(z3.String("path")), "Axes/Frame", nested, deeper)[c.choose(6)]
        depth = 1 if key is nested else 2 if key is deeper else 0
        if key is own_key or depth:
            c.assume(z3.Length(own_key.t) > 0)
        deep = c.choose(2)
        kw = {"max_label_depth": SymInt(z3.Int("maxdepth"))} if deep else {}
        rec.skip = 1
        evaluate(n, ui.plot_prim, ax, nd, key, color="red", **kw)
        rec.skip = 0
        got = log_of(n, ax)
        own = None
        for kind, cls in KINDS:
            if c.branch(subs(t, cls)):
                own = kind
        if own is not None:
            if not c.entails(zint(got.length()) >= 1):
                return c.fail(n + ".drawn", f"a {own} is not drawn")
            first = got.at(0)
            if not isinstance(first, tuple) or first[0] != own:
                return c.fail(n + ".drawn", f"a {own} is drawn as {first[0]}")
            c.prove(n + ".drawn", first[1] is nd)
            if not c.entails(R(first[2]).t <= 1) or not c.entails(R(first[2]).t * 5 >= 1):
                c.prove(n + ".opacity", R(first[2]).t <= 1)
                c.prove(n + ".opacity", R(first[2]).t * 5 >= 1)
            else:
                c.prove(n + ".opacity", True)
            c.prove(n + ".options", first[3] == ("color",))
            if isinstance(key, str):
                labelled(n + ".label", first[4], key, deep, key.count("/"))
            elif key is own_key or depth:
                labelled(n + ".label", first[4], own_key, deep, depth)
            got = got.drop(1)
        if own == "line":
            # its end points are not drawn
            c.prove(n + ".children", ieq(got.length(), 0))
            return
        c.prove(n + ".children", zint(got.length()) == nch(t))

        def child(i):
            e = got.at(i)
            if not isinstance(e, tuple) or e[0] != "tree":
                return c.fail(n + ".children", f"draws {e!r}")
            same(n + ".children", e[1], tr.node(childf(t, zint(i))))
            c.prove(n + ".options", e[3] == ("color",))
            same(n + ".keys", e[4], key + "/" + tr.keymap(t).key(i) if isinstance(key, str)
                 else key + SymStr.of("/") + tr.keymap(t).key(i))
        c.each(n + ".children", SymInt(nch(t)), child)
    def labelled(n, label, key, deep, depth):
        """The label ends in the primitive's own key; the previewed root has none."""
        c = ctx()
        if isinstance(key, str) and key == "":
            return c.prove(n, label is None)
        if label is None:
            # only below the depth that the caller asks for
            if not deep:
                return c.fail(n, "no label")
            return c.prove(n, z3.Int("maxdepth") < depth)
        last = z3.StringVal("/" + key.split("/")[-1]) if isinstance(key, str) else \
            z3.Concat(z3.StringVal("/"), key.t)
        if isinstance(label, str):
            label = SymStr.of(label)
        if not isinstance(label, SymStr):
            return c.fail(n, f"label {label!r}")
        c.prove(n, z3.SuffixOf(last, label.t))

    def within(body):
        # (the events of a loop are evaluated when they are looked at)
        def b(n, g):
            with rec:
                body(n, g)
        return b
    case("plot_prim", within(one))

    def whole(n, g):
        c = ctx()
        root = tr.any()
        t = term(root)
        ax = Canvas()
        evaluate(n, ui.plot_prims, ax, root, lambda x: (0, 0, 0, 1))
        got = log_of(n, ax)
        c.prove(n + ".children", zint(got.length()) == nch(t))

        def child(i):
            e = got.at(i)
            if not isinstance(e, tuple) or e[0] != "tree":
                return c.fail(n + ".children", f"draws {e!r}")
            same(n + ".children", e[1], tr.node(childf(t, zint(i))))
            same(n + ".keys", e[4], tr.keymap(t).key(i))
        c.each(n + ".children", SymInt(nch(t)), child)
    case("plot_prims", within(whole))

    def figure(n, g):
        """figure_prims draws the root's tree, once, in the axes of the figure it returns."""
        c = ctx()
        seen = []

        def h(interp, fi, args, kw):
            seen.append((args, kw))
            return None
        w.it.contracts["mpllayout.ui:plot_prims"] = h
        root = tr.any()
        try:
            r = evaluate(n, ui.figure_prims, root)
        finally:
            w.it.contracts.pop("mpllayout.ui:plot_prims")
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        from matplotlib.axes import Axes
        if not isinstance(r, tuple) or len(r) != 2 or not isinstance(r[0], Figure) or \
                not isinstance(r[1], Axes):
            return c.fail(n, f"returns {r!r}")
        plt.close(r[0])
        if len(seen) != 1 or r[1] not in r[0].axes:
            return c.fail(n, "the tree is not drawn once in the returned axes")
        args, kw = seen[0]
        b = dict(zip(("ax", "root_prim", "cmap"), args))
        b.update(kw)
        c.prove(n, b.get("ax") is r[1] and b.get("root_prim") is root)
    case("figure_prims", figure)
