"""C15: axes constraints place axes and labels where they say."""
from .world import *
from .c12 import residual
from . import fakes

OPP = {"bottom": "top", "top": "bottom", "left": "right", "right": "left"}


def axes_prim(g):
    """An axes with every child; the specification view by key."""
    pr = g.w.pr
    view, prims = {}, []
    for k in ("Frame", "XAxis", "XAxisLabel", "YAxis", "YAxisLabel", "TwinXAxis", "TwinXAxisLabel",
              "TwinYAxis", "TwinYAxisLabel"):
        p, v = g.point(k) if k.endswith("Label") else g.quad(k)
        prims.append(p)
        view[k] = v
    a = pr.Axes(None, tuple(prims), True, True, True, True)
    if list(a.keys()) != list(view):
        raise Unsupported("order of the children of an axes")
    return a, view


def thickness(fig, pos, bb, side):
    """Inches by which the box (pixels) extends beyond the axes (figure fractions)."""
    W, H, dpi = fig.W, fig.H, fig.dpi
    return {"bottom": pos.y0 * H - bb.y0 / dpi, "top": bb.y1 / dpi - pos.y1 * H,
            "left": pos.x0 * W - bb.x0 / dpi, "right": bb.x1 / dpi - pos.x1 * W}[side]


def fake_axis(side, bbox="box"):
    fig = fakes.Figure()
    ax = fakes.Axes(fig, "ax", fakes.box("pos"))
    bb = fakes.box("bb") if bbox == "box" else bbox
    return fakes.Axis(ax, "axis", bb, side), (lambda: thickness(fig, ax.pos, bb, side))


def prove(report, tier):
    w = World("constraints")
    cr = w.cr
    case = Cases(report, "C15", w)

    for X, sides in (("X", ("bottom", "top")), ("Y", ("left", "right"))):
        for s in sides:
            for twin in (False, True):
                def body(n, g, X=X, s=s, twin=twin):
                    a, v = axes_prim(g)

                    def coincide(key, side):
                        i = SIDES.index(side)
                        p, q = qside(v["Frame"], i)
                        u, t = qside(v[key], i + 2)
                        return [same_point(p, t), same_point(q, u)]
                    rel = coincide(X + "Axis", s)
                    if twin:
                        rel += coincide(f"Twin{X}Axis", OPP[s])
                    cls = cr.PositionXAxis if X == "X" else cr.PositionYAxis
                    for how, c in (("class", lambda: cls(side=s, twin=twin)),
                                   ("generic", lambda: cr.PositionAxis(axis=X.lower(), side=s, twin=twin))):
                        iff(f"{n}.{how}", residual(n, evaluate(n, c), [a]), rel)
                case(f"Position{X}Axis[{s},twin={twin}]", body)
        for twin in (False, True):
            def body(n, g, X=X, twin=twin):
                a, v = axes_prim(g)
                p, q = qside(v["Frame"], 0 if X == "X" else 1)
                d = q - p
                ctx().assume(z3.Or(d.x.t != 0, d.y.t != 0))
                t = g.real("t")
                x = v[("Twin" if twin else "") + X + "AxisLabel"]
                rel = eqz(t * d.n2, (x - p).dot(d))
                cls = cr.PositionXAxisLabel if X == "X" else cr.PositionYAxisLabel
                for how, c in (("class", lambda: cls(twin=twin)),
                               ("generic", lambda: cr.PositionAxisLabel(axis=X.lower(), twin=twin))):
                    iff(f"{n}.{how}", residual(n, evaluate(n, c), [a], t), rel)
            case(f"Position{X}AxisLabel[twin={twin}]", body)

        def size(v):
            return (v[2] - v[1]).y if X == "X" else (v[1] - v[0]).x

        def makers(X=X):
            return (("class", cr.XAxisThickness if X == "X" else cr.YAxisThickness),
                    ("generic", lambda: cr.AxisThickness(axis=X.lower())))

        def none(n, g, X=X):
            q, v = g.quad()
            d = (v[2] - v[1]).y if X == "X" else (v[1] - v[0]).x
            for how, c in makers(X):
                iff(f"{n}.{how}", residual(n, evaluate(n, c), [q], None), d.t == 0, 1)
        case(f"{X}AxisThickness[no axis]", none)

        def nobox(n, g, X=X):
            q, v = g.quad()
            d = (v[2] - v[1]).y if X == "X" else (v[1] - v[0]).x
            for how, c in makers(X):
                axis, _ = fake_axis("bottom" if X == "X" else "left", None)
                iff(f"{n}.{how}", residual(n, evaluate(n, c), [q], axis), d.t == 0, 1)
        case(f"{X}AxisThickness[no bounding box]", nobox)
        for s in sides:
            def body(n, g, X=X, s=s):
                q, v = g.quad()
                d = (v[2] - v[1]).y if X == "X" else (v[1] - v[0]).x
                axis, th = fake_axis(s)
                vis = axis.label.vis
                for how, c in makers(X):
                    iff(f"{n}.{how}", residual(n, evaluate(n, c), [q], axis), eqz(d, th()), 1)
                    ctx().prove(f"{n}.label", SymBool(as_bool(axis.label.vis) == vis.t))
            case(f"{X}AxisThickness[{s}]", body)


def as_bool(v):
    from ..core import as_z3bool
    return as_z3bool(v)
