"""C07: measurements equal their Euclidean definitions (proved over exact reals)."""
from .world import *


def prove(report, tier):
    w = World("constructions")
    con = w.con
    NAME = "C07."

    def case(name, body):
        def run(c):
            g = Geo(w)
            body(name, g)
            c.cover(NAME + name)
        explore(report, run, NAME + name + ".paths")

    def value(name, c, prims, *params):
        return evaluate(NAME + name, c, tuple(prims), *params)

    def check(name, c, prims, params, want):
        want = list(want) if isinstance(want, (list, tuple, P2)) else [want]
        same_values(NAME + name, value(name, c(), prims, *params), want)

    def simple(name, make, args):
        """args(g) -> prims, params, expected components"""
        def body(n, g):
            prims, params, want = args(g)
            check(n, make, prims, params, want)
        case(name, body)

    def a_point(g):
        p, v = g.point()
        return [p], (), v
    simple("Coordinate", con.Coordinate, a_point)

    def dirvec(g):
        x, y = g.real("d.x"), g.real("d.y")
        return vec(x, y), P2(x, y)

    def dd(pick):
        def f(g):
            p, a = g.point()
            q, b = g.point()
            return pick(g, p, a, q, b)
        return f
    def f(g, p, a, q, b):
        dv, d = dirvec(g)
        return [p, q], (dv,), (b - a).dot(d)
    simple("DirectedDistance", con.DirectedDistance, dd(f))
    simple("XDistance", con.XDistance, dd(lambda g, p, a, q, b: ([p, q], (), (b - a).x)))
    simple("YDistance", con.YDistance, dd(lambda g, p, a, q, b: ([p, q], (), (b - a).y)))

    def ln(pick, nonzero=False):
        def f(g):
            l, (a, b) = g.line(nonzero=nonzero)
            return pick(g, l, a, b)
        return f
    simple("LineVector", con.LineVector, ln(lambda g, l, a, b: ([l], (), b - a)))
    simple("Length", con.Length, ln(lambda g, l, a, b: ([l], (), (b - a).norm)))
    simple("UnitLineVector", con.UnitLineVector,
           ln(lambda g, l, a, b: ([l], (), (b - a) * (1 / (b - a).norm)), True))

    def f(g, l, a, b):
        dv, d = dirvec(g)
        return [l], (dv,), (b - a).dot(d)
    simple("DirectedLength", con.DirectedLength, ln(f))
    simple("XLength", con.XLength, ln(lambda g, l, a, b: ([l], (), (b - a).x)))
    simple("YLength", con.YLength, ln(lambda g, l, a, b: ([l], (), (b - a).y)))
    simple("Midpoint", con.Midpoint, ln(lambda g, l, a, b: ([l], (), mid(a, b))))

    def ll(pick, nonzero=False):
        def f(g):
            l, s = g.line(nonzero=nonzero)
            m, t = g.line(nonzero=nonzero)
            return pick(g, l, s, m, t)
        return f

    def f(g, l, s, m, t):
        dv, d = dirvec(g)
        return [l, m], (dv,), (mid(*t) - mid(*s)).dot(d)
    simple("MidpointDirectedDistance", con.MidpointDirectedDistance, ll(f))
    simple("MidpointXDistance", con.MidpointXDistance,
           ll(lambda g, l, s, m, t: ([l, m], (), (mid(*t) - mid(*s)).x)))
    simple("MidpointYDistance", con.MidpointYDistance,
           ll(lambda g, l, s, m, t: ([l, m], (), (mid(*t) - mid(*s)).y)))

    def angle(n, g):
        l, (a, b) = g.line("l")
        m, (e, f) = g.line("m")
        u, v = b - a, f - e
        c = ctx()
        r = flat(value(n, con.Angle(), [l, m]))
        if len(r) != 1:
            return c.fail(NAME + n, "shape")
        ang = r[0]
        p = scal.pi()
        c.prove(NAME + n + ".range", z3.And(ang.t >= -p.t, ang.t <= p.t))
        cs = scal.cos_sin(ang)
        if cs is None:
            raise Unsupported("the angle is not a combination of axiomatised angles")
        co, si = cs
        # turning the first direction by the angle gives the second:
        # (|u||v|)(cos, sin) = (dot, cross)
        nn = u.norm * v.norm
        c.prove(NAME + n + ".cos", nn.t * co.t == u.dot(v).t)
        c.prove(NAME + n + ".sin", nn.t * si.t == u.cross(v).t)
    case("Angle", angle)

    def pl(what):
        for rev in (False, True):
            def body(n, g, rev=rev):
                p, x = g.point()
                l, (a, b) = g.line()
                d = b - a
                L = d.norm
                along = ((x - b).dot(d) * -1 if rev else (x - a).dot(d))
                off = d.cross(x - a) * (-1 if rev else 1)
                c = {"PointOnLineDistance": con.PointOnLineDistance,
                     "RelativePointOnLineDistance": con.RelativePointOnLineDistance,
                     "PointToLineDistance": con.PointToLineDistance}[what]
                r = flat(value(n, c(), [p, l], rev))
                if len(r) != 1:
                    return ctx().fail(NAME + n, "shape")
                if what == "PointOnLineDistance":
                    ctx().prove(NAME + n, r[0].t * L.t == along.t)
                elif what == "RelativePointOnLineDistance":
                    ctx().prove(NAME + n, r[0].t * d.n2.t == along.t)
                else:
                    ctx().prove(NAME + n, r[0].t * L.t == off.t)
            case(f"{what}[reverse={rev}]", body)
    for k in ("PointOnLineDistance", "RelativePointOnLineDistance", "PointToLineDistance"):
        pl(k)

    def qd(pick):
        def f(g):
            q, v = g.quad()
            return [q], (), pick(v)
        return f
    wd = lambda v: (v[1] - v[0]).x
    ht = lambda v: (v[2] - v[1]).y
    simple("Width", con.Width, qd(wd))
    simple("Height", con.Height, qd(ht))
    simple("RectangleDim[width]", lambda: con.RectangleDim(dim="width"), qd(wd))
    simple("RectangleDim[height]", lambda: con.RectangleDim(dim="height"), qd(ht))

    def aspect(n, g):
        q, v = g.quad()
        b, r = v[1] - v[0], v[2] - v[1]
        c = ctx()
        c.assume(z3.Or(r.x.t != 0, r.y.t != 0))
        got = flat(value(n, con.AspectRatio(), [q]))
        if len(got) != 1:
            return c.fail(NAME + n, "shape")
        c.prove(NAME + n, got[0].t * r.norm.t == b.norm.t)
    case("AspectRatio", aspect)

    for s in SIDES:
        for outer in (True, False):
            def args(g, s=s, outer=outer):
                q, v = g.quad()
                r, u = g.quad()
                i = SIDES.index(s)
                o = i + 2 if outer else i
                a, b = mid(*qside(v, i)), mid(*qside(u, o))
                d = b - a
                k = d.x if s in ("left", "right") else d.y
                return [q, r], (), (k if s in ("right", "top") else -k)
            nm = ("Outer" if outer else "Inner") + "Margin"
            simple(f"{nm}[{s}]", lambda nm=nm, s=s: getattr(con, nm)(side=s), args)
            simple(f"Margin[{nm},{s}]", lambda outer=outer, s=s: con.Margin(outer=outer, side=s), args)
