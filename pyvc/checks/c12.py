"""C12: point and line constraints vanish exactly on the relation they name."""
from .world import *


def residual(name, c, prims, *params):
    return evaluate(name, c, tuple(prims), *params)


def prove(report, tier):
    w = World("constraints")
    cr = w.cr
    case = Cases(report, "C12", w)

    def rel(name, make, args):
        """args(g) -> prims, params, relation"""
        def body(n, g):
            prims, params, r = args(g)
            iff(n, residual(n, make(), prims, *params), r)
        case(name, body)

    def f(g):
        p, a = g.point()
        x, y = g.real("t.x"), g.real("t.y")
        return [p], (vec(x, y),), same_point(a, P2(x, y))
    rel("Fix", cr.Fix, f)

    def two(pick):
        def f(g):
            (p, a), (q, b), t = g.point(), g.point(), g.real("t")
            return pick(g, p, a, q, b, t)
        return f

    def f(g, p, a, q, b, t):
        x, y = g.real("d.x"), g.real("d.y")
        return [p, q], (vec(x, y), t), eqz((b - a).dot(P2(x, y)), t)
    rel("DirectedDistance", cr.DirectedDistance, two(f))
    rel("XDistance", cr.XDistance, two(lambda g, p, a, q, b, t: ([p, q], (t,), eqz((b - a).x, t))))
    rel("YDistance", cr.YDistance, two(lambda g, p, a, q, b, t: ([p, q], (t,), eqz((b - a).y, t))))
    rel("Coincident", cr.Coincident, two(lambda g, p, a, q, b, t: ([p, q], (), same_point(a, b))))

    def one(pick):
        def f(g):
            l, (a, b) = g.line(nonzero=False)
            return pick(g, l, b - a, g.real("t"))
        return f

    def f(g, l, v, t):
        x, y = g.real("d.x"), g.real("d.y")
        return [l], (vec(x, y), t), eqz(v.dot(P2(x, y)), t)
    rel("Length", cr.Length, one(lambda g, l, v, t: ([l], (t,), z3.And(t.t >= 0, t.t * t.t == v.n2.t))))
    rel("DirectedLength", cr.DirectedLength, one(f))
    rel("XLength", cr.XLength, one(lambda g, l, v, t: ([l], (t,), eqz(v.x, t))))
    rel("YLength", cr.YLength, one(lambda g, l, v, t: ([l], (t,), eqz(v.y, t))))
    rel("Vertical", cr.Vertical, one(lambda g, l, v, t: ([l], (), v.x.t == 0)))
    rel("Horizontal", cr.Horizontal, one(lambda g, l, v, t: ([l], (), v.y.t == 0)))

    def pair(pick, nonzero=(False, False)):
        def f(g):
            l, s = g.line("l", nonzero=nonzero[0])
            m, t = g.line("m", nonzero=nonzero[1])
            return pick(g, l, s, m, t)
        return f

    def f(g, l, s, m, t):
        k = g.real("k")
        return [l, m], (k,), eqz((s[1] - s[0]).norm, k * (t[1] - t[0]).norm)
    rel("RelativeLength", cr.RelativeLength, pair(f))

    def md(ax):
        def f(g, l, s, m, t):
            k = g.real("k")
            return [l, m], (k,), eqz(getattr(mid(*t) - mid(*s), ax), k)
        return f
    rel("MidpointXDistance", cr.MidpointXDistance, pair(md("x")))
    rel("MidpointYDistance", cr.MidpointYDistance, pair(md("y")))
    rel("Orthogonal", cr.Orthogonal,
        pair(lambda g, l, s, m, t: ([l, m], (), (s[1] - s[0]).dot(t[1] - t[0]).t == 0)))
    rel("Parallel", cr.Parallel,
        pair(lambda g, l, s, m, t: ([l, m], (), (s[1] - s[0]).cross(t[1] - t[0]).t == 0)))

    def f(g, l, s, m, t):
        u = s[1] - s[0]
        return [l, m], (), z3.And(u.cross(t[0] - s[0]).t == 0, u.cross(t[1] - s[0]).t == 0)
    rel("Collinear", cr.Collinear, pair(f, (True, False)))

    for rev in (False, True):
        def f(g, l, s, m, t, rev=rev):
            if rev:
                t = t[::-1]
            return [l, m], (rev,), z3.And(same_point(s[0], t[0]), same_point(s[1], t[1]))
        rel(f"CoincidentLines[reverse={rev}]", cr.CoincidentLines, pair(f))

    def angle(n, g):
        l, (a, b) = g.line("l")
        m, (e, f) = g.line("m")
        u, v, t = b - a, f - e, g.real("t")
        r = flat(residual(n, cr.Angle(), [l, m], t))
        c = ctx()
        if len(r) != 1:
            return c.fail(n, "size of the residual")
        # residual = a - target with a the angle from the first to the second direction
        ang = R(r[0]) + t
        p = scal.pi()
        c.prove(n + ".range", z3.And(ang.t >= -p.t, ang.t <= p.t))
        cs = scal.cos_sin(ang)
        if cs is None:
            raise Unsupported("residual + target is not a combination of axiomatised angles")
        nn = u.norm * v.norm
        c.prove(n + ".cos", nn.t * cs[0].t == u.dot(v).t)
        c.prove(n + ".sin", nn.t * cs[1].t == u.cross(v).t)
    case("Angle", angle)

    for rev in (False, True):
        for what in ("PointOnLineDistance", "RelativePointOnLineDistance", "PointToLineDistance"):
            def args(g, rev=rev, what=what):
                p, x = g.point()
                l, (a, b) = g.line()
                t = g.real("t")
                d = b - a
                if what == "PointToLineDistance":
                    m, k = d.cross(x - a) * (-1 if rev else 1), d.norm
                else:
                    m = (b - x).dot(d) if rev else (x - a).dot(d)
                    k = d.norm if what == "PointOnLineDistance" else d.n2
                return [p, l], (rev, t), eqz(t * k, m)
            rel(f"{what}[reverse={rev}]", getattr(cr, what), args)
