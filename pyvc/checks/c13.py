"""C13: quadrilateral constraints vanish exactly on the arrangement they name."""
from .world import *
from .c12 import residual


def margin(v, u, outer, s):
    i = SIDES.index(s)
    d = mid(*qside(u, i + 2 if outer else i)) - mid(*qside(v, i))
    k = d.x if s in ("left", "right") else d.y
    return k if s in ("right", "top") else -k


def collinear(s, t):
    u = s[1] - s[0]
    return z3.And(u.cross(t[0] - s[0]).t == 0, u.cross(t[1] - s[0]).t == 0)


def nonzero(v):
    ctx().assume(z3.Or(v.x.t != 0, v.y.t != 0))


def prove(report, tier):
    w = World("constraints")
    cr = w.cr
    case = Cases(report, "C13", w)

    def rel(name, make, args, size=None):
        def body(n, g):
            prims, params, r = args(g)
            iff(n, residual(n, make(), prims, *params), r, size)
        case(name, body)

    def f(g):
        q, v = g.quad()
        return [q], (), [v[0].y.t == v[1].y.t, v[2].y.t == v[3].y.t, v[1].x.t == v[2].x.t, v[3].x.t == v[0].x.t]
    rel("Box", cr.Box, f)

    def f(g):
        q, v = g.quad()
        t = g.real("t")
        return [q], (t,), eqz((v[1] - v[0]).x, t)
    rel("Width", cr.Width, f)

    def f(g):
        q, v = g.quad()
        t = g.real("t")
        return [q], (t,), eqz((v[2] - v[1]).y, t)
    rel("Height", cr.Height, f)

    def f(g):
        q, v = g.quad()
        t = g.real("t")
        nonzero(v[2] - v[1])
        return [q], (t,), eqz((v[1] - v[0]).norm, t * (v[2] - v[1]).norm)
    rel("AspectRatio", cr.AspectRatio, f)

    for s in SIDES:
        for outer in (True, False):
            def f(g, s=s, outer=outer):
                (q, v), (r, u) = g.quad(), g.quad()
                t = g.real("t")
                return [q, r], (t,), eqz(margin(v, u, outer, s), t)
            nm = ("Outer" if outer else "Inner") + "Margin"
            rel(f"{nm}[{s}]", lambda nm=nm, s=s: getattr(cr, nm)(side=s), f)

    # the named arrangement: separated / nested boxes have positive margins
    for s in SIDES:
        for outer in (True, False):
            def body(n, g, s=s, outer=outer):
                (q, v), (r, u) = g.frame(), g.frame()
                c = ctx()
                for z in (v, u):
                    c.assume(z3.And(z[0].x.t < z[1].x.t, z[1].y.t < z[2].y.t))
                t = g.real("t")
                if outer:       # the second box lies beyond side s of the first
                    gap = {"left": v[0].x - u[1].x, "right": u[0].x - v[1].x,
                           "bottom": v[0].y - u[2].y, "top": u[0].y - v[2].y}[s]
                else:           # the first box lies within the second on side s
                    gap = {"left": v[0].x - u[0].x, "right": u[1].x - v[1].x,
                           "bottom": v[0].y - u[0].y, "top": u[2].y - v[2].y}[s]
                k = (cr.OuterMargin if outer else cr.InnerMargin)(side=s)
                iff(n, residual(n, k, [q, r], t), eqz(gap, t), 1)
            case(f"boxes.{'outer' if outer else 'inner'}[{s}]", body)

    for row, (i, j) in ((True, (0, 2)), (False, (3, 1))):
        def f(g, i=i, j=j):
            (q, v), (r, u) = g.quad(), g.quad()
            for k in (i, j):
                a, b = qside(v, k)
                nonzero(b - a)
            return [q, r], (), [collinear(qside(v, i), qside(u, i)), collinear(qside(v, j), qside(u, j))]
        nm = "AlignRow" if row else "AlignColumn"
        rel(nm, getattr(cr, nm), f)
        rel(f"Align[row={row}]", lambda row=row: cr.Align(row=row), f)

    for s in SIDES:
        def f(g, s=s):
            (q, v), (r, u) = g.quad(), g.quad()
            i = SIDES.index(s)
            a, b = qside(v, i)
            d, e = qside(u, i + 2)
            return [q, r], (), [same_point(a, e), same_point(b, d)]
        rel(f"CoincidentOutwardFaces[{s}]", lambda s=s: cr.CoincidentOutwardFaces(side=s), f)

    # margin arrays: end to end for small sizes, and for every size through the contracts
    top = 4 if tier == "quick" else 7
    for s in SIDES:
        for n_ in range(1, top + 1):
            def body(n, g, s=s, k=n_):
                qs = [g.quad() for _ in range(k)]
                ts = [g.real("t") for _ in range(k - 1)]
                for c, shape in ((cr.OuterMarginArray(shape=k, side=s), "int"),
                                 (cr.OuterMarginArray(shape=(k,), side=s), "tuple")):
                    r = flat(residual(n, c, [q for q, _ in qs], *ts))
                    if len(r) != k - 1:
                        ctx().fail(n, f"size {len(r)}")
                        continue
                    for x, a, b, t in zip(r, qs, qs[1:], ts):
                        ctx().prove(n, R(x).t == (margin(a[1], b[1], True, s) - t).t)
            case(f"OuterMarginArray[{s},{n_}]", body)
    from . import c14
    w = World("constraints")
    c14.array_models(w)
    c14.prove_arrays(w, Cases(report, "C13", w), c14.Grids(w))
