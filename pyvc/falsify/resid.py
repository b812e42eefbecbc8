"""Executable contracts of C12..C15: residual zero if and only if the relation holds."""
from __future__ import annotations

import math

import numpy as np

from mpllayout import primitives as pr
from mpllayout import constructions as con
from mpllayout import constraints as cr

from . import gen
from .gen import close, side, verts, mkline, mkquad, box
from .cons import value, xy, ends, vec, cross, mid, margin, true_angle, SIDES, SIDX
from .base import Case, Fail, need, raises


def residual(c, prims, params):
    return value(c, prims, *params)


def is_zero(c, prims, params, what, **info):
    r = residual(c, prims, params)
    need(bool(np.all(np.abs(r) < 1e-7)), f"{what}: residual {r} although the relation holds",
         prims=prims, params=params, **info)


def nonzero(c, prims, params, what, **info):
    r = residual(c, prims, params)
    need(r.size > 0 and bool(np.any(np.abs(r) > 1e-9)) and not np.any(np.isnan(r)),
         f"{what}: residual {r} although the relation does not hold", prims=prims, params=params, **info)


def decide(c, prims, params, holds, what, **info):
    (is_zero if holds else nonzero)(c, prims, params, what, **info)


def off(rng):
    """A clearly non-zero deviation."""
    return rng.choice([-1, 1]) * rng.choice([0.01, 0.3, 1.0, 2.5, 7.0])


# ---- C12 ------------------------------------------------------------------------------

def target_case(c, prims, params, measure, rng, what):
    """Constraint on a scalar measurement: zero exactly at target == measure."""
    is_zero(c, prims, params + (measure,), what)
    nonzero(c, prims, params + (measure + off(rng),), what)
    for other in (-measure, 2 * measure, 1 - measure, 1 / measure if abs(measure) > 1e-3 else 5.):
        if abs(other - measure) > 1e-4:
            nonzero(c, prims, params + (other,), what + " (related wrong target)")


def c12_points(rng):
    p, q = gen.point(rng), gen.point(rng)
    d = np.array([gen.num(rng), gen.num(rng)])
    e = xy(q) - xy(p)
    is_zero(cr.Fix(), [p], (xy(p),), "Fix")
    for dx in ((off(rng), 0.), (0., off(rng)), (off(rng), off(rng))):
        nonzero(cr.Fix(), [p], (xy(p) + dx,), "Fix")
    target_case(cr.DirectedDistance(), [p, q], (d,), float(e @ d), rng, "DirectedDistance")
    target_case(cr.XDistance(), [p, q], (), float(e[0]), rng, "XDistance")
    target_case(cr.YDistance(), [p, q], (), float(e[1]), rng, "YDistance")
    is_zero(cr.Coincident(), [p, pr.Point(xy(p))], (), "Coincident")
    for dx in ((off(rng), 0.), (0., off(rng)), (1., -1.), (2., 2.)):
        nonzero(cr.Coincident(), [p, pr.Point(xy(p) + dx)], (), "Coincident")


def c12_line(rng):
    l = gen.line(rng)
    d = np.array([gen.num(rng), gen.num(rng)])
    v = vec(l)
    target_case(cr.Length(), [l], (), math.hypot(*v), rng, "Length")
    target_case(cr.DirectedLength(), [l], (d,), float(v @ d), rng, "DirectedLength")
    target_case(cr.XLength(), [l], (), float(v[0]), rng, "XLength")
    target_case(cr.YLength(), [l], (), float(v[1]), rng, "YLength")
    a = xy(gen.point(rng))
    h, w = off(rng), off(rng)
    decide(cr.Horizontal(), [mkline(*a, a[0] + w, a[1])], (), True, "Horizontal")
    decide(cr.Horizontal(), [mkline(*a, a[0] + w, a[1] + h)], (), False, "Horizontal")
    decide(cr.Horizontal(), [mkline(*a, a[0], a[1] + h)], (), False, "Horizontal")
    decide(cr.Vertical(), [mkline(*a, a[0], a[1] + h)], (), True, "Vertical")
    decide(cr.Vertical(), [mkline(*a, a[0] + w, a[1] + h)], (), False, "Vertical")
    decide(cr.Vertical(), [mkline(*a, a[0] + w, a[1])], (), False, "Vertical")
    decide(cr.Vertical(), [gen.line(rng, degenerate=True)], (), True, "Vertical (zero line)")


def c12_lines(rng):
    l, m = gen.line(rng), gen.line(rng)
    u, v = vec(l), vec(m)
    target_case(cr.RelativeLength(), [l, m], (), math.hypot(*u) / math.hypot(*v), rng, "RelativeLength")
    e = mid(ends(m)) - mid(ends(l))
    target_case(cr.MidpointXDistance(), [l, m], (), float(e[0]), rng, "MidpointXDistance")
    target_case(cr.MidpointYDistance(), [l, m], (), float(e[1]), rng, "MidpointYDistance")
    th = true_angle(u, v)
    if abs(abs(th) - math.pi) > 1e-3:
        is_zero(cr.Angle(), [l, m], (th,), "Angle")
    for t in (-th, th + 0.1, th - 0.5, math.pi - th, th + math.pi / 2):
        if abs((t - th + math.pi) % (2 * math.pi) - math.pi) > 1e-3:
            nonzero(cr.Angle(), [l, m], (t,), "Angle")


def at(p, d):
    return pr.Line(prims=(pr.Point(np.array(p, float)), pr.Point(np.array(p, float) + d)))


def c12_directions(rng):
    l = gen.line(rng)
    u = vec(l)
    n = np.array([-u[1], u[0]])
    p = xy(gen.point(rng))
    s = rng.choice([1., -1., 2., -0.5])
    o = off(rng)
    decide(cr.Orthogonal(), [l, at(p, s * n)], (), True, "Orthogonal")
    decide(cr.Orthogonal(), [l, at(p, s * n + o * u)], (), False, "Orthogonal")
    decide(cr.Parallel(), [l, at(p, s * u)], (), True, "Parallel")
    decide(cr.Parallel(), [l, at(p, s * u + o * n)], (), False, "Parallel")
    a, _ = ends(l)
    on = a + rng.choice([0., 0.5, 1., -2., 3.]) * u
    decide(cr.Collinear(), [l, at(on, s * u)], (), True, "Collinear")
    decide(cr.Collinear(), [l, at(on + o * n, s * u)], (), False, "Collinear (shifted)")
    decide(cr.Collinear(), [l, at(on, s * u + o * n)], (), False, "Collinear (turned)")
    decide(cr.Collinear(), [l, at(a, s * u + o * n)], (), False, "Collinear (turned at the start)")
    k = mkline(*(on + o * n), *on)
    decide(cr.Collinear(), [l, k], (), False, "Collinear (only the end on the line)")


def c12_coincident_lines(rng):
    l = gen.line(rng)
    a, b = ends(l)
    for rev in (False, True):
        p, q = (b, a) if rev else (a, b)
        is_zero(cr.CoincidentLines(), [l, mkline(*p, *q)], (rev,), f"CoincidentLines reverse={rev}")
        nonzero(cr.CoincidentLines(), [l, mkline(*q, *p)], (rev,), f"CoincidentLines reverse={rev}")
        for i in range(4):
            x = [*p, *q]
            x[i] += off(rng)
            nonzero(cr.CoincidentLines(), [l, mkline(*x)], (rev,), f"CoincidentLines reverse={rev}")


def c12_point_line(rng):
    l, p = gen.line(rng), gen.point(rng)
    a, b = ends(l)
    L = math.hypot(*(b - a))
    u = (b - a) / L
    n = np.array([-u[1], u[0]])
    for rev in (False, True):
        along = float((xy(p) - b) @ -u if rev else (xy(p) - a) @ u)
        away = float((xy(p) - a) @ n * (-1 if rev else 1))
        target_case(cr.PointOnLineDistance(), [p, l], (rev,), along, rng, f"PointOnLineDistance {rev}")
        target_case(cr.RelativePointOnLineDistance(), [p, l], (rev,), along / L, rng,
                    f"RelativePointOnLineDistance {rev}")
        target_case(cr.PointToLineDistance(), [p, l], (rev,), away, rng, f"PointToLineDistance {rev}")


C12 = [Case("points", c12_points, 12, 150), Case("line", c12_line, 12, 150),
       Case("lines", c12_lines, 12, 150), Case("directions", c12_directions, 20, 250),
       Case("coincident lines", c12_coincident_lines, 12, 150),
       Case("point/line", c12_point_line, 8, 100)]


# ---- C13 ------------------------------------------------------------------------------

def c13_box(rng):
    x, y, w, h = [gen.num(rng) for _ in range(4)]
    w, h = w or 1., h or 2.
    pts = np.array(verts(box(x, y, w, h)))
    is_zero(cr.Box(), [mkquad(pts)], (), "Box")
    for i in range(4):
        for d in range(2):
            m = pts.copy()
            m[i, d] += off(rng)
            nonzero(cr.Box(), [mkquad(m)], (), "Box with one vertex moved")
    for i in range(4):     # exactly one of the four conditions broken is impossible: two each
        m = pts.copy()
        m[[i, (i + 1) % 4]] += np.array([off(rng), off(rng)])
        nonzero(cr.Box(), [mkquad(m)], (), "Box with one side moved")


def c13_scalar(rng):
    q, r = gen.quad(rng), gen.quad(rng)
    b, s = side(q, 0), side(q, 1)
    def tc(c, prims, m, what):
        is_zero(c, prims, (m,), what)
        nonzero(c, prims, (m + off(rng),), what)
        for o in (-m, 2 * m):
            if abs(o - m) > 1e-4:
                nonzero(c, prims, (o,), what)
    tc(cr.Width(), [q], float((b[1] - b[0])[0]), "Width")
    tc(cr.Height(), [q], float((s[1] - s[0])[1]), "Height")
    tc(cr.AspectRatio(), [q], math.hypot(*(b[1] - b[0])) / math.hypot(*(s[1] - s[0])), "AspectRatio")
    for sd in SIDES:
        tc(cr.OuterMargin(side=sd), [q, r], float(margin(q, r, True, sd)), f"OuterMargin {sd}")
        tc(cr.InnerMargin(side=sd), [q, r], float(margin(q, r, False, sd)), f"InnerMargin {sd}")


def c13_named(rng):
    """Signs: separated (outer) and nested (inner) boxes have positive margins."""
    g = rng.choice([0.5, 1.0, 3.0])
    q = box(0, 0, 4, 3)
    outer = {"left": box(-g - 2, 1, 2, 1), "right": box(4 + g, 1, 2, 1),
             "bottom": box(1, -g - 2, 1, 2), "top": box(1, 3 + g, 1, 2)}
    inner = box(0.25, 0.5, 3, 1.5)
    ins = {"left": .25, "right": .75, "bottom": .5, "top": 1.}
    for s in SIDES:
        is_zero(cr.OuterMargin(side=s), [q, outer[s]], (g,), f"OuterMargin {s}")
        nonzero(cr.OuterMargin(side=s), [q, outer[s]], (-g,), f"OuterMargin {s}")
        # the inner margin of the contained quadrilateral inside the containing one
        m = margin(inner, q, False, s)
        need(abs(m - ins[s]) < 1e-9, "oracle")
        is_zero(cr.InnerMargin(side=s), [inner, q], (ins[s],), f"InnerMargin {s}")
        nonzero(cr.InnerMargin(side=s), [q, inner], (ins[s],), f"InnerMargin {s}")


def c13_margin_array(rng):
    n = rng.choice([1, 2, 3, 4, 5, 12])
    sd = rng.choice(SIDES)
    qs = [gen.quad(rng) for _ in range(n)]
    c = cr.OuterMarginArray(shape=rng.choice([n, (n,)]), side=sd)
    ms = [float(margin(a, b, True, sd)) for a, b in zip(qs[:-1], qs[1:])]
    r = residual(c, qs, tuple(ms))
    need(r.shape == (n - 1,) and bool(np.all(np.abs(r) < 1e-7)), f"OuterMarginArray {sd}: residual {r}",
         n=n, margins=ms)
    for i in range(n - 1):
        bad = list(ms)
        bad[i] += off(rng)
        nonzero(c, qs, tuple(bad), f"OuterMarginArray {sd} with target {i} wrong", n=n)
    for i in range(n - 1):
        for j in range(i):
            if abs(ms[i] - ms[j]) > 1e-4:
                bad = list(ms)
                bad[i], bad[j] = bad[j], bad[i]
                nonzero(c, qs, tuple(bad), f"OuterMarginArray {sd} with targets {i}, {j} swapped", n=n)


def ext(seg, t0, t1, nrm):
    """A segment along the line of seg, moved by nrm along its normal."""
    a, b = seg
    d = b - a
    n = np.array([-d[1], d[0]])
    return a + t0 * d + nrm * n, a + t1 * d + nrm * n


def c13_align(rng):
    q = gen.quad(rng)
    for row, (i, j) in ((True, (0, 2)), (False, (3, 1))):
        c = [cr.AlignRow, cr.AlignColumn][not row]() if rng.random() < .5 else cr.Align(row=row)
        what = f"Align row={row}"

        def other(di, dj):
            si = ext(side(q, i), rng.choice([0., 1.5, -2.]), rng.choice([0.5, 2., 3.]), di)
            sj = ext(side(q, j), rng.choice([0., 1.5, -2.]), rng.choice([0.5, 2., 3.]), dj)
            v = [None] * 4
            v[i], v[(i + 1) % 4] = si
            v[j], v[(j + 1) % 4] = sj
            return mkquad(v)
        is_zero(c, [q, other(0., 0.)], (), what)
        nonzero(c, [q, other(off(rng), 0.)], (), what + " (first pair of sides broken)")
        nonzero(c, [q, other(0., off(rng))], (), what + " (second pair of sides broken)")
        r = other(0., 0.)
        v = verts(r)
        k = rng.randrange(4)
        d = v[(k + 1) % 4] - v[k] if k in (i, j) else v[k] - v[(k - 1) % 4]
        n = np.array([-d[1], d[0]])
        if np.hypot(*n) > 0.05:
            v[k] = v[k] + off(rng) * n
            nonzero(c, [q, mkquad(v)], (), what + " (one vertex off)")


def c13_boxes(rng):
    """Axis-aligned boxes: row alignment fixes bottom and top, not left and right."""
    q = box(0, 0, 2, 1)
    is_zero(cr.AlignRow(), [q, box(5, 0, 3, 1)], (), "AlignRow")
    nonzero(cr.AlignRow(), [q, box(5, 0, 3, 2)], (), "AlignRow")
    nonzero(cr.AlignRow(), [q, box(5, -1, 3, 2)], (), "AlignRow")
    nonzero(cr.AlignRow(), [q, box(0, 3, 2, 1)], (), "AlignRow")
    is_zero(cr.AlignColumn(), [q, box(0, 4, 2, 3)], (), "AlignColumn")
    nonzero(cr.AlignColumn(), [q, box(0, 4, 1, 3)], (), "AlignColumn")
    nonzero(cr.AlignColumn(), [q, box(-1, 4, 3, 3)], (), "AlignColumn")


def c13_faces(rng):
    q = gen.quad(rng)
    for s in SIDES:
        c = cr.CoincidentOutwardFaces(side=s)
        i = SIDX[s]
        o = (i + 2) % 4
        v = [xy(gen.point(rng)) for _ in range(4)]
        a, b = side(q, i)
        v[o], v[(o + 1) % 4] = b, a
        is_zero(c, [q, mkquad(v)], (), f"CoincidentOutwardFaces {s}")
        for k in (o, (o + 1) % 4):
            for d in range(2):
                w = [np.array(x) for x in v]
                w[k][d] += off(rng)
                nonzero(c, [q, mkquad(w)], (), f"CoincidentOutwardFaces {s}")
        w = [np.array(x) for x in v]
        w[o], w[(o + 1) % 4] = a, b
        nonzero(c, [q, mkquad(w)], (), f"CoincidentOutwardFaces {s} (same orientation)")


C13 = [Case("box", c13_box, 15, 150), Case("scalar", c13_scalar, 5, 60), Case("named", c13_named, 3, 20),
       Case("margin array", c13_margin_array, 10, 120), Case("align", c13_align, 15, 150),
       Case("boxes", c13_boxes, 1, 1), Case("faces", c13_faces, 8, 80)]


# ---- C14 ------------------------------------------------------------------------------

def grid(rng, nr, nc):
    """Axis-aligned grid, rows top to bottom; returns quads row by row and its parameters."""
    w = [rng.choice([1., 2., 0.5, 3.25]) for _ in range(nc)]
    h = [rng.choice([1., 1.5, 0.75, 2.]) for _ in range(nr)]
    mx = [rng.choice([0.5, 0.25, 1., -0.25]) for _ in range(nc - 1)]
    my = [rng.choice([0.5, 0.75, 2., -0.25]) for _ in range(nr - 1)]
    x = [gen.num(rng)]
    for j in range(1, nc):
        x.append(x[-1] + w[j - 1] + mx[j - 1])
    y = [gen.num(rng)]
    for i in range(1, nr):
        y.append(y[-1] - my[i - 1] - h[i])
    qs = [[[x[j], y[i], w[j], h[i]] for j in range(nc)] for i in range(nr)]
    return qs, ([a / w[0] for a in w[1:]], [a / h[0] for a in h[1:]], mx, my)


def quads(g):
    return [box(*b) for row in g for b in row]


def shape_of(rng):
    return rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (3, 3)])


def c14_rectilinear(rng):
    nr, nc = shape_of(rng)
    c = cr.RectilinearGrid(shape=(nr, nc))
    g, _ = grid(rng, nr, nc)
    is_zero(c, quads(g), (), f"RectilinearGrid {nr}x{nc}") if nr * nc > 1 else None
    need(len(c.signature.prim_types) == nr * nc, "number of quadrilaterals")
    for _ in range(3):     # break one member's bottom / top / left / right
        i, j = rng.randrange(nr), rng.randrange(nc)
        k = rng.randrange(4)
        g2 = [[list(b) for b in r] for r in g]
        b = g2[i][j]
        d = off(rng)
        if k == 0:      # bottom only
            b[1] += d
            b[3] -= d
            broken = nc > 1
        elif k == 1:    # top only
            b[3] += d
            broken = nc > 1
        elif k == 2:    # left only
            b[0] += d
            b[2] -= d
            broken = nr > 1
        else:           # right only
            b[2] += d
            broken = nr > 1
        if min(abs(b[2]), abs(b[3])) < 1e-3:
            continue
        if nr * nc > 1 and (nr > 1 or nc > 1):
            r = residual(c, quads(g2), ())
            z = bool(np.all(np.abs(r) < 1e-7))
            need(z == (not broken), f"RectilinearGrid {nr}x{nc}: member ({i},{j}) edge {k} moved, residual {r}",
                 grid=g2)


def c14_grid(rng):
    nr, nc = shape_of(rng)
    c = cr.Grid(shape=(nr, nc))
    g, par = grid(rng, nr, nc)
    arr = rng.choice([np.array, list, tuple])
    pars = tuple(arr(p) for p in par)
    what = f"Grid {nr}x{nc}"
    r = residual(c, quads(g), pars)
    need(bool(np.all(np.abs(r) < 1e-7)), f"{what}: residual {r}", grid=g, params=par)
    for which, name in enumerate(("col_widths", "row_heights", "col_margins", "row_margins")):
        for i in range(len(par[which])):
            bad = [list(p) for p in par]
            bad[which][i] += off(rng)
            nonzero(c, quads(g), tuple(arr(p) for p in bad), f"{what} with {name}[{i}] wrong", grid=g)
        for i in range(1, len(par[which])):
            if abs(par[which][i] - par[which][0]) > 1e-3:
                bad = [list(p) for p in par]
                bad[which][0], bad[which][i] = bad[which][i], bad[which][0]
                nonzero(c, quads(g), tuple(arr(p) for p in bad), f"{what} with {name} permuted", grid=g)
    # moving the whole grid or scaling it keeps / changes what it should
    dx, dy = off(rng), off(rng)
    g2 = [[[b[0] + dx, b[1] + dy, b[2], b[3]] for b in row] for row in g]
    r = residual(c, quads(g2), pars)
    need(bool(np.all(np.abs(r) < 1e-7)), f"{what} translated: residual {r}")
    if nr * nc > 1:
        i, j = rng.randrange(nr), rng.randrange(nc)
        g3 = [[list(b) for b in row] for row in g]
        g3[i][j][0] += off(rng)
        if nr > 1 or nc > 1:
            nonzero(c, quads(g3), pars, f"{what} with member ({i},{j}) moved in x")
        g3 = [[list(b) for b in row] for row in g]
        g3[i][j][1] += off(rng)
        nonzero(c, quads(g3), pars, f"{what} with member ({i},{j}) moved in y")


def c14_large(rng):
    nr, nc = rng.choice([(2, 6), (6, 2), (3, 4), (4, 3), (1, 11), (11, 1)])
    c = cr.Grid(shape=(nr, nc))
    g, par = grid(rng, nr, nc)
    pars = tuple(np.array(p) for p in par)
    r = residual(c, quads(g), pars)
    need(bool(np.all(np.abs(r) < 1e-7)), f"Grid {nr}x{nc}: residual {r}", grid=g, params=par)
    i, j, k = rng.randrange(nr), rng.randrange(nc), rng.randrange(4)
    g3 = [[list(b) for b in row] for row in g]
    g3[i][j][k] += off(rng)
    nonzero(c, quads(g3), pars, f"Grid {nr}x{nc} with member ({i},{j}) coordinate {k} changed")


C14 = [Case("rectilinear", c14_rectilinear, 25, 250), Case("grid", c14_grid, 14, 150),
       Case("large", c14_large, 3, 40)]


# ---- C15 ------------------------------------------------------------------------------

def axes_prim(rng, **given):
    """An axes with all children, given ones replaced."""
    ks = ["Frame", "XAxis", "XAxisLabel", "YAxis", "YAxisLabel", "TwinXAxis", "TwinXAxisLabel",
          "TwinYAxis", "TwinYAxisLabel"]
    a = pr.Axes(None, None, True, True, True, True)
    ks = list(a.children)
    d = {k: (gen.point(rng) if k.endswith("Label") else gen.quad(rng)) for k in ks}
    d.update(given)
    return pr.Axes(None, [d[k] for k in ks], True, True, True, True)


def facing(rng, frame, s):
    """A quadrilateral whose facing side coincides with side s of the frame."""
    i = SIDX[s]
    o = (i + 2) % 4
    v = [xy(gen.point(rng)) for _ in range(4)]
    a, b = side(frame, i)
    v[o], v[(o + 1) % 4] = b, a
    return v, o


OPP = {"bottom": "top", "top": "bottom", "left": "right", "right": "left"}


def c15_position(rng):
    frame = gen.quad(rng)
    for ax, sides in (("X", ("bottom", "top")), ("Y", ("left", "right"))):
        for s in sides:
            for twin in (False, True):
                cls = cr.PositionXAxis if ax == "X" else cr.PositionYAxis
                c = rng.choice([lambda: cls(side=s, twin=twin),
                                lambda: cr.PositionAxis(axis=ax.lower(), side=s, twin=twin)])()
                v, o = facing(rng, frame, s)
                w, p = facing(rng, frame, OPP[s])
                what = f"Position{ax}Axis side={s} twin={twin}"

                def ap(v, w):
                    return axes_prim(rng, **{"Frame": frame, f"{ax}Axis": mkquad(v), f"Twin{ax}Axis": mkquad(w)})
                is_zero(c, [ap(v, w)], (), what)
                k = rng.choice([o, (o + 1) % 4])
                v2 = [np.array(x) for x in v]
                v2[k][rng.randrange(2)] += off(rng)
                nonzero(c, [ap(v2, w)], (), what + " (axis moved)")
                k = rng.choice([p, (p + 1) % 4])
                w2 = [np.array(x) for x in w]
                w2[k][rng.randrange(2)] += off(rng)
                decide(c, [ap(v, w2)], (), not twin, what + " (twin axis moved)")
                # on the other side
                nonzero(c, [ap(facing(rng, frame, OPP[s])[0], w)], (), what + " (on the opposite side)")


def c15_label(rng):
    frame = gen.quad(rng)
    for ax, i in (("X", 0), ("Y", 1)):
        a, b = side(frame, i)
        L2 = (b - a) @ (b - a)
        for twin in (False, True):
            cls = cr.PositionXAxisLabel if ax == "X" else cr.PositionYAxisLabel
            c = rng.choice([lambda: cls(twin=twin), lambda: cr.PositionAxisLabel(axis=ax.lower(), twin=twin)])()
            p, q = gen.point(rng), gen.point(rng)
            prim = axes_prim(rng, **{"Frame": frame, f"{ax}AxisLabel": p, f"Twin{ax}AxisLabel": q})
            frac = float((xy(q if twin else p) - a) @ (b - a) / L2)
            what = f"Position{ax}AxisLabel twin={twin}"
            is_zero(c, [prim], (frac,), what)
            nonzero(c, [prim], (frac + off(rng),), what)
            if abs(2 * frac - 1) > 1e-3:
                nonzero(c, [prim], (1 - frac,), what + " (measured from the other end)")


class FakeAxis:
    """Stands in for a matplotlib axis without a bounding box or with one on a given side."""

    class label:
        vis = True

        @classmethod
        def get_visible(cls):
            return cls.vis

        @classmethod
        def set_visible(cls, v):
            cls.vis = v

    def get_tightbbox(self, *a):
        return None

    def get_ticks_position(self):
        return "bottom"


def c15_thickness(rng):
    from .mpl import real_axis
    q = gen.quad(rng)
    w = float((side(q, 0)[1] - side(q, 0)[0])[0])
    h = float((side(q, 1)[1] - side(q, 1)[0])[1])
    flat = mkquad([(0, 0), (0, 1), (3, 1), (1, 3)])     # zero width of the bottom line
    flath = mkquad([(0, 0), (2, 1), (5, 1), (1, 3)])    # zero height of the right line
    X, Y = rng.choice([(cr.XAxisThickness, cr.YAxisThickness),
                       (lambda: cr.AxisThickness(axis="x"), lambda: cr.AxisThickness(axis="y"))])
    is_zero(X(), [flath], (None,), "XAxisThickness without an axis")
    is_zero(Y(), [flat], (None,), "YAxisThickness without an axis")
    if abs(h) > 1e-3:
        nonzero(X(), [q], (None,), "XAxisThickness without an axis")
    if abs(w) > 1e-3:
        nonzero(Y(), [q], (None,), "YAxisThickness without an axis")
    is_zero(X(), [flath], (FakeAxis(),), "XAxisThickness of an axis without a bounding box")
    side_x, side_y = rng.choice(["bottom", "top"]), rng.choice(["left", "right"])
    ax, tx, ty = real_axis(rng, side_x, side_y)
    is_zero(X(), [box(1, 2, 5, tx)], (ax.xaxis,), "XAxisThickness", thickness=tx)
    nonzero(X(), [box(1, 2, tx + 1, tx + off(rng))], (ax.xaxis,), "XAxisThickness", thickness=tx)
    is_zero(Y(), [box(1, 2, ty, 5)], (ax.yaxis,), "YAxisThickness", thickness=ty)
    nonzero(Y(), [box(1, 2, ty + off(rng), ty)], (ax.yaxis,), "YAxisThickness", thickness=ty)


C15 = [Case("position", c15_position, 5, 60), Case("label", c15_label, 15, 150),
       Case("thickness", c15_thickness, 5, 60)]
