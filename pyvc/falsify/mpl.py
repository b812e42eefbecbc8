"""Executable contracts of C20..C22."""
from __future__ import annotations

import math
import warnings

import numpy as np
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt
from matplotlib.figure import Figure
import matplotlib as mplt

from mpllayout import primitives as pr
from mpllayout import constraints as cr
from mpllayout import matplotlibutils as mu
from mpllayout import ui

from . import gen
from .gen import close, side, verts, mkquad, box
from .cons import xy, vec, ends, SIDES, SIDX
from .base import Case, Fail, need, raises

OPP = {"bottom": "top", "top": "bottom", "left": "right", "right": "left"}


def close_all():
    plt.close("all")


def measured(axis):
    """Reference measurement of an axis' thickness, straight from matplotlib."""
    vis = axis.label.get_visible()
    axis.label.set_visible(False)
    bb = axis.get_tightbbox()
    axis.label.set_visible(vis)
    if bb is None:
        return 0.0
    fig = axis.axes.figure
    dpi = fig.dpi
    W, H = fig.get_size_inches()
    p = axis.axes.get_position()
    s = axis.get_ticks_position()
    return {"bottom": p.ymin * H - bb.ymin / dpi, "top": bb.ymax / dpi - p.ymax * H,
            "left": p.xmin * W - bb.xmin / dpi, "right": bb.xmax / dpi - p.xmax * W}[s]


def real_axis(rng, sx="bottom", sy="left"):
    fig = Figure(figsize=(rng.choice([3, 5, 6.4]), rng.choice([2, 4, 5.5])), dpi=rng.choice([72, 100, 150]))
    ax = fig.add_axes((rng.uniform(.1, .3), rng.uniform(.1, .3), rng.uniform(.3, .6), rng.uniform(.3, .6)))
    ax.set_xlim(0, 10 ** rng.randrange(0, 5))
    ax.set_ylim(-10 ** rng.randrange(0, 5), 3)
    ax.xaxis.set_ticks_position(sx)
    ax.yaxis.set_ticks_position(sy)
    if rng.random() < 0.6:
        ax.set_xlabel("a long\nlabel")
        ax.set_ylabel("another\nlong\nlabel")
    if rng.random() < 0.3:
        ax.xaxis.label.set_visible(False)
        ax.yaxis.label.set_visible(rng.random() < .5)
    if rng.random() < 0.4:          # the drawn rectangle differs from the one asked for
        ax.set_aspect(rng.choice([1e-3, .3, 1, 4, 1e3]))
        ax.apply_aspect()
    return ax, measured(ax.xaxis), measured(ax.yaxis)


# ---- C20 ------------------------------------------------------------------------------

def layout_tree(rng):
    """A primitive tree with a figure (anywhere) and axes with/without axis children."""
    fig = box(gen.num(rng), gen.num(rng), rng.choice([4., 6.5, 10.]), rng.choice([3., 5.25, 8.]))
    d = {}
    n = rng.randrange(0, 4)
    info = {}
    for i in range(n):
        f = box(gen.num(rng), gen.num(rng), rng.uniform(.5, 5), rng.uniform(.5, 5))
        fl = [rng.random() < .6, rng.random() < .6, rng.random() < .3, rng.random() < .3]
        a = pr.Axes(None, None, *fl)
        kids = {}
        pos = {}
        for k in a.children:
            if k == "Frame":
                kids[k] = f
            elif k.endswith("Label"):
                kids[k] = gen.point(rng)
            else:
                s = rng.choice(["bottom", "top"] if "X" in k else ["left", "right"])
                th = rng.uniform(.1, 1)
                kids[k] = axis_box(f, s, th)
                pos[k] = s
        name = rng.choice(["Axes%d", "MyAxes%d"]) % i
        if rng.random() < .4:           # axis boxes and labels that come on their own
            for k in [k for k in kids if k != "Frame" and rng.random() < .4]:
                del kids[k]
                pos.pop(k, None)
            d[name] = pr.PrimitiveNode(np.array([]), kids)
        else:
            d[name] = pr.Axes(None, list(kids.values()), *fl)
        info[name] = (d[name], pos)
    fkey = rng.choice(["Figure", "Fig"])
    items = list(d.items()) + [(fkey, fig), ("P", gen.point(rng)), ("Quad", gen.quad(rng))]
    rng.shuffle(items)
    return pr.PrimitiveNode(np.array([]), dict(items)), fkey, fig, info


def axis_box(f, s, th):
    v = verts(f)
    (x0, y0), (x1, y1) = v[0], v[2]
    return {"bottom": box(x0, y0 - th, x1 - x0, th), "top": box(x0, y1, x1 - x0, th),
            "left": box(x0 - th, y0, th, y1 - y0), "right": box(x1, y0, th, y1 - y0)}[s]


def check_axes(rng, root, fig_quad, fig, ax, prim, pos):
    v = verts(fig_quad)
    o, size = v[0], v[2] - v[0]
    fv = verts(prim["Frame"])
    lo, hi = (fv[0] - o) / size, (fv[2] - o) / size
    got = ax.get_position().bounds
    need(close(got, [lo[0], lo[1], hi[0] - lo[0], hi[1] - lo[1]]), "axes rectangle",
         got=got, want=(*lo, *(hi - lo)), figure=v)
    for X, axis in (("X", ax.xaxis), ("Y", ax.yaxis)):
        k = f"{X}AxisLabel"
        if k in prim.children:
            p = (xy(prim[k]) - o) / size
            got = axis.label.get_position()
            need(close(got, p), f"{X} label position", got=got, want=p, origin=o, size=size)
            need(axis.label.get_transform() == fig.transFigure, f"{X} label is not in figure coordinates")
        k = f"{X}Axis"
        if k in prim.children and pos.get(k):
            need(axis.get_ticks_position() == pos[k], f"{X} ticks on {axis.get_ticks_position()}, not {pos[k]}")


def c20_subplots(rng):
    try:
        root, fkey, fq, info = layout_tree(rng)
        before, old = gen.snap(root), gen.deep(root)
        keys = rng.choice([None, list(info)[:1], list(info)])
        fig, axs = mu.subplots(root, fkey, keys)
        want = [k for k in root.children if "Axes" in k] if keys is None else list(keys)
        need(list(axs) == want, "axes created", got=list(axs), want=want)
        v = verts(fq)
        need(close(fig.get_size_inches(), v[2] - v[0]), "figure size", got=fig.get_size_inches(), want=v[2] - v[0])
        need(list(fig.axes) == list(axs.values()), "axes of the figure")
        for k, ax in axs.items():
            check_axes(rng, root, fq, fig, ax, *info[k])
        need(gen.snap(root) == before and gen.deep(root) == old, "the primitives were changed")
    finally:
        close_all()


def c20_update(rng):
    root, fkey, fq, info = layout_tree(rng)
    fig = Figure(figsize=(2, 2))
    axs = {}
    for k in rng.sample(list(info), rng.randrange(0, len(info) + 1)):
        axs[k] = fig.add_axes((.1, .1, .5, .5))
    other = fig.add_axes((.2, .3, .4, .35))
    for a in list(axs.values()) + [other]:
        a.xaxis.set_label_coords(.3, -.7)
        a.yaxis.set_label_coords(-.4, .6)
        a.xaxis.set_ticks_position("top")
        a.yaxis.set_ticks_position("right")
    rest = [(a.xaxis.label.get_position(), a.yaxis.label.get_position()) for a in axs.values()]
    f2, a2 = mu.update_subplots(root, fkey, fig, axs)
    need(f2 is fig and a2 == axs, "figure and axes returned")
    v = verts(fq)
    need(close(fig.get_size_inches(), v[2] - v[0]), "figure size", got=fig.get_size_inches(), want=v[2] - v[0])
    for (k, ax), (lx, ly) in zip(axs.items(), rest):
        prim, pos = info[k]
        check_axes(rng, root, fq, fig, ax, prim, pos)
        if "XAxisLabel" not in prim.children:
            need(ax.xaxis.label.get_position() == lx, "absent x label was moved")
        if "YAxisLabel" not in prim.children:
            need(ax.yaxis.label.get_position() == ly, "absent y label was moved")
        if "XAxis" not in prim.children:
            need(ax.xaxis.get_ticks_position() == "top", "ticks of an absent x axis were moved")
        if "YAxis" not in prim.children:
            need(ax.yaxis.get_ticks_position() == "right", "ticks of an absent y axis were moved")
    need(close(other.get_position().bounds, (.2, .3, .4, .35)) and other.xaxis.get_ticks_position() == "top",
         "an axes that was not given was changed")


def c20_rect(rng):
    q = gen.quad(rng)
    o = np.array([gen.num(rng), gen.num(rng)])
    s = np.array([gen.num(rng, False), gen.num(rng, False)])
    s[abs(s) < .05] = 2.
    v = verts(q)
    lo, hi = (v[0] - o) / s, (v[2] - o) / s
    need(close(mu.rect_from_box(q, o, s), [*lo, *(hi - lo)]), "rect_from_box", quad=v, origin=o, size=s)
    need(close(mu.width_and_height_from_quad(q), v[2] - v[0]), "width_and_height_from_quad", quad=v)


C20 = [Case("subplots", c20_subplots, 60, 300), Case("update", c20_update, 60, 400),
       Case("rect", c20_rect, 40, 300)]


# ---- C21 ------------------------------------------------------------------------------

def c21_position(rng):
    if rng.random() < 0.6:
        f, a = gen.quad(rng), gen.quad(rng)
    else:
        f = box(gen.num(rng), gen.num(rng), rng.uniform(.5, 5), rng.uniform(.5, 5))
        a = axis_box(f, rng.choice(SIDES), rng.uniform(.1, 2))
        if rng.random() < 0.5:
            a = mkquad([np.array(p) + [rng.uniform(-.2, .2), rng.uniform(-.2, .2)] for p in verts(a)])
    dev = {}
    for s in ("bottom", "top", "left", "right"):
        i = SIDX[s]
        p, q = side(f, i)
        u, w = side(a, (i + 2) % 4)
        dev[s] = math.sqrt(((p - w) ** 2).sum() + ((q - u) ** 2).sum())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = mu.find_axis_position(f, a)
    need(got in dev and dev[got] <= min(dev.values()) + 1e-9, f"position {got!r}, deviations {dev}",
         frame=verts(f), axis=verts(a))


def c21_shared_edge(rng):
    f = gen.quad(rng) if rng.random() < .5 else box(gen.num(rng), gen.num(rng), 2, 3)
    for s in SIDES:
        i = SIDX[s]
        v = [xy(gen.point(rng)) for _ in range(4)]
        a, b = side(f, i)
        v[(i + 2) % 4], v[(i + 3) % 4] = b, a
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = mu.find_axis_position(f, mkquad(v))
        need(got == s, f"axis sharing the {s} edge is reported on {got!r}", frame=verts(f), axis=v)


def c21_thickness(rng):
    ax, tx, ty = real_axis(rng, rng.choice(["bottom", "top"]), rng.choice(["left", "right"]))
    for axis, t in ((ax.xaxis, tx), (ax.yaxis, ty)):
        vis = axis.label.get_visible()
        got = cr.get_axis_thickness(axis, axis.get_ticks_position())
        need(abs(got - t) < 1e-9, f"thickness {got} instead of {t}", side=axis.get_ticks_position())
        need(axis.label.get_visible() == vis, "label visibility changed")
        if rng.random() < .5:
            axis.set_visible(False)
            need(axis.get_tightbbox() is None, "oracle")
            need(cr.get_axis_thickness(axis, "bottom") == 0, "thickness without a bounding box")
            need(axis.label.get_visible() == vis, "label visibility changed")


class BrokenAxis:
    def __init__(self, vis):
        self.vis = vis
        outer = self

        class L:
            def get_visible(self):
                return outer.vis

            def set_visible(self, v):
                outer.vis = v
        self.label = L()

    def get_tightbbox(self, *a, **k):
        raise RuntimeError("no renderer")

    def get_ticks_position(self):
        return "bottom"


def c21_failing(rng):
    a = BrokenAxis(rng.random() < .7)
    vis = a.vis
    r = raises(RuntimeError, cr.get_axis_thickness, a, "bottom")
    need(r is None, f"failing measurement: {r}")
    need(a.vis == vis, "label visibility is not restored when measuring fails")


def c21_unknown_side(rng):
    ax, _, _ = real_axis(rng)
    ax.tick_params(axis="x", top=True, bottom=True, labeltop=True, labelbottom=True)
    s = ax.xaxis.get_ticks_position()
    if s in ("bottom", "top", "left", "right"):
        return
    vis = ax.xaxis.label.get_visible()
    r = raises(ValueError, cr.get_axis_thickness, ax.xaxis, s)
    need(r is None, f"ticks on side {s!r}: {r}")
    need(ax.xaxis.label.get_visible() == vis, "label visibility changed")


C21 = [Case("position", c21_position, 25, 300), Case("shared edge", c21_shared_edge, 10, 100),
       Case("thickness", c21_thickness, 40, 300), Case("failing", c21_failing, 4, 10),
       Case("unknown side", c21_unknown_side, 2, 6)]


# ---- C22 ------------------------------------------------------------------------------

def c22_rotation(rng):
    l = gen.line(rng) if rng.random() < .6 else gen.mkline(0, 0, *rng.choice(
        [(1, 0), (0, 1), (-1, 0), (0, -1), (1, -1), (-2, -2), (-1, 1), (0.001, -1), (-1, -0.001)]))
    got = float(ui.rotation_from_line(l))
    want = math.degrees(math.atan2(vec(l)[1], vec(l)[0]))
    d = (got - want) % 360
    need(min(d, 360 - d) < 1e-4, f"rotation {got} of a line at {want} degrees", line=ends(l))


def collect(root, depth=0, out=None, path=""):
    """What must be drawn, in order: (kind, data, depth)."""
    out = [] if out is None else out
    for k, p in root.children.items():
        if isinstance(p, pr.Point):
            out.append(("point", xy(p), k))
        elif isinstance(p, pr.Line):
            out.append(("line", ends(p), k))
        elif isinstance(p, pr.Polygon):
            out.append(("poly", np.array([xy(e.children["Point0"]) for e in p.children.values()]), k))
            collect(p, depth + 1, out)
        else:
            collect(p, depth + 1, out)
    return out


def c22_plot(rng):
    root = gen.prim_tree(rng, 3, 3)
    if rng.random() < .3:
        root.add_child("zero", gen.line(rng, degenerate=True))
    before, old = gen.snap(root), gen.deep(root)
    fig = Figure()
    ax = fig.add_axes((0, 0, 1, 1))
    ui.plot_prims(ax, root)
    want = collect(root)
    lines = [np.array(l.get_xydata()) for l in ax.lines]
    w = [np.array([d]) if k == "point" else np.array(d) for k, d, _ in want
         if k == "point" or (k == "line" and not np.array_equal(d[0], d[1]))]
    need(len(lines) == len(w) and all(a.shape == b.shape and np.allclose(a, b) for a, b in zip(lines, w)),
         "points and lines drawn", got=lines, want=w)
    polys = [np.array(p.get_xy()) for p in ax.patches]
    wp = [np.vstack([d, d[:1]]) for k, d, _ in want if k == "poly"]
    need(len(polys) == len(wp), "number of polygons drawn", got=len(polys), want=len(wp))
    for p, q in zip(polys, wp):
        need(p.shape == q.shape and np.allclose(p, q), "polygon vertices", got=p, want=q)
    labels = [t.get_text() for t in ax.texts]
    keys = [key for k, d, key in want if k != "line" or not np.array_equal(d[0], d[1])]
    need(len(labels) == len(keys) and all(l.endswith("/" + k) for l, k in zip(labels, keys)),
         "labels end in the primitives' keys", got=labels, want=keys)
    for l in ax.lines:
        need(0.2 - 1e-9 <= l.get_alpha() <= 1 + 1e-9, f"opacity {l.get_alpha()}")
    for p in ax.patches:
        need(0.02 - 1e-9 <= p.get_alpha() <= 0.1 + 1e-9, f"fill opacity {p.get_alpha()}")
    need(gen.snap(root) == before and gen.deep(root) == old, "plotting changed the primitives")


def c22_label(rng):
    l = gen.line(rng)
    fig = Figure()
    ax = fig.add_axes((0, 0, 1, 1))
    ui.plot_line(ax, l, label="L")
    t, = ax.texts
    a, b = ends(l)
    need(close(t.xy, (a + b) / 2), "label position", got=t.xy, want=(a + b) / 2)
    want = math.degrees(math.atan2(*(b - a)[::-1]))
    d = (t.get_rotation() - want) % 360
    need(min(d, 360 - d) < 1e-4, f"label rotation {t.get_rotation()} for direction {want}", line=(a, b))


def c22_polygon(rng):
    n = rng.randrange(1, 13)
    pts = [gen.point(rng) for _ in range(n)]
    p = pr.Polygon(None, pts)
    fig = Figure()
    ax = fig.add_axes((0, 0, 1, 1))
    al = rng.choice([1.0, 0.5, 0.2])
    ui.plot_polygon(ax, p, alpha=al)
    patch, = ax.patches
    v = np.array([xy(q) for q in pts])
    need(np.allclose(patch.get_xy(), np.vstack([v, v[:1]])) if n > 1 else True, "polygon vertices", n=n)
    need(abs(patch.get_alpha() - .1 * al) < 1e-9, "fill opacity")


C22 = [Case("rotation", c22_rotation, 60, 600), Case("plot", c22_plot, 40, 300),
       Case("label", c22_label, 25, 300), Case("polygon", c22_polygon, 12, 60)]
