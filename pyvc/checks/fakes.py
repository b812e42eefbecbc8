"""Stand-ins for matplotlib objects: they answer queries with symbolic numbers and record what
they are told.  Anything they do not model leaves the obligation undecided."""
from __future__ import annotations

import numpy as np
import z3

from ..core import ctx, Unsupported
from ..scal import SymReal, SymBool, real, boolean
from .world import vec, flat


class Fake:
    __pyvc_sym__ = True

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"matplotlib {type(self).__name__}.{n} is not modelled")


def pick2(args, kw, names):
    """(a, b) from f((a, b)) / f(a, b) / f(**kw)."""
    args = list(args)
    for n in names:
        if n in kw:
            args.append(kw.pop(n))
    if len(args) == 1:
        args = seq(args[0])
    if len(args) != 2:
        raise Unsupported("unexpected arguments of a matplotlib call")
    return [scalar(a) for a in args]


def seq(x):
    from ..models import native
    x = native(x)
    if isinstance(x, np.ndarray):
        return list(x)
    return list(x)


def scalar(a):
    if isinstance(a, np.ndarray):
        if a.size != 1:
            raise Unsupported("an array where a number is expected")
        return a.ravel()[0]
    return a


def truth(x):
    if not isinstance(x, bool):
        raise Unsupported("a flag that is not a constant")
    return x


class Bbox(Fake):
    """A bounding box from (x0, y0) to (x1, y1), x0 <= x1 and y0 <= y1."""

    def __init__(self, x0, y0, x1, y1):
        self.x0, self.y0, self.x1, self.y1 = x0, y0, x1, y1

    xmin = property(lambda s: s.x0)
    xmax = property(lambda s: s.x1)
    ymin = property(lambda s: s.y0)
    ymax = property(lambda s: s.y1)
    width = property(lambda s: s.x1 - s.x0)
    height = property(lambda s: s.y1 - s.y0)
    bounds = property(lambda s: (s.x0, s.y0, s.x1 - s.x0, s.y1 - s.y0))
    extents = property(lambda s: vec(s.x0, s.y0, s.x1, s.y1))
    min = property(lambda s: vec(s.x0, s.y0))
    max = property(lambda s: vec(s.x1, s.y1))
    p0 = property(lambda s: vec(s.x0, s.y0))
    p1 = property(lambda s: vec(s.x1, s.y1))
    size = property(lambda s: vec(s.x1 - s.x0, s.y1 - s.y0))
    intervalx = property(lambda s: vec(s.x0, s.x1))
    intervaly = property(lambda s: vec(s.y0, s.y1))

    def get_points(self):
        return np.array([[self.x0, self.y0], [self.x1, self.y1]], dtype=object)

    def transformed(self, tr):
        a = tr.point(self.x0, self.y0)
        b = tr.point(self.x1, self.y1)
        return Bbox(*a, *b)

    def __iter__(self):
        raise Unsupported("iteration over a Bbox")


class Scale(Fake):
    def __init__(self, sx, sy, inv=None):
        self.sx, self.sy, self.inv = sx, sy, inv

    def point(self, x, y):
        return x * self.sx, y * self.sy

    def inverted(self):
        if self.inv is None:
            self.inv = Scale(1 / self.sx, 1 / self.sy, self)
        return self.inv

    def transform(self, p):
        a = np.array(seq(p), dtype=object)
        if a.ndim == 1:
            return vec(*self.point(a[0], a[1]))
        return np.array([self.point(x, y) for x, y in a], dtype=object)

    def transform_bbox(self, b):
        return b.transformed(self)


class Figure(Fake):
    def __init__(self, name="fig", figsize=None):
        if figsize is None:
            self.W, self.H = real(name + ".W"), real(name + ".H")
            ctx().assume(z3.And(self.W.t > 0, self.H.t > 0))
        else:
            self.W, self.H = figsize
        self.dpi = real(name + ".dpi")
        ctx().assume(self.dpi.t > 0)
        self.sizes = []
        self.axes = []
        self.transFigure = Scale(self.W * self.dpi, self.H * self.dpi)
        self.dpi_scale_trans = Scale(self.dpi, self.dpi)
        self.name = name

    def set_size_inches(self, *a, **k):
        k.pop("forward", None)
        w, h = pick2(a, k, ("w", "h"))
        self.sizes.append((w, h))
        self.W, self.H = w, h

    def set_figwidth(self, v, forward=True):
        self.W = v
        self.sizes.append((self.W, self.H))

    def set_figheight(self, v, forward=True):
        self.H = v
        self.sizes.append((self.W, self.H))

    def get_size_inches(self):
        return vec(self.W, self.H)

    def get_figwidth(self):
        return self.W

    def get_figheight(self):
        return self.H

    def get_dpi(self):
        return self.dpi

    def add_axes(self, rect=None, **kw):
        ax = Axes(self, f"{self.name}.ax{len(self.axes)}")
        ax.created = rect
        self.axes.append(ax)
        return ax

    def get_axes(self):
        return list(self.axes)

    @property
    def bbox(self):
        return Bbox(0, 0, self.W * self.dpi, self.H * self.dpi)


class Label(Fake):
    def __init__(self, vis):
        self.vis = vis
        self.log = []

    def get_visible(self):
        return self.vis

    def set_visible(self, v):
        self.vis = v
        self.log.append(v)

    def get_text(self):
        from ..strs import SymStr
        return SymStr.term(z3.String("label text"))


class Axis(Fake):
    """bbox: None, a Bbox in pixels, or an exception raised by measuring."""

    def __init__(self, ax, name, bbox=None, side=None):
        self.axes = ax
        self.name = name
        self.bbox_ = bbox
        self.side = side
        self.label = Label(boolean(name + ".label.visible"))
        self.measured_with_label = []
        self.label_coords = []
        self.ticks = []

    @property
    def figure(self):
        return self.axes.figure

    def get_figure(self, root=False):
        return self.axes.figure

    def get_tightbbox(self, *a, **k):
        self.measured_with_label.append(self.label.vis)
        if isinstance(self.bbox_, BaseException):
            raise self.bbox_
        return self.bbox_

    def get_ticks_position(self):
        if self.ticks:
            return self.ticks[-1]
        return self.side

    def get_label(self):
        return self.label

    def get_label_text(self):
        return self.label.get_text()

    def set_label_coords(self, *a, **k):
        tr = k.pop("transform", None)
        a = list(a)
        if len(a) == 3:
            tr = a.pop()
        x, y = pick2(a, k, ("x", "y"))
        self.label_coords.append((x, y, tr))

    def set_ticks_position(self, position):
        self.ticks.append(position)


class Axes(Fake):
    def __init__(self, fig, name, pos=None):
        self.figure = fig
        self.name = name
        self.pos, self.opos = pos, None
        self.positions = []
        self.xaxis = Axis(self, name + ".x")
        self.yaxis = Axis(self, name + ".y")

    def get_figure(self, root=False):
        return self.figure

    def get_position(self, original=False):
        if self.pos is None:
            raise Unsupported("position of an axes")
        if truth(original):         # another rectangle, when the aspect ratio is fixed
            if self.opos is None:
                self.opos = box(f"{self.name}.original")
            return self.opos
        return self.pos

    def set_position(self, pos, which="both"):
        if which != "both":
            raise Unsupported(f"set_position(which={which!r})")
        if isinstance(pos, Bbox):
            b = list(pos.bounds)
        else:
            b = seq(pos)
        if len(b) != 4:
            raise Unsupported("axes position with other than four numbers")
        self.positions.append([scalar(v) for v in b])

    def get_window_extent(self, renderer=None):
        return self.get_position().transformed(self.figure.transFigure)

    @property
    def bbox(self):
        return self.get_window_extent()

    @property
    def transAxes(self):
        raise Unsupported("transAxes")


def box(name):
    x0, y0, x1, y1 = (real(name + s) for s in (".x0", ".y0", ".x1", ".y1"))
    ctx().assume(z3.And(x0.t <= x1.t, y0.t <= y1.t))
    return Bbox(x0, y0, x1, y1)


class PlotAxes(Fake):
    """Records what is drawn."""

    def __init__(self):
        self.lines, self.texts, self.patches = [], [], []
        self.order = []

    def plot(self, *a, **k):
        a = list(a)
        fmt = [x for x in a if isinstance(x, str)]
        a = [x for x in a if not isinstance(x, str)]
        if len(a) != 2 or fmt:
            raise Unsupported("plot with other than x and y data")
        xs, ys = seq(a[0]), seq(a[1])
        if len(xs) != len(ys):
            raise ValueError("x and y must have same first dimension")
        r = Artist("line", xs=[scalar(x) for x in xs], ys=[scalar(y) for y in ys], kw=k)
        self.lines.append(r)
        self.order.append(r)
        return [r]

    def annotate(self, text, xy, *a, **k):
        r = Artist("text", text=text, xy=[scalar(v) for v in seq(xy)], kw=k)
        self.texts.append(r)
        self.order.append(r)
        return r

    def text(self, x, y, s, **k):
        return self.annotate(s, (x, y), **k)

    def add_patch(self, p):
        if not isinstance(p, Artist):
            raise Unsupported("patch")
        self.patches.append(p)
        self.order.append(p)
        return p

    add_artist = add_patch


class Artist(Fake):
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def set_alpha(self, a):
        self.kw["alpha"] = a


def polygon_model(interp, args, kw):
    args = list(args)
    verts = args[0] if args else kw.pop("xy")
    from ..models import native
    from ..models import SymRows
    if isinstance(verts, SymRows):
        return Artist("polygon", xy=verts, kw=dict(kw))
    verts = native(verts)
    pts = [tuple(seq(v)) for v in seq(verts)]
    return Artist("polygon", xy=pts, kw=dict(kw))
