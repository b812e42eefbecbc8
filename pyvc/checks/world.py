"""The interpreted package and helpers to state contracts over exact reals."""
from __future__ import annotations

from types import SimpleNamespace

import numpy as np
import z3

from ..core import ctx, Ctx, Unsupported, Infeasible, Raised, explore, internal_error
from ..interp import Interp
from ..scal import SymReal, SymBool, SymInt, real, realval, mkbool
from .. import scal

MODULES = ("containers", "primitives", "constructions", "constraints", "layout", "solver",
           "matplotlibutils", "ui", "geometry")


class World:
    """One interpreted copy of the package per proof."""

    def __init__(self, upto=None):
        self.it = Interp()
        names = MODULES if upto is None else MODULES[:MODULES.index(upto) + 1]
        for n in names:
            setattr(self, n, self.it.load(n))

    @property
    def cn(self):
        return self.containers

    @property
    def pr(self):
        return self.primitives

    @property
    def con(self):
        return self.constructions

    @property
    def cr(self):
        return self.constraints


def vec(*xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


class P2:
    """A specification point / vector of exact reals."""
    __slots__ = ("x", "y")

    def __init__(self, x, y):
        self.x, self.y = x, y

    def __sub__(self, o):
        return P2(self.x - o.x, self.y - o.y)

    def __add__(self, o):
        return P2(self.x + o.x, self.y + o.y)

    def __mul__(self, k):
        return P2(self.x * k, self.y * k)

    def dot(self, o):
        return self.x * o.x + self.y * o.y

    def cross(self, o):
        return self.x * o.y - self.y * o.x

    @property
    def n2(self):
        return self.x * self.x + self.y * self.y

    @property
    def norm(self):
        return self.n2.sqrt()

    def __iter__(self):
        return iter((self.x, self.y))


def mid(a, b):
    return P2((a.x + b.x) * realq(1, 2), (a.y + b.y) * realq(1, 2))


def realq(n, d=1):
    return SymReal(z3.RealVal(f"{n}/{d}"))


class Geo:
    """Symbolic primitives: the primitive object and its specification view side by side."""

    def __init__(self, w):
        self.w = w
        self.n = 0

    def name(self, base):
        self.n += 1
        return f"{base}{self.n}"

    def real(self, base):
        return real(self.name(base))

    def point(self, base="p"):
        b = self.name(base)
        x, y = real(b + ".x"), real(b + ".y")
        return self.w.pr.Point(value=vec(x, y)), P2(x, y)

    def line(self, base="l", nonzero=True):
        b = self.name(base)
        p, a = self.point(b + ".a")
        q, e = self.point(b + ".b")
        l = self.w.pr.Line(prims=(p, q))
        if nonzero:
            d = e - a
            ctx().assume(z3.Or(d.x.t != 0, d.y.t != 0))
        return l, (a, e)

    def quad(self, base="q"):
        b = self.name(base)
        pts = [self.point(b + ".v") for _ in range(4)]
        q = self.w.pr.Quadrilateral(None, tuple(p for p, _ in pts))
        return q, [v for _, v in pts]

    def frame(self, base="q"):
        """An axis-aligned rectangle (not necessarily positive extent)."""
        b = self.name(base)
        x0, x1, y0, y1 = (real(b + s) for s in (".x0", ".x1", ".y0", ".y1"))
        vs = [P2(x0, y0), P2(x1, y0), P2(x1, y1), P2(x0, y1)]
        q = self.w.pr.Quadrilateral(None, tuple(self.w.pr.Point(value=vec(*v)) for v in vs))
        return q, vs


SIDES = ("bottom", "right", "top", "left")


def qside(vs, i):
    i = i % 4
    return vs[i], vs[(i + 1) % 4]


def flat(v):
    """The components of a returned vector."""
    if isinstance(v, (SymReal, int, float)):
        return [v]
    a = np.asarray(v, dtype=object) if not isinstance(v, np.ndarray) else v
    return [a.item()] if a.ndim == 0 else list(a.ravel())


def R(x):
    return x if isinstance(x, SymReal) else SymReal(SymReal.lift(x))


def eqz(a, b):
    return R(a).t == R(b).t


def same_values(name, got, want):
    """Obligation per component: got is the vector want."""
    c = ctx()
    got = flat(got)
    if len(got) != len(want):
        c.fail(name, f"{len(got)} components instead of {len(want)}")
        return False
    ok = True
    for i, (g, w) in enumerate(zip(got, want)):
        ok &= c.prove(name, eqz(g, w))
    return ok


def evaluate(name, fn, *args, **kw):
    """Call the code under test; an exception is a failed obligation."""
    try:
        return fn(*args, **kw)
    except Exception as e:
        internal(e)
        ctx().fail(name, f"raised {type(e).__name__}: {e}")
        raise Infeasible()


def internal(e):
    """An exception that comes from the verifier, not from the code under test, is undecided."""
    why = internal_error(e)
    if why:
        raise Unsupported(f"internal error of the verifier: {why}")


def zero(vs):
    return z3.And(*[R(v).t == 0 for v in vs]) if vs else z3.BoolVal(True)


def iff(name, residual, rel, size=None):
    """Obligations: residual = 0 => relation, and relation => residual = 0."""
    c = ctx()
    r = flat(residual)
    if not r or (size is not None and len(r) != size):
        c.fail(name, f"residual of size {len(r)}")
        return
    rel = rel if isinstance(rel, z3.BoolRef) else z3.And(*rel)
    c.prove(name + ".zero-implies-relation", z3.Implies(zero(r), rel))
    c.prove(name + ".relation-implies-zero", z3.Implies(rel, zero(r)))


def same_point(a, b):
    return z3.And(a.x.t == b.x.t, a.y.t == b.y.t)


class Cases:
    """Named proof cases of one property; each is explored over all its paths."""

    def __init__(self, report, prop, w):
        self.report, self.prop, self.w = report, prop, w

    def __call__(self, name, body, **kw):
        full = f"{self.prop}.{name}"

        def run(c):
            body(full, Geo(self.w))
            c.cover(full)
        explore(self.report, run, full + ".paths", **kw)
