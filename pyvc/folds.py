"""Values defined by a recurrence over the iterations of a loop or the elements of a sequence.

P(0) = v0 and P(j+1) = step(j, P(j)) for 0 <= j < n.  The recurrence is a definition, so P is
an uninterpreted function; two such values are compared by induction over j.
"""
from __future__ import annotations

import z3

from .core import ctx, Unsupported, Raised
from .scal import SymInt, SymReal, SymBool
from .seq import zint


def kind_of(v):
    """(sort, wrap) for values that can be carried by a recurrence, or None."""
    from .models import Opaque
    if isinstance(v, (bool, SymBool)):
        return z3.BoolSort(), lambda t: SymBool(t)
    if isinstance(v, (int, SymInt)):
        return z3.IntSort(), lambda t: SymInt(t)
    if isinstance(v, (float, SymReal)):
        return z3.RealSort(), lambda t: SymReal(t)
    if isinstance(v, Opaque):
        return Opaque.Sort, lambda t: Opaque(t)
    h = getattr(v, "__pyvc_kind__", None)
    return h() if h is not None else None


class Fold:
    closed = None          # known solution of the recurrence

    def __init__(self, v0, n, step, name="fold", close=True):
        self.v0, self.n, self.step = v0, n, step
        self.sort, self.wrap = kind_of(v0)
        # values of a domain whose steps are arbitrary functions: any sequence is possible
        self.free = getattr(v0, "__pyvc_free__", False)
        c = ctx()
        self.f = z3.Function(c.fresh(name), z3.IntSort(), self.sort)
        folds = dict(c.store.get("folds", {}))
        folds[self.f.name()] = self
        c.store["folds"] = folds
        if close:
            self.close()

    def close(self):
        """Solve the recurrence by one of the solutions the check proposes, by induction."""
        c = ctx()
        for g in c.store.get("fold_hints", ()):
            if self.closed is not None or self.sort != z3.IntSort():
                return
            if not all(c.sub(lambda: c.entails(zint(self.v0) == zint(g(0))))):
                continue

            def step(j):
                r = self.step(j, g(j))
                return isinstance(r, (int, SymInt)) and c.entails(zint(r) == zint(g(j + 1)))
            try:
                if all(r is True for r in c.forall(self.n, step)):
                    self.closed = g
            except Unsupported:
                pass

    def at(self, i):
        if isinstance(i, int) and i == 0:
            return self.v0
        if self.closed is not None:
            return self.closed(i)
        if not self.free:
            ctx().inexact("a recurrence is compared by induction only")
        return self.wrap(self.f(zint(i)))


def fold(v0, n, step, name="fold"):
    """The value after n steps (v0 itself when n = 0 is known)."""
    return Fold(v0, n, step, name).at(n)


def lookup(x):
    t = getattr(x, "t", None)
    if t is None or not z3.is_app(t) or t.num_args() != 1:
        return None
    return ctx().store.get("folds", {}).get(t.decl().name())


def same_fold(name, a, b, depth):
    """Prove a = b by induction when both are complete recurrences; False when not applicable."""
    from .same import same
    fa, fb = lookup(a), lookup(b)
    if fa is None or fb is None or fa.sort != fb.sort:
        return False
    c = ctx()
    if fa is fb:
        c.prove(name, a.t == b.t)
        return True
    if not (c.entails(a.t.arg(0) == b.t.arg(0))):
        return False
    same(name, fa.v0, fb.v0, depth + 1)
    x = fa.wrap(z3.Const(c.fresh("ih"), fa.sort))
    res = c.forall(SymInt(a.t.arg(0)), lambda j: same(name, fa.step(j, x), fb.step(j, x), depth + 1))
    for r in res:
        if isinstance(r, Raised):
            c.undecided(name, f"a step of a recurrence may raise: {r!r}")
    return True
