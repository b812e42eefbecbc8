"""Equality of symbolic values: `eq_now` for the code's own `==`, `prove_same` for obligations."""
from __future__ import annotations

from fractions import Fraction

import numpy as np
import z3

from .core import ctx, Unsupported, Infeasible, as_z3bool
from .scal import SymBool, SymInt, SymReal, mkbool, NUM
from .strs import SymStr
from .folds import same_fold
from .seq import (VSeq, Unit, Tab, Join, Abs, PyList, PyDict, as_vseq, same_int, zint, ieq,
                  to_content, is_seqlike)


def conj(bs):
    ts = []
    for b in bs:
        if b is False:
            return False
        if b is not True:
            ts.append(as_z3bool(b))
    return mkbool(z3.And(*ts)) if ts else True


def eq_now(a, b):
    """a == b as a Python bool or SymBool, for sequences of known segments."""
    a, b = as_vseq(a), as_vseq(b)
    ca, cb = a.concrete(), b.concrete()
    if ca is not None and cb is not None:
        if len(ca) != len(cb):
            return False
        out = []
        for x, y in zip(ca, cb):
            if x is y:
                continue
            if is_seqlike(x) and is_seqlike(y):
                out.append(eq_now(x, y))
                continue
            e = x == y
            if e is NotImplemented:
                e = False
            out.append(e)
        return conj(out)
    # different lengths?
    la, lb = a.length(), b.length()
    if not ieq(la, lb):
        return False
    if ca is not None or cb is not None:
        n = len(ca if ca is not None else cb)
        return conj([a.at(i) == b.at(i) for i in range(n)])
    if len(a.segs) == 1 and len(b.segs) == 1 and isinstance(a.segs[0], Tab) \
            and isinstance(b.segs[0], Tab):
        # all elements equal, or some pair differs
        c = ctx()
        f, g, n = a.segs[0].f, b.segs[0].f, a.segs[0].n
        if all(x is True for x in c.forall(n, lambda i: f(i) == g(i))):
            return True
        if c.choose(2) == 0:
            c.hyp(n, lambda j: _truthy(f(j) == g(j)))
            return True
        j = c.index(n)
        c.assume(z3.Not(_truthy(f(j) == g(j))))
        return False
    raise Unsupported("comparison of symbolic sequences")


def _truthy(v):
    return as_z3bool(v)


class Opaque:
    """Base of opaque symbolic values identified by a z3 term."""


class Agg:
    """The value of an order-dependent reduction over a sequence (reduce, max, sum, ...)."""
    __pyvc_sym__ = True

    def __init__(self, kind, fn, seq):
        self.kind, self.fn, self.seq = kind, fn, seq


def prove_same(name, a, b, what=""):
    """Obligation `name`: a and b are the same value (content for containers, identity for
    nodes and other objects, exact reals for numbers)."""
    c = ctx()
    same(name, a, b, 0, what)


def _fail(name, why):
    ctx().fail(name, why)


def is_scalar(x):
    return isinstance(x, (SymReal, SymInt, SymBool)) or isinstance(x, NUM) \
        or (isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object)


def same(name, a, b, depth=0, what=""):
    c = ctx()
    if a is b:
        c.prove(name, True)
        return
    if depth > 40:
        raise Unsupported("comparison is too deep")
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if np.shape(a) != np.shape(b):
            return _fail(name, f"{what}: shape {np.shape(a)} against {np.shape(b)}")
        for x, y in zip(np.ravel(np.asarray(a, dtype=object)), np.ravel(np.asarray(b, dtype=object))):
            same(name, x, y, depth + 1, what)
        if not np.size(a):
            c.prove(name, True)
        return
    if "folds" in c.store and same_fold(name, a, b, depth):
        return
    h = getattr(type(a), "__pyvc_same__", None)
    if h is not None:
        r = h(a, name, b)
        if r is not NotImplemented:
            return
    h = getattr(type(b), "__pyvc_same__", None)
    if h is not None:
        r = h(b, name, a)
        if r is not NotImplemented:
            return
    if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
        if not (isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr))):
            return _fail(name, f"{what}: {a!r} against {b!r}")
        e = SymStr.of(a) == SymStr.of(b)
        c.prove(name, e)
        return
    if is_scalar(a) and is_scalar(b):
        e = _scal(a) == _scal(b)
        c.prove(name, e)
        return
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.kind != b.kind or (a.fn is not b.fn):
            return _fail(name, f"{what}: different reductions")
        return same(name, a.seq, b.seq, depth + 1, what)
    if isinstance(a, dict) and isinstance(b, dict):
        return same_seq(name, to_content(a).items(), to_content(b).items(), depth + 1, what)
    sa, sb = as_vseq(a), as_vseq(b)
    if sa is not None and sb is not None:
        return same_seq(name, sa, sb, depth + 1, what)
    try:
        if type(a) is type(b) and not getattr(type(a), "__pyvc_sym__", False) and bool(a == b):
            c.prove(name, True)
            return
    except Exception:
        pass
    _fail(name, f"{what}: {_r(a)} against {_r(b)}")


def _r(x):
    try:
        return repr(x)[:80]
    except Exception:
        return type(x).__name__


def _scal(x):
    if isinstance(x, np.ndarray):
        return x.item()
    return x


def norm(segs):
    """Drop segments that are known to be empty."""
    out = []
    for s in segs:
        if isinstance(s, (Tab, Join)):
            n = s.n
            if (isinstance(n, int) and n == 0) or (not isinstance(n, int) and ctx().entails(n.t == 0)):
                continue
        if isinstance(s, Join):
            one = getattr(s, "_single", None)
        out.append(s)
    return out


def same_seq(name, a, b, depth, what):
    c = ctx()
    sa, sb = norm(a.segs), norm(b.segs)
    steps = 0
    while True:
        steps += 1
        if steps > 60:
            raise Unsupported("comparison of symbolic sequences does not terminate")
        if not sa and not sb:
            c.prove(name, True)
            return
        x, y = (sa[0] if sa else None), (sb[0] if sb else None)
        if isinstance(x, Unit) and isinstance(y, Unit):
            same(name, x.x, y.x, depth + 1, what)
            sa, sb = sa[1:], sb[1:]
            continue
        if x is y and x is not None:
            sa, sb = sa[1:], sb[1:]
            continue
        if isinstance(x, Abs) and isinstance(y, Abs) and same_abs(name, x, y, depth, what):
            sa, sb = sa[1:], sb[1:]
            continue
        if isinstance(x, (Tab, Join)) and isinstance(y, (Tab, Join)) and same_int(x.n, y.n):
            def element(i):
                p, q = x.f(i), y.f(i)
                if isinstance(x, Tab) and isinstance(y, Tab):
                    return same(name, p, q, depth + 1, what)
                if isinstance(x, Tab):
                    p = VSeq.unit(p)
                if isinstance(y, Tab):
                    q = VSeq.unit(q)
                return same_seq(name, p, q, depth + 1, what)
            quantified(name, x.n, element)
            sa, sb = sa[1:], sb[1:]
            continue
        if isinstance(x, Tab) and isinstance(y, Tab) and len(sa) == 1 and len(sb) == 1:
            c.prove(name, zint(x.n) == zint(y.n))
            return
        if isinstance(x, Tab) and isinstance(y, Tab):
            # consume the shorter of the two
            if c.branch(zint(x.n) <= zint(y.n)):
                f, g, n = x.f, y.f, x.n
                quantified(name, n, lambda i: same(name, f(i), g(i), depth + 1, what))
                sa = sa[1:]
                sb = norm([Tab(y.n - n, lambda j, g=g, n=n: g(j + n))] + sb[1:])
            else:
                f, g, n = x.f, y.f, y.n
                quantified(name, n, lambda i: same(name, f(i), g(i), depth + 1, what))
                sb = sb[1:]
                sa = norm([Tab(x.n - n, lambda j, f=f, n=n: f(j + n))] + sa[1:])
            continue
        # unfold one element on each side
        ha = VSeq(sa).head_tail() if sa else None
        hb = VSeq(sb).head_tail() if sb else None
        if ha is None and hb is None:
            c.prove(name, True)
            return
        if ha is None or hb is None:
            return _fail(name, f"{what}: sequences of different length")
        same(name, ha[0], hb[0], depth + 1, what)
        sa, sb = norm(ha[1].segs), norm(hb[1].segs)


def quantified(name, n, element):
    """element(i) proves `name` at a fresh index."""
    ctx().each(name, n, element)


def same_abs(name, x, y, depth, what):
    c = ctx()
    for p, q in ((x, y), (y, x)):
        h = p.info.get("eq")
        if h is not None:
            r = h(name, p, q)
            if r is not None:
                return r
    bx, by = x.info.get("base", x), y.info.get("base", y)
    if bx is not by:
        if bx.tag != by.tag or len(bx.args) != len(by.args):
            return False
        for p, q in zip(bx.args, by.args):
            if p is q:
                continue
            tp, tq = getattr(p, "t", p), getattr(q, "t", q)
            if isinstance(p, str):
                tp = z3.StringVal(p)
            if isinstance(q, str):
                tq = z3.StringVal(q)
            if isinstance(tp, z3.ExprRef) and isinstance(tq, z3.ExprRef) and tp.sort() == tq.sort():
                if not c.entails(tp == tq):
                    return False
            else:
                return False
    mx, my = x.info.get("maps", ()), y.info.get("maps", ())
    if not mx and not my:
        return True
    gen = bx.info.get("generic")
    if gen is None:
        return mx == my

    def element():
        from .loops import draw
        e = draw(bx)
        p = q = e
        for g in mx:
            p = g(p)
        for g in my:
            q = g(q)
        same(name, p, q, depth + 1, what)
    c.under(name, [], element)
    return True
