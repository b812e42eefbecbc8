"""Models of builtins, itertools, functools, numpy and jax.numpy for symbolic arguments.

A model returns NotImplemented to let CPython's own implementation run.
"""
from __future__ import annotations

import builtins
import functools
import itertools
import math
import operator
import types

import numpy as np
import z3

from .core import ctx, Ctx, Unsupported, Infeasible, Raised, as_z3bool
from .scal import SymBool, SymInt, SymReal, mkbool, mkint, NUM
from . import scal
from .strs import SymStr, SplitAll
from .seq import (VSeq, Unit, Tab, Join, Abs, PyList, PyDict, DictContent, KeyMap, as_vseq, zint,
                  ilt, ieq, known_int, to_content, dict_to_sym, is_seqlike)


class SymType:
    """The class of a symbolic object (z3 sort Cls)."""
    __pyvc_sym__ = True
    Sort = z3.DeclareSort("Cls")

    def __init__(self, t, base=None):
        self.t = t
        self.base = base         # interpreted class every value is an instance of

    @property
    def __name__(self):
        f = z3.Function("cls.name", SymType.Sort, z3.StringSort())
        return SymStr.term(f(self.t), True)

    def __mro_entries__(self, bases):
        """A class derived from a symbolic class: derived from the class all of them derive from."""
        if self.base is None:
            raise Unsupported("class derived from a symbolic class")
        return (self.base,)

    def __eq__(self, o):
        if isinstance(o, SymType):
            return mkbool(self.t == o.t)
        return mkbool(self.t == cls_term(o)) if isinstance(o, type) else False

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def __pyvc_is__(self, o):
        if isinstance(o, (SymType, type)):
            return self == o
        return False

    __hash__ = None

    def __pyvc_same__(self, name, o):
        if not isinstance(o, (SymType, type)):
            ctx().fail(name, f"type against {o!r}")
            return
        ctx().prove(name, self == o)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        b = object.__getattribute__(self, "base")
        if b is None:
            raise Unsupported(f"attribute {name} of a symbolic class")
        for k in b.__mro__:
            if name in k.__dict__:
                d = k.__dict__[name]
                if isinstance(d, classmethod):
                    return types.MethodType(d.__func__, self)
                if isinstance(d, staticmethod):
                    return d.__func__
                return d
        raise AttributeError(name)


def cls_term(c):
    if isinstance(c, SymType):
        return c.t
    k = ctx().store.get("classes", {})
    name = f"{getattr(c, '__module__', '')}.{c.__qualname__}"
    if c not in k:
        t = z3.Const("cls!" + name, SymType.Sort)
        for other in k.values():
            ctx().assume(t != other)
        ctx().store["classes"] = k = {**k, c: t}
        class_facts()
    return k[c]


def class_facts(t=None, b=None):
    """What is known about the subclass relation among the classes used so far."""
    c = ctx()
    q = c.store.setdefault("subclass queries", ())
    if t is not None:
        for u, d in q:
            if u.eq(t) and d is b:
                return
        for u, d in q:
            if u.eq(t) and d is not b:
                for x, y in ((b, d), (d, b)):
                    if issubclass(x, y):
                        c.assume(z3.Implies(subclass_pred()(t, cls_term(x)), subclass_pred()(t, cls_term(y))))
        c.store["subclass queries"] = q = q + ((t, b),)
    known = c.store.setdefault("subclass known", frozenset())
    for k, kt in list(c.store.get("classes", {}).items()):
        for _, d in q:
            if (k, d) not in known:
                known = known | {(k, d)}
                c.store["subclass known"] = known
                f = subclass_pred()(kt, cls_term(d))
                c.assume(f if issubclass(k, d) else z3.Not(f))


def subclass_pred():
    return z3.Function("subclass", SymType.Sort, SymType.Sort, z3.BoolSort())


def pyvc_type(o):
    if getattr(type(o), "__pyvc_sym__", False) or isinstance(o, (SymReal, SymInt, SymBool)):
        if isinstance(o, SymReal):
            return float
        if isinstance(o, SymInt):
            return int
        if isinstance(o, SymBool):
            return bool
        t = getattr(o, "__pyvc_type__", None)
        if t is not None:
            return t
        raise Unsupported(f"type of {type(o).__name__}")
    if isinstance(o, PyList):
        return list
    if isinstance(o, PyDict):
        return dict
    t = getattr(o, "__pyvc_type__", None)
    if isinstance(t, (SymType, type)):
        return t
    return type(o)


def is_subclass(a, b):
    """issubclass for classes that may be symbolic: bool or SymBool."""
    if isinstance(b, tuple) or isinstance(b, types.UnionType):
        bs = b if isinstance(b, tuple) else b.__args__
        acc = False
        for x in bs:
            r = is_subclass(a, x)
            if r is True:
                return True
            if r is not False:
                acc = r if acc is False else acc | r
        return acc
    if b is object:
        return True
    if isinstance(a, SymType) and isinstance(b, type):
        if a.base is not None and issubclass(a.base, b):
            return True
        if a.base is not None and not any(issubclass(s, b) or issubclass(b, s)
                                          for s in (a.base,)) and not _related(a.base, b):
            return False
        r = subclass_pred()(a.t, cls_term(b))
        class_facts(a.t, b)
        return mkbool(r)
    if isinstance(a, SymType) or isinstance(b, SymType):
        if not isinstance(a, (type, SymType)):
            raise TypeError("issubclass() arg 1 must be a class")
        return mkbool(subclass_pred()(cls_term(a), cls_term(b)))
    return issubclass(a, b)


def _related(a, b):
    return any(issubclass(x, b) for x in all_subclasses(a)) if isinstance(b, type) else True


def all_subclasses(c):
    out = [c]
    for s in type.__subclasses__(c):
        out += all_subclasses(s)
    return out


def m_type(interp, args, kw):
    if len(args) != 1:
        return NotImplemented
    return pyvc_type(args[0])


def m_isinstance(interp, args, kw):
    o, c = args
    if isinstance(c, (type, tuple, types.UnionType)) or isinstance(c, SymType):
        t = pyvc_type(o) if needs_type(o) else None
        if t is not None:
            return is_subclass(t, c)
        if isinstance(c, SymType):
            return is_subclass(type(o), c)
        if isinstance(c, tuple) and any(isinstance(x, SymType) for x in c):
            return is_subclass(type(o), c)
    elif getattr(o, "__pyvc_sym__", False):
        # typing / abc classes
        n = getattr(c, "__name__", str(c))
        if n in ("Callable",):
            return callable(o)
        raise Unsupported(f"isinstance of a symbolic value against {c}")
    return NotImplemented


def needs_type(o):
    return isinstance(o, (SymReal, SymInt, SymBool)) or getattr(type(o), "__pyvc_sym__", False) \
        or isinstance(getattr(o, "__pyvc_type__", None), SymType)


def m_issubclass(interp, args, kw):
    a, b = args
    if isinstance(a, SymType) or isinstance(b, SymType) or (
            isinstance(b, tuple) and any(isinstance(x, SymType) for x in b)):
        return is_subclass(a, b)
    return NotImplemented


def m_len(interp, args, kw):
    o = args[0]
    h = getattr(type(o), "__pyvc_len__", None)
    if h is not None:
        return h(o)
    m = getattr(type(o), "__len__", None)
    from .interp import is_interp
    if m is not None and is_interp(m):
        return interp.call_function(m.__pyvc__, [o], {})
    return NotImplemented


def tosym(v, interp):
    """VSeq of any iterable, or None when native iteration is right."""
    sv = as_vseq(v, interp, native_ok=False)
    return None if sv is None else sv.settle()


def anysym(vs, interp):
    return any(as_vseq(v, interp, native_ok=False) is not None for v in vs)


def seqs(vs, interp):
    out = []
    for v in vs:
        s = as_vseq(v, interp, native_ok=False)
        if s is None:
            s = VSeq.of(list(interp.iterate(v)))
        out.append(s.settle())
    return out


def zip_seqs(ss):
    """zip of sequences, as a VSeq of tuples (stops at the shortest)."""
    c = ctx()
    cur = [list(s.segs) for s in ss]
    out = []
    steps = 0
    while True:
        steps += 1
        if steps > 60:
            raise Unsupported("zip of symbolic sequences")
        cur = [norm0(x) for x in cur]
        if any(not x for x in cur):
            return VSeq(out, "iter")
        heads = [x[0] for x in cur]
        if all(isinstance(h, Unit) for h in heads):
            out.append(Unit(tuple(h.x for h in heads)))
            cur = [x[1:] for x in cur]
            continue
        if all(isinstance(h, Tab) or is_tablike(h) for h in heads):
            ns = [seg_len(h) for h in heads]
            n = ns[0]
            for m in ns[1:]:
                if not (isinstance(n, int) and isinstance(m, int) and n == m) \
                        and not c.entails(zint(n) == zint(m)):
                    n = n if c.branch(zint(n) <= zint(m)) else m
            fs = [seg_at(h) for h in heads]
            out.append(Tab(n, lambda i, fs=fs: tuple(f(i) for f in fs)))
            cur = [([] if same_n(m, n) else [shift(h, n)]) + x[1:] for x, h, m in zip(cur, heads, ns)]
            continue
        if all(isinstance(h, Join) for h in heads):
            # segment-wise when the corresponding inner sequences have equal lengths
            n = heads[0].n
            if all(same_n(h.n, n) for h in heads[1:]) and all(aligned(hs) for hs in [heads]):
                out.append(Join(n, lambda i, hs=heads: zip_seqs([h.f(i) for h in hs])))
                cur = [x[1:] for x in cur]
                continue
        if all(isinstance(h, Abs) for h in heads):
            bases = [h.info.get("base", h) for h in heads]
            if all(b is bases[0] for b in bases):
                # views of one sequence
                from .seq import map_abs
                from .loops import apply_maps
                out.append(map_abs(bases[0], lambda x, hs=heads: tuple(apply_maps(x, h) for h in hs)))
                cur = [x[1:] for x in cur]
                continue
            al = heads[0].info.get("align")
            if al is not None and all(h.info.get("align") == al for h in heads):
                out.append(zip_abs(heads))
                cur = [x[1:] for x in cur]
                continue
        # unfold one element
        hts = []
        for x in cur:
            ht = VSeq(x).head_tail()
            if ht is None:
                return VSeq(out, "iter")
            hts.append(ht)
        out.append(Unit(tuple(h for h, _ in hts)))
        cur = [list(t.segs) for _, t in hts]


def zip_abs(heads):
    base = heads[0]

    def unfold():
        return zip_seqs([h.unfold() for h in heads])
    info = {"align": base.info.get("align"), "zipped": heads}
    bases = [h.info.get("base", h) for h in heads]
    joint = [b.info.get("joint") for b in bases]
    if joint[0] is not None and all(j == joint[0] for j in joint):
        from .loops import apply_maps
        info["generic"] = lambda: tuple(apply_maps(x, h) for x, h in zip(joint[0](bases), heads))
    return Abs("zip", tuple(heads), unfold, base.nonempty, **info)


def aligned(heads):
    c = ctx()
    n = heads[0].n

    def check(i):
        inner = [h.f(i) for h in heads]
        return len({align_sig(v) for v in inner}) == 1 and align_sig(inner[0]) is not None
    r = c.forall(n, check)
    return all(x is True for x in r)


def align_sig(v):
    out = []
    for s in v.segs:
        if isinstance(s, Unit):
            out.append("u")
        elif isinstance(s, Abs) and s.info.get("align") is not None:
            out.append(("abs", s.info["align"]))
        else:
            return None
    return tuple(out)


def norm0(segs):
    segs = list(segs)
    while segs and isinstance(segs[0], (Tab, Join)):
        n = segs[0].n
        if (isinstance(n, int) and n == 0) or (not isinstance(n, int) and ctx().entails(n.t == 0)):
            segs.pop(0)
        else:
            break
    return segs


def is_tablike(h):
    return isinstance(h, Abs) and h.elem is not None


def seg_len(h):
    return h.length()


def seg_at(h):
    return h.f if isinstance(h, Tab) else h.elem


def shift(h, n):
    f = seg_at(h)
    return Tab(seg_len(h) - n, lambda j: f(j + n))


def same_n(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ctx().entails(zint(a) == zint(b))


def m_zip(interp, args, kw):
    if not anysym(args, interp):
        return NotImplemented if all(native_iterable(a) for a in args) else \
            zip(*[interp.iterate(a) for a in args])
    return zip_seqs(seqs(args, interp))


def native_iterable(a):
    from .interp import is_interp
    m = getattr(type(a), "__iter__", None)
    return not (m is not None and is_interp(m))


def index_seq(n):
    return VSeq([Tab(n, lambda i: i)], "range")


def m_range(interp, args, kw):
    if not any(isinstance(a, SymInt) for a in args):
        return NotImplemented
    lo, hi, st = 0, None, 1
    if len(args) == 1:
        hi = args[0]
    elif len(args) == 2:
        lo, hi = args
    else:
        lo, hi, st = args
    if st == 1:
        n = hi - lo
        if ilt(n, 0):
            n = 0
        return VSeq.tab(n, lambda i: lo + i, "range")
    if st == -1:
        n = lo - hi
        if ilt(n, 0):
            n = 0
        return VSeq.tab(n, lambda i: lo - i, "range")
    if isinstance(st, int) and st > 0:
        n = (hi - lo + (st - 1)) // st
        if ilt(n, 0):
            n = 0
        return VSeq.tab(n, lambda i: lo + i * st, "range")
    if isinstance(st, SymInt) and ctx().entails(st.t >= 1):
        q = quotient(hi - lo, st)
        if q is not None:
            return VSeq.tab(0 if ilt(q, 0) else q, lambda i: lo + i * st, "range")
    raise Unsupported("symbolic range step")


def quotient(x, d):
    """q with x = q * d, when x is such a product."""
    if not isinstance(x, SymInt):
        return 0 if isinstance(x, int) and x == 0 else None
    for t in (x.t, z3.simplify(x.t)):
        if t.eq(d.t):
            return 1
        if z3.is_mul(t):
            a = list(t.children())
            for k, f in enumerate(a):
                if f.eq(d.t):
                    return SymInt(z3.Product(*(a[:k] + a[k + 1:])))
    return None


def m_enumerate(interp, args, kw):
    start = kw.get("start", args[1] if len(args) > 1 else 0)
    s = as_vseq(args[0], interp, native_ok=False)
    if s is None:
        if native_iterable(args[0]) and not isinstance(start, SymInt):
            return NotImplemented
        s = VSeq.of(list(interp.iterate(args[0])))
    s = s.settle()
    out = []
    k = start
    for g in s.segs:
        if isinstance(g, Unit):
            out.append(Unit((k, g.x)))
        elif isinstance(g, Tab) or is_tablike(g):
            f, k0 = seg_at(g), k
            out.append(Tab(g.length(), lambda i, f=f, k0=k0: (k0 + i, f(i))))
        else:
            raise Unsupported("enumerate over a nested sequence")
        k = k + g.length()
    return VSeq(out, "iter")


def m_list(interp, args, kw):
    if Ctx.current is None:
        return list(interp.iterate(args[0])) if args else []
    if not args:
        return PyList()
    s = as_vseq(args[0], interp, native_ok=False)
    if s is None:
        return PyList(interp.iterate(args[0]))
    return PyList.sym(VSeq(s.settle().segs, "list"))


def m_tuple(interp, args, kw):
    if not args:
        return ()
    s = as_vseq(args[0], interp, native_ok=False)
    if s is None:
        return tuple(interp.iterate(args[0]))
    s.settle()
    if all(isinstance(g, Unit) for g in s.segs):
        return tuple(g.x for g in s.segs)
    return VSeq(s.segs, "tuple")


def m_dict(interp, args, kw):
    from .loops import dict_from
    if Ctx.current is None:
        return NotImplemented
    d = PyDict()
    if args:
        a = args[0]
        if isinstance(a, PyDict) and a._sym is not None:
            d.set_state(a._sym)
        elif isinstance(a, dict):
            d.update(a)
        else:
            s = as_vseq(a, interp, native_ok=False)
            if s is not None:
                d = dict_from(s.settle())
            else:
                for p in interp.iterate(a):
                    k, v = interp.unpack(p, 2)
                    d[k] = v
    for k, v in kw.items():
        d[k] = v
    return d


def m_fromkeys(interp, args, kw):
    from .loops import dict_from
    if Ctx.current is None:
        return NotImplemented
    v = args[1] if len(args) > 1 else None
    s = as_vseq(args[0], interp, native_ok=False)
    if s is None:
        s = VSeq.of(list(interp.iterate(args[0])))
    return dict_from(s.settle().map(lambda k: (k, v)))


def m_set(interp, args, kw):
    if not args:
        return set()
    s = as_vseq(args[0], interp, native_ok=False)
    if s is None:
        return interp.build_set(list(interp.iterate(args[0])))
    from .loops import SetOf
    return SetOf(s.settle())


def m_iter(interp, args, kw):
    s = as_vseq(args[0], interp, native_ok=False)
    if s is None:
        if len(args) == 1 and not native_iterable(args[0]):
            return interp.iterate(args[0])
        return NotImplemented
    return SymIter(s.settle())


class SymIter:
    """A consumable iterator over a symbolic sequence."""
    __pyvc_sym__ = True
    __pyvc_type__ = type(iter(()))

    def __init__(self, s):
        self.rest = s

    def __pyvc_seq__(self):
        r = VSeq(self.rest.segs, "iter")
        self._set(VSeq([]))
        return r

    def _set(self, v):
        from .core import Mut
        c = ctx()

        def restore(x):
            self.rest = x
        c.mutations.append(Mut(self, lambda: self.rest, restore))
        self.rest = v


def m_next(interp, args, kw):
    it = args[0]
    if isinstance(it, VSeq) and it.kind == "iter":
        if it.used:
            raise Unsupported("an iterator is consumed twice")
        it.used, it.pending = True, None        # what is left of it cannot be used again
        return first_match(interp, it, *args[1:])
    if isinstance(it, SymIter):
        ht = it.rest.head_tail()
        if ht is None:
            if len(args) > 1:
                return args[1]
            raise StopIteration()
        it._set(ht[1])
        return ht[0]
    return NotImplemented


def first_match(interp, s, *default):
    """The first element of a generator, whose elements before that are evaluated in vain."""
    c = ctx()
    for g in s.segs:
        if isinstance(g, Unit):
            return g.x
        if isinstance(g, Tab):
            if ieq(g.n, 0):
                continue
            return g.f(0)
        if not isinstance(g, Join):
            raise Unsupported("next() on an opaque sequence")
        if known_int(g.n) == 0:
            continue

        def h(i, f=g.f):
            try:
                v = f(i)
            except Exception:
                raise Infeasible()
            if not _nothing(v):
                raise Infeasible()
        if c.choose(2) == 0:
            j = c.index(g.n)
            c.hyp(j, h)
            v = g.f(j)
            if _nothing(v):
                raise Infeasible()
            return first_match(interp, v)
        c.hyp(g.n, h)
    if default:
        return default[0]
    raise StopIteration()


def _nothing(v):
    for g in v.segs:
        if isinstance(g, Unit):
            return False
        if isinstance(g, Tab):
            if not ieq(g.n, 0):
                return False
        elif not (isinstance(g, Join) and known_int(g.n) == 0):
            raise Unsupported("is a nested sequence empty?")
    return True


def truthy(interp, v):
    """Truth value as bool or SymBool without forking on symbolic booleans."""
    if isinstance(v, (bool, SymBool)):
        return v
    if isinstance(v, SymInt):
        return v != 0
    return interp.truth(v)


def some(interp, s):
    """Does some element of s hold?  Forks; the negative case is recorded for instantiation."""
    c = ctx()
    acc = []
    for g in s.segs:
        if isinstance(g, Unit):
            if interp.truth(g.x):
                return True
        elif isinstance(g, Tab) or is_tablike(g):
            n, f = g.length(), seg_at(g)
            r = c.forall(n, lambda i: _decided(interp, f(i)))
            if r and all(x is False for x in r):
                continue
            if c.choose(2) == 0:
                j = c.index(n)
                v = f(j)
                if not interp.truth(v):
                    raise Infeasible()
                c.store.setdefault("witness", []).append(j)
                return True

            def h(j, f=f):
                if interp.truth(f(j)):
                    raise Infeasible()
            c.hyp(n, h)
        elif isinstance(g, Join):
            n, f = g.n, g.f
            if known_int(n) == 0:
                continue
            if c.choose(2) == 0:
                j = c.index(n)
                if not some(interp, f(j)):
                    raise Infeasible()
                return True
            raise Unsupported("absence in a nested sequence")
        else:
            raise Unsupported("search in an opaque sequence")
    return False


def _decided(interp, v):
    t = truthy(interp, v)
    if isinstance(t, bool):
        return t
    return ctx().known(t)


def m_any(interp, args, kw):
    s = as_vseq(args[0], interp, native_ok=False)
    if s is None:
        for x in interp.iterate(args[0]):
            if interp.truth(x):
                return True
        return False
    return some(interp, s.settle())


def m_all(interp, args, kw):
    s = as_vseq(args[0], interp, native_ok=False)
    if s is None:
        for x in interp.iterate(args[0]):
            if not interp.truth(x):
                return False
        return True
    s = s.settle()

    def neg(x):
        t = truthy(interp, x)
        return mkbool(z3.Not(t.t)) if isinstance(t, SymBool) else not t
    return not some(interp, s.map(neg))


def m_sum(interp, args, kw):
    s = as_vseq(args[0], interp, native_ok=False)
    start = kw.get("start", args[1] if len(args) > 1 else 0)
    if s is None:
        acc = start
        for x in interp.iterate(args[0]):
            acc = interp.binop(operator.add, acc, x)
        return acc
    c = s.settle().concrete()
    if c is not None:
        for x in c:
            start = interp.binop(operator.add, start, x)
        return start
    return aggregate("sum", None, VSeq([Unit(start)] + s.segs))


def _best(interp, xs, key, better):
    best, bk = None, None
    for x in xs:
        k = interp.call(key, [x], {}) if key else x
        if bk is None or interp.truth(better(k, bk)):
            best, bk = x, k
    return best


def m_max(interp, args, kw, better=operator.gt, tag="max"):
    key = kw.get("key")
    if len(args) > 1:
        xs = list(args)
    else:
        s = as_vseq(args[0], interp, native_ok=False)
        if s is None:
            xs = list(interp.iterate(args[0]))
        else:
            xs = s.settle().concrete()
            if xs is None:
                d = kw.get("default", _no)
                if key is not None:
                    raise Unsupported("max with key over a symbolic sequence")
                empty = ieq(s.length(), 0)
                if empty:
                    if d is _no:
                        raise ValueError(f"{tag}() arg is an empty sequence")
                    return d
                return aggregate(tag, None, s)
    if not xs:
        if "default" in kw:
            return kw["default"]
        raise ValueError(f"{tag}() iterable argument is empty")
    if not any(_symnum(x) for x in xs) and key is None:
        return (max if tag == "max" else min)(xs)
    return _best(interp, xs, key, better)


_no = object()


def _symnum(x):
    return isinstance(x, (SymReal, SymInt, SymStr)) or getattr(type(x), "__pyvc_sym__", False)


def m_min(interp, args, kw):
    return m_max(interp, args, kw, operator.lt, "min")


def aggregate(tag, fn, s):
    """A reduction over a symbolic sequence: equal for equal sequences."""
    from .same import same
    from .core import Report, PROVED
    c = ctx()
    aggs = c.store.setdefault("aggs", [])
    for tag2, fn2, s2, v in aggs:
        if tag2 != tag or fn2 is not fn:
            continue
        rep, c.report = c.report, Report()
        try:
            c.sub(lambda: same("agg", s, s2))
            ok = c.report.obls and all(o.status == PROVED for o in c.report.obls.values())
        except Unsupported:
            ok = False
        finally:
            c.report = rep
        if ok:
            return v
    if tag in ("max", "min"):
        v = extremum(tag, s)
    elif tag == "sum":
        v = SymInt(z3.Int(c.fresh(tag)))
    else:
        v = Opaque(z3.Const(c.fresh(tag), Opaque.Sort))
    aggs.append((tag, fn, s, v))
    c.store["aggs"] = list(aggs)
    return v


def extremum(tag, s):
    """The largest (smallest) element of a non-empty sequence: a bound that is attained."""
    c = ctx()
    if len(s.segs) != 1 or not isinstance(s.segs[0], Tab):
        raise Unsupported(f"{tag} over a nested sequence")
    g = s.segs[0]
    w = z3.Int(c.fresh(tag + ".at"))
    c.assume(z3.And(w >= 0, w < zint(g.n)))
    x = g.f(SymInt(w))
    if not isinstance(x, (SymInt, SymReal)):
        raise Unsupported(f"{tag} of {type(x).__name__}")
    v = type(x)(z3.Const(c.fresh(tag), x.t.sort()))
    c.assume(v.t == x.t)

    def bound(j):
        y = g.f(j).t
        return v.t >= y if tag == "max" else v.t <= y
    c.hyp(g.n, bound)
    c.store["witnesses"] = c.store.get("witnesses", []) + [SymInt(w)]
    return v


class Opaque:
    """A value the code may only pass around or give to opaque functions."""
    __pyvc_sym__ = True
    Sort = z3.DeclareSort("Val")

    def __init__(self, t, py=None):
        self.t = t

    def __pyvc_is__(self, o):
        if isinstance(o, Opaque):
            return mkbool(self.t == o.t)
        if o is None:
            return mkbool(self.t == NONE)
        if isinstance(o, (bool, type(Ellipsis), type(NotImplemented))):
            raise Unsupported(f"whether an opaque value is {o}")
        return False

    def __eq__(self, o):
        if isinstance(o, Opaque):
            return mkbool(self.t == o.t)
        raise Unsupported("comparison of an opaque value")

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    __hash__ = None

    def __pyvc_same__(self, name, o):
        if o is None:
            ctx().prove(name, self.t == NONE)
            return
        if not isinstance(o, Opaque):
            ctx().fail(name, f"opaque value against {type(o).__name__}")
            return
        ctx().prove(name, self.t == o.t)

    def __pyvc_truth__(self):
        raise Unsupported("truth value of an opaque value")

    def __repr__(self):
        return f"<{self.t}>"

    @property
    def __pyvc_type__(self):
        f = z3.Function("type_of", Opaque.Sort, SymType.Sort)
        return SymType(f(self.t))


NONE = z3.Const("None", Opaque.Sort)          # an opaque value may be None


class OpaqueFn:
    """An arbitrary pure, total function on opaque values."""
    __pyvc_sym__ = True

    def __init__(self, name):
        self.name = name

    def __call__(self, *a):
        ts = []
        for x in a:
            if not isinstance(x, Opaque):
                raise Unsupported(f"opaque function applied to {type(x).__name__}")
            ts.append(x.t)
        f = z3.Function(self.name, *([Opaque.Sort] * len(ts)), Opaque.Sort)
        return Opaque(f(*ts))


def m_reduce(interp, args, kw):
    fn, it = args[0], args[1]
    s = as_vseq(it, interp, native_ok=False)
    if s is None:
        xs = list(interp.iterate(it))
    else:
        xs = s.settle().concrete()
        if xs is None:
            if len(args) > 2:
                s = VSeq([Unit(args[2])] + s.segs)
            segs = list(s.segs)
            if not norm0(segs):
                raise TypeError("reduce() of empty iterable with no initial value")
            v = None
            for k, g in enumerate(segs):
                if isinstance(g, Unit):
                    v = g.x if k == 0 else interp.call(fn, [v, g.x], {})
                elif isinstance(g, Tab):
                    f, n = g.f, g.n
                    if k == 0:
                        if ieq(n, 0):
                            raise Unsupported("reduce over a sequence that may be empty")
                        v, f, n = f(0), (lambda j, f=f: f(j + 1)), n - 1
                    if isinstance(n, int) and n == 0 or ctx().entails(zint(n) == 0):
                        continue
                    from .folds import fold, kind_of
                    from .loops import pure_at
                    if kind_of(v) is None:
                        return aggregate("reduce", fn, s)
                    v = fold(v, n, pure_at(lambda j, x, f=f: interp.call(fn, [x, f(j)], {}),
                                           "reduce"), "reduce")
                else:
                    return aggregate("reduce", fn, s)
            return v
    if len(args) > 2:
        xs = [args[2]] + xs
    if not xs:
        raise TypeError("reduce() of empty iterable with no initial value")
    acc = xs[0]
    for x in xs[1:]:
        acc = interp.call(fn, [acc, x], {})
    return acc


def m_accumulate(interp, args, kw):
    """itertools.accumulate: the partial results of a reduction."""
    it, fn = args[0], (args[1] if len(args) > 1 else kw.get("func"))
    s = as_vseq(it, interp, native_ok=False)
    if s is None or s.settle().concrete() is not None or set(kw) - {"func", "initial"}:
        return NotImplemented
    segs = norm0(list(s.segs))
    if not segs:
        return NotImplemented
    add = (lambda x, y: interp.call(fn, [x, y], {})) if fn is not None else \
        (lambda x, y: interp.binop(operator.add, x, y))
    v0, out = kw.get("initial"), []
    if v0 is not None:
        out.append(Unit(v0))
    for g in segs:
        if isinstance(g, Unit):
            v0 = g.x if v0 is None else add(v0, g.x)
            out.append(Unit(v0))
            continue
        if not isinstance(g, Tab) or v0 is None:
            raise Unsupported("accumulate over a symbolic sequence")
        from .folds import Fold, kind_of
        from .loops import pure_at
        if kind_of(v0) is None:
            raise Unsupported("accumulate over a symbolic sequence")
        fo = Fold(v0, g.n, pure_at(lambda j, x, f=g.f: add(x, f(j)), "accumulate"), "accumulate")
        out.append(Tab(g.n, lambda i, fo=fo: fo.at(i + 1)))
        v0 = fo.at(g.n)
    return VSeq(out, "iter")


def m_map(interp, args, kw):
    fn, its = args[0], args[1:]
    if anysym(its, interp):
        from .loops import pure_at
        z = zip_seqs(seqs(its, interp)) if len(its) > 1 else seqs(its, interp)[0].map(lambda x: (x,))
        return VSeq(z.map(pure_at(lambda t: interp.call(fn, list(t), {}), "map()")).segs, "iter")
    lists = [list(interp.iterate(i)) for i in its]
    return iter([interp.call(fn, list(t), {}) for t in zip(*lists)])


def m_filter(interp, args, kw):
    fn, it = args
    xs = list(interp.iterate(it))
    return iter([x for x in xs if interp.truth(interp.call(fn, [x], {}) if fn else x)])


def m_reversed(interp, args, kw):
    s = as_vseq(args[0], interp, native_ok=False)
    if s is None:
        return NotImplemented
    return VSeq(s.reversed().segs, "iter")


def m_sorted(interp, args, kw):
    s = as_vseq(args[0], interp, native_ok=False)
    if s is not None and s.concrete() is None:
        raise Unsupported("sorting a symbolic sequence")
    xs = list(interp.iterate(args[0]))
    key = kw.get("key")
    if not any(_symnum(x) for x in xs):
        if key is not None:
            ks = [interp.call(key, [x], {}) for x in xs]
            if any(_symnum(k) for k in ks):
                return PyList(insertion(interp, list(zip(ks, xs)), kw.get("reverse", False)))
        return PyList(sorted(xs, key=key, reverse=kw.get("reverse", False)))
    ks = [interp.call(key, [x], {}) if key else x for x in xs]
    return PyList(insertion(interp, list(zip(ks, xs)), kw.get("reverse", False)))


def insertion(interp, pairs, reverse):
    out = []
    for k, x in pairs:
        i = len(out)
        while i > 0 and interp.truth((k > out[i - 1][0]) if reverse else (k < out[i - 1][0])):
            i -= 1
        out.insert(i, (k, x))
    return [x for _, x in out]


def m_chain(interp, args, kw):
    from .interp import StarSeq
    if not any(isinstance(a, StarSeq) for a in args) and not anysym(args, interp):
        return itertools.chain(*[interp.iterate(a) for a in args])
    segs = []
    for a in args:
        if isinstance(a, StarSeq):
            segs.extend(flatten1(a.seq, interp).segs)
        else:
            s = as_vseq(a, interp, native_ok=False)
            if s is None:
                s = VSeq.of(list(interp.iterate(a)))
            segs.extend(s.settle().segs)
    return VSeq(segs, "iter")


def flatten1(s, interp):
    """Concatenation of the sequences in s."""
    segs = []

    def seq(v):
        r = as_vseq(v, interp)
        if r is None:
            r = VSeq.of(list(interp.iterate(v)))
        return VSeq(r.segs)
    for g in s.segs:
        if isinstance(g, Unit):
            segs.extend(seq(g.x).segs)
        elif isinstance(g, Tab):
            segs.append(Join(g.n, lambda i, f=g.f: seq(f(i))))
        elif isinstance(g, Join):
            segs.append(Join(g.n, lambda i, f=g.f: flatten1(f(i), interp)))
        else:
            raise Unsupported("flattening an opaque sequence")
    return VSeq(segs, "iter")


def m_from_iterable(interp, args, kw):
    s = as_vseq(args[0], interp, native_ok=False)
    if s is None:
        s = VSeq.of(list(interp.iterate(args[0])))
    r = flatten1(s.settle(), interp)
    if r.concrete() is not None:
        return iter(r.concrete())
    return r


def m_str(interp, args, kw):
    if not args:
        return ""
    x = args[0]
    if isinstance(x, SymStr):
        return x
    from .strs import fmt
    return fmt(interp, x)


def m_format(interp, args, kw):
    from .strs import fmt
    return fmt(interp, args[0], -1, args[1] if len(args) > 1 else None)


def m_repr(interp, args, kw):
    return interp.to_repr(args[0])


def m_int(interp, args, kw):
    x = args[0] if args else 0
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymStr):
        return x.to_int()
    if isinstance(x, SymBool):
        return 1 if interp.truth(x) else 0
    if isinstance(x, SymReal):
        raise Unsupported("int() of a symbolic real")
    return NotImplemented


def m_float(interp, args, kw):
    x = args[0] if args else 0.0
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return x.real()
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return x.ravel()[0]
    return NotImplemented


def m_bool(interp, args, kw):
    if not args:
        return False
    return interp.truth(args[0])


def m_callable(interp, args, kw):
    if getattr(type(args[0]), "__pyvc_sym__", False):
        return callable(args[0])
    return NotImplemented


def m_print(interp, args, kw):
    return None


def m_id(interp, args, kw):
    h = getattr(args[0], "__pyvc_id__", None)
    if h is not None:
        return h()
    if getattr(type(args[0]), "__pyvc_sym__", False):
        raise Unsupported("id() of a symbolic value")
    return NotImplemented


def m_abs(interp, args, kw):
    x = args[0]
    if isinstance(x, SymInt):
        return x if ctx().branch(x.t >= 0) else -x
    return NotImplemented


def m_deepcopy(interp, args, kw):
    raise Unsupported("copy.deepcopy")


def m_getattr(interp, args, kw):
    o, n = args[0], args[1]
    if not isinstance(n, str):
        raise Unsupported("getattr with a symbolic name")
    try:
        return interp.getattr(o, n)
    except AttributeError:
        if len(args) > 2:
            return args[2]
        raise


def m_setattr(interp, args, kw):
    interp.setattr(*args)


def m_hasattr(interp, args, kw):
    try:
        interp.getattr(args[0], args[1])
        return True
    except AttributeError:
        return False


def m_super(interp, args, kw):
    return NotImplemented


def m_round(interp, args, kw):
    if isinstance(args[0], SymReal):
        raise Unsupported("round of a symbolic real")
    return NotImplemented


def m_islice(interp, args, kw):
    s = as_vseq(args[0], interp, native_ok=False)
    if s is None:
        return itertools.islice(interp.iterate(args[0]), *args[1:])
    a = list(args[1:])
    sl = slice(*a)
    return VSeq(as_vseq(VSeq(s.settle().segs, "tuple")[sl]).segs, "iter")


def m_iterrepeat(interp, args, kw):
    if len(args) == 2 and isinstance(args[1], SymInt):
        return VSeq.tab(args[1], lambda i: args[0], "iter")
    return NotImplemented


def m_product(interp, args, kw):
    if not anysym(args, interp):
        return itertools.product(*[list(interp.iterate(a)) for a in args], **kw)
    ss = seqs(args, interp)

    def rec(k, pre):
        if k == len(ss):
            return VSeq.unit(tuple(pre))
        segs = []
        for g in ss[k].segs:
            if isinstance(g, Unit):
                segs.extend(rec(k + 1, pre + [g.x]).segs)
            elif isinstance(g, Tab):
                if k + 1 == len(ss):
                    segs.append(Tab(g.n, lambda i, f=g.f: tuple(pre + [f(i)])))
                else:
                    segs.append(Join(g.n, lambda i, f=g.f: rec(k + 1, pre + [f(i)])))
            else:
                raise Unsupported("product of a nested sequence")
        return VSeq(segs)
    return VSeq(rec(0, []).segs, "iter")


def m_prod(interp, args, kw):
    s = as_vseq(args[0], interp, native_ok=False)
    xs = None
    if s is not None:
        xs = s.concrete()
        if xs is None:
            raise Unsupported("product of a symbolic sequence")
    elif isinstance(args[0], (list, tuple)):
        xs = list(args[0])
    if xs is not None and any(_symnum(x) for x in xs):
        r = 1
        for x in xs:
            r = r * x
        return r
    return NotImplemented


# ---- numpy ------------------------------------------------------------------------------

def native(x, interp=None):
    """Replace engine containers by native ones, for numpy."""
    if isinstance(x, VSeq) or isinstance(x, PyList):
        s = as_vseq(x)
        c = s.concrete()
        if c is None:
            raise Unsupported("symbolic sequence given to numpy")
        return [native(y) for y in c]
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(native(y) for y in x)
    if type(x) is list:
        return [native(y) for y in x]
    return x


def has_sym(x):
    from .interp import _has_sym
    return _has_sym(x)


def m_np(fn):
    """A numpy function with symbolic reals in object arrays."""
    def m(interp, args, kw):
        if not any(has_engine(a) for a in args) and not any(has_engine(a) for a in kw.values()):
            return NotImplemented
        h = NP_HANDLERS.get(fn)
        if fn in (np.array, np.asarray) and len(args) == 1 and set(kw) <= {"dtype"} and \
                isinstance(args[0], (VSeq, PyList, SymRows)):
            if isinstance(args[0], SymRows):
                return args[0]
            v = as_vseq(args[0], interp)
            if v.concrete() is None:
                return SymRows(v)
        args = [native(a) for a in args]
        kw = {k: native(v) for k, v in kw.items()}
        if h is not None and any(has_sym(a) for a in list(args) + list(kw.values())):
            return h(*args, **kw)
        return fn(*args, **kw)
    return m


class SymRows:
    """numpy array made of a symbolic number of rows (numbers or vectors of one length)."""
    __pyvc_sym__ = True
    __pyvc_type__ = np.ndarray

    def __init__(self, rows, width=None):
        self.rows = VSeq(rows.segs)
        if width is None:
            c = ctx()
            i = SymInt(z3.Int(c.fresh("row")))
            r = c.sub(lambda: np_shape(native(self.rows[i])),
                      assume=[i.t >= 0, i.t < zint(self.rows.length())])
            if not r or not all(isinstance(x, tuple) and x == r[0] for x in r) or len(r[0]) > 1:
                raise Unsupported("array of rows of different shapes")
            width = r[0]
        self.width = width

    @property
    def shape(self):
        return (self.rows.length(),) + self.width

    @property
    def ndim(self):
        return 1 + len(self.width)

    def __pyvc_len__(self):
        return self.rows.length()

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and isinstance(ix[0], slice) and \
                ix[0] == slice(None) and isinstance(ix[1], int) and self.width:
            if not -self.width[0] <= ix[1] < self.width[0]:
                raise IndexError("index out of bounds")
            return SymRows(self.rows.map(lambda r: r[ix[1]]), ())
        if isinstance(ix, tuple) and len(ix) == 2 and isinstance(ix[1], int):
            return self.rows[ix[0]][ix[1]]
        if isinstance(ix, (int, SymInt)):
            return self.rows[ix]
        if isinstance(ix, slice):
            return SymRows(self.rows[ix], self.width)
        raise Unsupported("indexing an array of symbolic size")

    def __pyvc_seq__(self):
        return self.rows

    def copy(self):
        return SymRows(self.rows, self.width)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"attribute {name} of an array of symbolic size")


def has_engine(x):
    if isinstance(x, (PyList, VSeq, SymReal, SymInt, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (tuple, list)):
        return any(has_engine(y) for y in x)
    return getattr(type(x), "__pyvc_sym__", False)


def np_array(x, dtype=None, **kw):
    a = np.empty(np_shape(x), dtype=object)
    fill(a, (), x)
    return a


def np_shape(x):
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,)
        s = [np_shape(y) for y in x]
        if any(t != s[0] for t in s):
            raise ValueError("setting an array element with a sequence: inhomogeneous shape")
        return (len(x),) + s[0]
    if isinstance(x, np.ndarray):
        return x.shape
    return ()


def fill(a, ix, x):
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            fill(a, ix + (i,), y)
    elif isinstance(x, np.ndarray):
        if x.ndim == 0:
            a[ix] = x.item()
        else:
            a[ix] = x
    else:
        if isinstance(x, SymInt):
            x = x.real()
        a[ix] = x


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, np.ndarray):
        return x
    return np_array(x)


def _obj(x):
    return x if isinstance(x, np.ndarray) else np_array(x)


def np_norm(x, ord=None, axis=None, **kw):
    x = _obj(x)
    if ord is not None or axis is not None or kw:
        raise Unsupported("np.linalg.norm options")
    s = 0
    for y in x.ravel():
        s = s + y * y
    return SymReal(SymReal.lift(s)).sqrt()


def ewise(f):
    def g(*xs, **kw):
        if kw:
            raise Unsupported("ufunc keyword")
        arrs = [_obj(x) for x in xs]
        b = np.broadcast_arrays(*arrs)
        out = np.empty(b[0].shape, dtype=object)
        for ix in np.ndindex(out.shape):
            out[ix] = f(*[y[ix] for y in b])
        return out if out.ndim else out.item()
    return g


def _real(x):
    if isinstance(x, SymReal):
        return x
    t = SymReal.lift(x)
    if t is None:
        raise Unsupported(f"number expected, got {type(x).__name__}")
    return SymReal(t)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    def f(x, y):
        return abs(_real(x) - _real(y)) <= atol + rtol * abs(_real(y))
    return ewise(f)(a, b)


def np_all(x, **kw):
    if kw:
        raise Unsupported("np.all options")
    acc = True
    for y in _obj(x).ravel():
        if not isinstance(y, (bool, SymBool, np.bool_)):
            y = y != 0
        if isinstance(y, SymBool):
            acc = y if acc is True else acc & y
        elif not y:
            return False
    return acc


def np_any(x, **kw):
    acc = False
    for y in _obj(x).ravel():
        if not isinstance(y, (bool, SymBool, np.bool_)):
            y = y != 0
        if isinstance(y, SymBool):
            acc = y if acc is False else acc | y
        elif y:
            return True
    return acc


def np_argbest(better):
    def f(x, axis=None):
        xs = list(_obj(x).ravel())
        bi = 0
        for i in range(1, len(xs)):
            r = better(xs[i], xs[bi])
            if (r if isinstance(r, (bool, np.bool_)) else bool(r)):
                bi = i
        return bi
    return f


def np_where(c, *ab):
    if len(ab) != 2:
        raise Unsupported("np.where")

    def f(x, a, b):
        if isinstance(x, SymBool):
            return SymReal(z3.If(x.t, _real(a).t, _real(b).t))
        return a if x else b
    return ewise(f)(c, *ab)


def _minmax(op):
    def f(a, b):
        a, b = _real(a), _real(b)
        return SymReal(z3.simplify(z3.If(op(a.t, b.t), a.t, b.t)))
    return f


def np_reduce_best(op):
    f = _minmax(op)

    def g(x, axis=None, **kw):
        if axis is not None or kw:
            raise Unsupported("np.max options")
        xs = list(_obj(x).ravel())
        if not xs:
            raise ValueError("zero-size array")
        return functools.reduce(f, xs)
    return g


def np_sign(x):
    def f(a):
        a = _real(a)
        return SymReal(z3.If(a.t > 0, z3.RealVal(1), z3.If(a.t < 0, z3.RealVal(-1), z3.RealVal(0))))
    return ewise(f)(x)


def np_trig(which):
    def f(a):
        r = scal.cos_sin(_real(a))
        if r is None:
            raise Unsupported("cosine or sine of a general angle")
        return r[which]
    return ewise(f)


def np_sum(x, axis=None, **kw):
    x = _obj(x)
    if axis is not None:
        return np.add.reduce(x, axis=axis)
    acc = 0
    for y in x.ravel():
        acc = acc + y
    return acc


def np_arctan(x):
    def f(a):
        return scal.atan2(_real(a).t, z3.RealVal(1))
    return ewise(f)(x)


def np_allclose(a, b, **kw):
    return np_all(np_isclose(a, b, **kw))


NP_HANDLERS = {
    np.array: np_array, np.asarray: np_asarray, np.linalg.norm: np_norm,
    np.isclose: np_isclose, np.allclose: np_allclose, np.all: np_all, np.any: np_any,
    np.argmin: np_argbest(operator.lt), np.argmax: np_argbest(operator.gt),
    np.where: np_where, np.sum: np_sum,
    np.sqrt: ewise(lambda a: _real(a).sqrt()),
    np.arctan2: ewise(lambda y, x: scal.atan2(_real(y).t, _real(x).t)),
    np.arctan: np_arctan,
    np.arccos: ewise(lambda a: scal.arccos(_real(a).t)),
    np.hypot: ewise(lambda a, b: _real(a).hypot(_real(b))),
    np.abs: ewise(lambda a: abs(_real(a))), np.fabs: ewise(lambda a: abs(_real(a))),
    np.maximum: ewise(_minmax(lambda a, b: a >= b)), np.minimum: ewise(_minmax(lambda a, b: a <= b)),
    np.max: np_reduce_best(lambda a, b: a >= b), np.min: np_reduce_best(lambda a, b: a <= b),
    np.sign: np_sign, np.cos: np_trig(0), np.sin: np_trig(1),
    np.degrees: ewise(lambda a: _real(a).degrees()), np.rad2deg: ewise(lambda a: _real(a).degrees()),
    np.radians: ewise(lambda a: _real(a).radians()), np.deg2rad: ewise(lambda a: _real(a).radians()),
    np.square: ewise(lambda a: _real(a) * _real(a)),
    np.isfinite: lambda x: np.ones(np.shape(_obj(x)), dtype=bool),
    np.isnan: lambda x: np.zeros(np.shape(_obj(x)), dtype=bool),
    np.float64: lambda x: x, np.copy: lambda x: _obj(x).copy(),
    np.power: ewise(lambda a, b: scal.power(_real(a), b)),
    np.atleast_1d: lambda x: _obj(x).reshape(-1) if np.ndim(_obj(x)) == 0 else _obj(x),
    np.float32: lambda x: x,
}


def m_math(f):
    def m(interp, args, kw):
        if any(has_engine(a) for a in args):
            return f(*[a.ravel()[0] if isinstance(a, np.ndarray) else a for a in args])
        return NotImplemented
    return m


def math_isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    a, b = _real(a), _real(b)
    m = _minmax(lambda x, y: x >= y)(abs(a), abs(b))
    return abs(a - b) <= _minmax(lambda x, y: x >= y)(m * rel_tol, abs_tol)


MATH = {
    math.sqrt: lambda a: _real(a).sqrt(), math.hypot: lambda *a: np_norm(np_array(list(a))),
    math.atan2: lambda y, x: scal.atan2(_real(y).t, _real(x).t),
    math.acos: lambda a: scal.arccos(_real(a).t), math.fabs: lambda a: abs(_real(a)),
    math.degrees: lambda a: _real(a).degrees(), math.radians: lambda a: _real(a).radians(),
    math.isclose: math_isclose,
    math.cos: lambda a: np_trig(0)(a), math.sin: lambda a: np_trig(1)(a),
    math.dist: lambda a, b: np_norm(_obj(a) - _obj(b)),
}


def bound_array_method(interp, fn, args, kw):
    """Methods of object arrays that numpy would evaluate with truth values."""
    return NotImplemented


def table(interp):
    t = {
        type: m_type, isinstance: m_isinstance, issubclass: m_issubclass, len: m_len, zip: m_zip,
        range: m_range, enumerate: m_enumerate, list: m_list, tuple: m_tuple, dict: m_dict,
        set: m_set, frozenset: m_set, iter: m_iter, next: m_next, any: m_any, all: m_all, sum: m_sum,
        max: m_max, min: m_min, map: m_map, filter: m_filter, reversed: m_reversed,
        sorted: m_sorted, str: m_str, repr: m_repr, format: m_format, int: m_int, float: m_float, bool: m_bool,
        callable: m_callable, print: m_print, id: m_id, abs: m_abs, getattr: m_getattr,
        setattr: m_setattr, hasattr: m_hasattr, round: m_round,
        functools.reduce: m_reduce, itertools.chain: m_chain,
        itertools.chain.from_iterable: m_from_iterable, itertools.islice: m_islice,
        itertools.accumulate: m_accumulate, itertools.repeat: m_iterrepeat,
        itertools.product: m_product, dict.fromkeys: m_fromkeys,
        math.prod: m_prod, np.prod: m_prod,
        operator.add: lambda i, a, k: i.binop(operator.add, *a),
        operator.mul: lambda i, a, k: i.binop(operator.mul, *a),
        operator.sub: lambda i, a, k: i.binop(operator.sub, *a),
    }
    for f in (np.array, np.asarray, np.concatenate, np.stack, np.hstack, np.vstack, np.dot,
              np.cross, np.reshape, np.ravel, np.zeros_like, np.ones_like, np.mean, np.outer,
              np.linalg.norm, np.transpose, np.subtract, np.add, np.multiply, np.divide,
              np.negative, np.diff, np.roll, np.append, np.size, np.shape, np.ndim, np.squeeze,
              np.array_equal, np.split, np.array_split, np.empty_like, np.full_like, np.inner,
              np.vdot, np.matmul, np.cumsum, np.average, np.ptp, np.clip, np.column_stack,
              np.atleast_2d, *NP_HANDLERS):
        try:
            t.setdefault(f, m_np(f))
        except TypeError:
            pass
    for f, g in MATH.items():
        t[f] = m_math(g)
    import copy
    t[copy.deepcopy] = m_deepcopy
    return t


# ---- jax.numpy --------------------------------------------------------------------------

def module_proxies(interp):
    from . import jaxmodel
    return jaxmodel.proxies(interp)
