"""Symbolic sequences and dictionaries.

A `VSeq` is a finite concatenation of segments: single elements (`Unit`), tabulations of a
function over 0..n-1 (`Tab`), concatenations of n sequences (`Join`) and opaque sequences
known through a contract (`Abs`).  Lists are `PyList`, dictionaries `PyDict`: Python's own
types with an optional symbolic content, so identity and aliasing are Python's.
"""
from __future__ import annotations

import re

import z3

from .core import ctx, Ctx, Mut, Unsupported, Infeasible
from .scal import SymBool, SymInt, SymReal, mkbool, mkint
from .strs import SymStr, SplitAll, IntStr


def zint(n):
    return n.t if isinstance(n, SymInt) else n if isinstance(n, z3.ArithRef) else z3.IntVal(int(n))


def iadd(a, b):
    return a + b


def ile(a, b):
    """a <= b decided (forks when unknown)."""
    r = a <= b
    return r if isinstance(r, bool) else ctx().branch(r.t)


def ilt(a, b):
    r = a < b
    return r if isinstance(r, bool) else ctx().branch(r.t)


def ieq(a, b):
    r = a == b
    return r if isinstance(r, bool) else ctx().branch(r.t)


def same_int(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ctx().entails(zint(a) == zint(b))


def opaque_length(o, name, lo):
    c = ctx()
    if o._len is None:
        if isinstance(o, Join) or o._unfold is not None:
            c.inexact("the length of a nested sequence is left open")
        o._len = SymInt(z3.Int(c.fresh(name)))
    k = ("len", str(getattr(o._len, "t", o._len)))
    if k not in c.memo:
        c.memo[k] = o
        c.assume(zint(o._len) >= lo)
    return o._len


class Unit:
    def __init__(self, x):
        self.x = x

    def length(self):
        return 1


class Tab:
    def __init__(self, n, f):
        self.n = n
        self.f = f

    def length(self):
        return self.n


class Join:
    """Concatenation of f(0), ..., f(n-1); `base` shifts the index."""
    def __init__(self, n, f):
        self.n = n
        self.f = f
        self._len = None

    def length(self):
        return opaque_length(self, "joinlen", 0)


class Abs:
    """An opaque sequence.  `tag` and `args` identify it; `unfold()` gives its definition."""
    def __init__(self, tag, args, unfold=None, nonempty=False, elem=None, **info):
        self.tag = tag
        self.args = args
        self._unfold = unfold
        self.nonempty = nonempty
        self.elem = elem
        self.info = info
        self._len = None
        self._of = None                # a sequence of the same length

    def length(self):
        if self._of is not None:
            return self._of.length()
        return opaque_length(self, "len." + self.tag, 1 if self.nonempty else 0)

    def unfold(self):
        if self._unfold is None:
            raise Unsupported(f"cannot unfold {self.tag}")
        return self._unfold()


class VSeq:
    __pyvc_sym__ = True

    def __init__(self, segs, kind="tuple", pending=None):
        self.segs = list(segs)
        self.kind = kind
        self.pending = pending          # raises if an element's evaluation raises
        self.used = False

    # ---- construction
    @staticmethod
    def empty(kind="tuple"):
        return VSeq([], kind)

    @staticmethod
    def unit(x, kind="tuple"):
        return VSeq([Unit(x)], kind)

    @staticmethod
    def of(xs, kind="tuple"):
        return VSeq([Unit(x) for x in xs], kind)

    @staticmethod
    def tab(n, f, kind="tuple"):
        if isinstance(n, int):
            return VSeq([Unit(f(i)) for i in range(n)], kind)
        return VSeq([Tab(n, f)], kind)

    @staticmethod
    def join(n, f, kind="tuple"):
        if isinstance(n, int):
            out = VSeq([], kind)
            for i in range(n):
                out = out.concat(f(i))
            return out
        return VSeq([Join(n, f)], kind)

    def kindly(self, kind):
        """The same content as a Python object of the given kind."""
        if kind == "list":
            return PyList.sym(self)
        return VSeq(self.segs, kind, self.pending)

    @property
    def __pyvc_type__(self):
        return {"list": list, "tuple": tuple}.get(self.kind, type(iter(())))

    def settle(self):
        """Evaluate everything a consumer of the whole sequence evaluates."""
        if self.pending is not None:
            p, self.pending = self.pending, None
            p()
        if self.kind == "iter":
            if self.used:
                raise Unsupported("an iterator is consumed twice")
            self.used = True
        return self

    # ---- queries
    def length(self):
        n = 0
        for s in self.segs:
            n = n + s.length()
        return n

    def concrete(self):
        """The list of elements when the length is known, else None."""
        out = []
        for s in self.segs:
            if isinstance(s, Unit):
                out.append(s.x)
            elif isinstance(s, Tab):
                k = known_int(s.n)
                if k is None or k > 200:
                    return None
                out.extend(s.f(i) for i in range(k))
            elif isinstance(s, Join):
                k = known_int(s.n)
                if k is None or k > 200:
                    return None
                for i in range(k):
                    c = s.f(i).concrete()
                    if c is None:
                        return None
                    out.extend(c)
            else:
                return None
        return out

    def concat(self, o):
        return VSeq(self.segs + o.segs, self.kind)

    def head_tail(self):
        """(first element, rest) or None when empty; forks on emptiness."""
        for i, s in enumerate(self.segs):
            if isinstance(s, Unit):
                return s.x, VSeq(self.segs[i + 1:], self.kind)
            if isinstance(s, Tab):
                if ieq(s.n, 0):
                    continue
                f = s.f
                rest = [Tab(s.n - 1, lambda j, f=f: f(j + 1))]
                return s.f(0), VSeq(rest + self.segs[i + 1:], self.kind)
            if isinstance(s, Join):
                if ieq(s.n, 0):
                    continue
                f = s.f
                rest = [Join(s.n - 1, lambda j, f=f: f(j + 1))]
                r = VSeq(f(0).segs + rest + self.segs[i + 1:], self.kind).head_tail()
                return r
            u = s.unfold()
            return VSeq(u.segs + self.segs[i + 1:], self.kind).head_tail()
        return None

    def at(self, i):
        """Element i (assumed in range)."""
        k = i
        for n, s in enumerate(self.segs):
            ln = s.length() if not isinstance(s, (Join, Abs)) else None
            last = n == len(self.segs) - 1
            if ln is None:
                if isinstance(k, int) and isinstance(s, (Join, Abs)):
                    rest = VSeq(self.segs[n:], self.kind)
                    for _ in range(k):
                        ht = rest.head_tail()
                        if ht is None:
                            raise Infeasible()
                        rest = ht[1]
                    ht = rest.head_tail()
                    if ht is None:
                        raise Infeasible()
                    return ht[0]
                if last and isinstance(s, Abs) and s.elem is not None:
                    return s.elem(k)
                raise Unsupported("symbolic index into a nested sequence")
            if last or ilt(k, ln):
                return s.x if isinstance(s, Unit) else s.f(k)
            k = k - ln
        raise Infeasible()

    def drop(self, k):
        segs = list(self.segs)
        while segs:
            if isinstance(k, int) and k == 0:
                break
            s = segs[0]
            if isinstance(s, Abs) and s._len is not None:
                if ctx().entails(zint(k) <= 0):
                    break
                if ctx().entails(zint(s._len) <= zint(k)):
                    segs.pop(0)
                    k = k - s._len
                    continue
            if isinstance(s, (Join, Abs)):
                if isinstance(k, int):
                    r = VSeq(segs, self.kind)
                    for _ in range(k):
                        ht = r.head_tail()
                        if ht is None:
                            return VSeq([], self.kind)
                        r = ht[1]
                    return r
                raise Unsupported("symbolic slice of a nested sequence")
            ln = s.length()
            if isinstance(s, Tab) and ilt(k, ln):
                f, d = s.f, k
                segs[0] = Tab(ln - k, lambda j, f=f, d=d: f(j + d))
                return VSeq(segs, self.kind)
            if isinstance(s, Unit) and not isinstance(k, int) and not ile(1, k):
                break
            segs.pop(0)
            k = k - ln
        return VSeq(segs, self.kind)

    def take(self, k):
        out = []
        for s in self.segs:
            if isinstance(k, int) and k <= 0:
                break
            if isinstance(s, Abs) and s._len is not None:
                if ctx().entails(zint(k) <= 0):
                    break
                if ctx().entails(zint(s._len) <= zint(k)):
                    out.append(s)
                    k = k - s._len
                    continue
            if isinstance(s, (Join, Abs)):
                if isinstance(k, int):
                    r = VSeq([s], self.kind)
                    while k > 0:
                        ht = r.head_tail()
                        if ht is None:
                            break
                        out.append(Unit(ht[0]))
                        r = ht[1]
                        k -= 1
                    continue
                raise Unsupported("symbolic slice of a nested sequence")
            ln = s.length()
            if isinstance(s, Unit):
                if isinstance(k, int) or ile(1, k):
                    out.append(s)
                    k = k - 1
                    continue
                break
            if ile(ln, k):
                out.append(s)
                k = k - ln
                continue
            out.append(Tab(k, s.f))
            break
        return VSeq(out, self.kind)

    def slice(self, a, b):
        """Elements a..b-1 for in-range, non-negative a and b (None: to the end)."""
        r = self
        if b is not None:
            r = r.take(b)
        if a is not None:
            r = r.drop(a)
        return VSeq(r.segs, self.kind)

    def reversed(self):
        out = []
        for g in reversed(self.settle().segs):
            if isinstance(g, Unit):
                out.append(g)
            elif isinstance(g, Tab):
                out.append(Tab(g.n, lambda i, n=g.n, f=g.f: f(n - 1 - i)))
            elif isinstance(g, Join):
                out.append(Join(g.n, lambda i, n=g.n, f=g.f: f(n - 1 - i).reversed()))
            else:
                def back(s):
                    return VSeq(s.unfold().segs, self.kind).reversed()
                out.append(Abs("rev." + g.tag, (g,), (lambda g=g: back(g)) if g._unfold else None,
                               g.nonempty))
        return VSeq(out, self.kind)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step == -1 and i.start is None and i.stop is None:
                return self.reversed()
            if i.step not in (None, 1):
                raise Unsupported("slice step of a symbolic sequence")
            a, b = i.start, i.stop
            if isinstance(b, int) and b < 0 or isinstance(a, int) and a < 0:
                if a in (None, 0) and isinstance(b, int) and self.segs and all(
                        isinstance(s, Unit) for s in self.segs[b:]) and len(self.segs) >= -b:
                    return VSeq(self.segs[:b], self.kind).kindly(self.kind)
                ln = self.length()
                if isinstance(a, int) and a < 0:
                    a = ln + a
                    if ilt(a, 0):
                        a = 0
                if isinstance(b, int) and b < 0:
                    b = ln + b
                    if ilt(b, 0):
                        b = 0
            def inside(q):
                if isinstance(q, SymInt) and not ile(0, q):
                    q = self.length() + q
                    if not ile(0, q):
                        q = 0
                return q
            a, b = inside(a), inside(b)
            r = self.take(b) if b is not None else self
            r = r.drop(a) if a is not None else r
            return VSeq(r.segs, self.kind).kindly(self.kind)
        if not isinstance(i, (int, SymInt)):
            raise TypeError("sequence indices must be integers")
        if isinstance(i, int) and i < 0 and self.segs and all(
                isinstance(s, Unit) for s in self.segs[i:]) and len(self.segs) >= -i:
            return self.segs[i].x
        if isinstance(i, int) and i >= 0:
            r = self
            for _ in range(i):
                ht = r.head_tail()
                if ht is None:
                    raise IndexError("index out of range")
                r = ht[1]
            ht = r.head_tail()
            if ht is None:
                raise IndexError("index out of range")
            return ht[0]
        ln = self.length()
        if ilt(i, 0):
            i = ln + i
            if ilt(i, 0):
                raise IndexError("index out of range")
        elif not ilt(i, ln):
            raise IndexError("index out of range")
        return self.at(i)

    def __pyvc_len__(self):
        return self.length()

    def __pyvc_truth__(self):
        for s in self.segs:
            if isinstance(s, Unit) or (isinstance(s, Abs) and s.nonempty):
                return True
        n = self.length()
        return n != 0 if not isinstance(n, int) else n > 0

    def __add__(self, o):
        s = as_vseq(o)
        if s is None or s.kind != self.kind:
            return NotImplemented
        return VSeq(self.segs + s.segs, self.kind).kindly(self.kind)

    def __radd__(self, o):
        s = as_vseq(o)
        if s is None or s.kind != self.kind:
            return NotImplemented
        return VSeq(s.segs + self.segs, self.kind).kindly(self.kind)

    def __mul__(self, k):
        return repeat(self, k)
    __rmul__ = __mul__

    def __iter__(self):
        c = self.concrete()
        if c is None:
            raise Unsupported("iteration over a sequence of symbolic length")
        return iter(c)

    def __eq__(self, o):
        from .same import eq_now
        s = as_vseq(o)
        if s is None or s.kind != self.kind:
            return False
        return eq_now(self, s)

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    __hash__ = None

    def map(self, g, kind=None):
        """The sequence of g(x), lazily (g must not have effects)."""
        segs = []
        for s in self.segs:
            if isinstance(s, Unit):
                segs.append(Unit(g(s.x)))
            elif isinstance(s, Tab):
                segs.append(Tab(s.n, lambda i, f=s.f: g(f(i))))
            elif isinstance(s, Join):
                segs.append(Join(s.n, lambda i, f=s.f: f(i).map(g)))
            else:
                segs.append(map_abs(s, g))
        return VSeq(segs, kind or self.kind)

    def __repr__(self):
        return f"VSeq({self.kind}, " + " ++ ".join(
            "[" + repr(s.x)[:60] + "]" if isinstance(s, Unit) else
            f"{type(s).__name__}({s.tag if isinstance(s, Abs) else s.n})" for s in self.segs) + ")"


def map_abs(s, g):
    e = s.elem
    base, fs = s.info.get("base", s), s.info.get("maps", ())
    r = Abs(s.tag + "'", s.args, (lambda: s.unfold().map(g)) if s._unfold else None,
            s.nonempty, (lambda i: g(e(i))) if e else None,
            **{**s.info, "base": base, "maps": fs + (g,)})
    r._of = s
    return r


def known_int(n):
    if isinstance(n, int):
        return n
    t = z3.simplify(n.t)
    return t.as_long() if z3.is_int_value(t) else None


# ---- Python lists and dictionaries ---------------------------------------------------

def log(obj):
    """Call before a mutation of a PyList / PyDict."""
    if Ctx.current is not None:
        Ctx.current.mutations.append(Mut(obj, obj._snap, obj._restore))


def born(o):
    if Ctx.current is not None:
        Ctx.current.made(o)


def _mut(name):
    base = getattr(list, name)

    def m(self, *a, **k):
        if self._sym is not None:
            raise Unsupported(f"list.{name} on a symbolic list")
        log(self)
        return base(self, *a, **k)
    m.__name__ = name
    return m


class PyList(list):
    """A Python list that may hold a symbolic content."""
    __slots__ = ("_sym",)

    def __init__(self, *a):
        list.__init__(self, *a)
        self._sym = None
        born(self)

    def _snap(self):
        return list(list.__iter__(self)), self._sym

    def _restore(self, st):
        list.__setitem__(self, slice(None), st[0])
        self._sym = st[1]

    @staticmethod
    def sym(v):
        c = None
        if all(isinstance(s, Unit) for s in v.segs):
            c = [s.x for s in v.segs]
            return PyList(c)
        r = PyList()
        r._sym = VSeq(v.segs, "list")
        return r

    def state(self):
        return self._sym if self._sym is not None else VSeq.of(list.__iter__(self), "list")

    def set_state(self, v):
        log(self)
        if all(isinstance(s, Unit) for s in v.segs):
            list.__setitem__(self, slice(None), [s.x for s in v.segs])
            self._sym = None
        else:
            list.clear(self)
            self._sym = VSeq(v.segs, "list")

    for _n in ("insert", "pop", "remove", "sort", "reverse", "__setitem__", "__delitem__",
               "__imul__"):
        locals()[_n] = _mut(_n)
    del _n

    def append(self, x):
        self.set_state(self.state().concat(VSeq.unit(x)))

    def extend(self, xs):
        s = as_vseq(xs)
        if s is None:
            s = VSeq.of(list(xs))
        self.set_state(self.state().concat(s.settle()))

    def clear(self):
        self.set_state(VSeq.empty("list"))

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def copy(self):
        return PyList.sym(self.state())

    def __getitem__(self, i):
        if self._sym is not None or isinstance(i, SymInt) or (
                isinstance(i, slice) and (isinstance(i.start, SymInt) or isinstance(i.stop, SymInt))):
            return self.state()[i]
        r = list.__getitem__(self, i)
        return PyList(r) if isinstance(i, slice) else r

    def __add__(self, o):
        if self._sym is not None or isinstance(o, VSeq) or getattr(o, "_sym", None) is not None:
            s = as_vseq(o)
            if s is None or s.kind != "list":
                return NotImplemented
            return PyList.sym(self.state().concat(s))
        if isinstance(o, list):
            return PyList(list.__add__(self, o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return PyList.sym(as_vseq(o).concat(self.state()))
        return NotImplemented

    def __mul__(self, k):
        return repeat(self, k)
    __rmul__ = __mul__

    def __iter__(self):
        if self._sym is not None:
            return iter(self._sym)
        return list.__iter__(self)

    def __pyvc_len__(self):
        return self.state().length()

    def __len__(self):
        if self._sym is not None:
            n = known_int(self._sym.length())
            if n is None:
                raise Unsupported("length of a symbolic list in native code")
            return n
        return list.__len__(self)

    def __pyvc_truth__(self):
        return self.state().__pyvc_truth__()

    def __bool__(self):
        if self._sym is not None:
            r = self._sym.__pyvc_truth__()
            return r if isinstance(r, bool) else ctx().branch(r.t)
        return list.__len__(self) > 0

    def __eq__(self, o):
        from .same import eq_now
        if not isinstance(o, list) and not (isinstance(o, VSeq) and o.kind == "list"):
            return False
        return eq_now(self.state(), as_vseq(o))

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    __hash__ = None

    def __repr__(self):
        return repr(self._sym) if self._sym is not None else list.__repr__(self)


class Entries:
    """Content of a dictionary in insertion order: pairs with pairwise distinct keys."""


class PyDict(dict):
    """A Python dictionary that may hold a symbolic content (`SymDict` state)."""
    __slots__ = ("_sym",)

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self._sym = None
        born(self)

    def _snap(self):
        return dict(dict.items(self)), self._sym

    def _restore(self, st):
        dict.clear(self)
        dict.update(self, st[0])
        self._sym = st[1]

    @staticmethod
    def sym(content):
        r = PyDict()
        r._sym = content
        return r

    def state(self):
        """DictContent of this dictionary."""
        if self._sym is not None:
            return self._sym
        return DictContent([("kv", k, v) for k, v in dict.items(self)])

    def set_state(self, content):
        log(self)
        dict.clear(self)
        if all(e[0] == "kv" and isinstance(e[1], (str, int)) for e in content.parts):
            dict.update(self, {e[1]: e[2] for e in content.parts})
            self._sym = None
        else:
            self._sym = content

    def _plain(self, k):
        return self._sym is None and _hashable_key(k)

    def __getitem__(self, k):
        if self._plain(k):
            return dict.__getitem__(self, k)
        v = self.state().lookup(k)
        if v is None:
            raise KeyError(k if isinstance(k, (str, int)) else "symbolic key")
        return v[0]

    def get(self, k, default=None):
        if self._plain(k):
            return dict.get(self, k, default)
        v = self.state().lookup(k)
        return default if v is None else v[0]

    def __contains__(self, k):
        if self._plain(k):
            return dict.__contains__(self, k)
        return self.state().lookup(k) is not None

    def __setitem__(self, k, v):
        if self._plain(k):
            log(self)
            dict.__setitem__(self, k, v)
            return
        self.set_state(self.state().put(k, v))

    def __delitem__(self, k):
        if self._plain(k):
            log(self)
            dict.__delitem__(self, k)
            return
        self.set_state(self.state().remove(k))

    def pop(self, k, *d):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def update(self, *a, **kw):
        for m in a + ((kw,) if kw else ()):
            if isinstance(m, dict):
                st = to_content(m)
                for e in st.parts:
                    if e[0] != "kv":
                        raise Unsupported("update from a symbolic dictionary")
                    self[e[1]] = e[2]
            else:
                for k, v in m:
                    self[k] = v

    def clear(self):
        self.set_state(DictContent([]))

    def popitem(self):
        raise Unsupported("popitem")

    def copy(self):
        return PyDict.sym(self._sym) if self._sym is not None else PyDict(dict.items(self))

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def keys(self):
        return self.state().keys().kindly("view") if self._sym is not None else dict.keys(self)

    def values(self):
        return self.state().values().kindly("view") if self._sym is not None else dict.values(self)

    def items(self):
        return self.state().items().kindly("view") if self._sym is not None else dict.items(self)

    def __iter__(self):
        return iter(self._sym.keys()) if self._sym is not None else dict.__iter__(self)

    def __len__(self):
        if self._sym is not None:
            n = known_int(self._sym.length())
            if n is None:
                raise Unsupported("length of a symbolic dictionary in native code")
            return n
        return dict.__len__(self)

    def __pyvc_len__(self):
        return self.state().length()

    def __pyvc_truth__(self):
        return self.state().items().__pyvc_truth__()

    def __bool__(self):
        r = self.__pyvc_truth__()
        return r if isinstance(r, bool) else ctx().branch(r.t)

    def __eq__(self, o):
        if self._sym is None and isinstance(o, dict) and getattr(o, "_sym", None) is None:
            if set(dict.keys(self)) != set(dict.keys(o)):
                return False
            from .same import eq_now
            ks = list(dict.keys(self))
            return eq_now(VSeq.of([dict.__getitem__(self, k) for k in ks]),
                          VSeq.of([dict.__getitem__(o, k) for k in ks]))
        raise Unsupported("comparison of symbolic dictionaries")

    __hash__ = None

    def __repr__(self):
        return repr(self._sym) if self._sym is not None else dict.__repr__(self)


def _hashable_key(k):
    from .interp import _hashable
    return _hashable(k)


class DictContent:
    """Ordered parts: ("kv", key, value) or ("map", KeyMap): later keys are new keys."""

    def __init__(self, parts):
        self.parts = list(parts)

    def length(self):
        n = 0
        for p in self.parts:
            n = n + (1 if p[0] == "kv" else p[1].items.length() if p[0] == "abs" else p[1].n)
        return n

    def items(self):
        segs = []
        for p in self.parts:
            if p[0] == "kv":
                segs.append(Unit((p[1], p[2])))
            elif p[0] == "abs":
                segs.append(p[1].items)
            else:
                m = p[1]
                segs.append(Tab(m.n, lambda i, m=m: (m.key(i), m.value(i))))
        return VSeq(segs, "view")

    def keys(self):
        return VSeq([Unit(p[1]) if p[0] == "kv" else p[1].keys() if p[0] == "abs"
                     else Tab(p[1].n, p[1].key) for p in self.parts], "view")

    def values(self):
        return VSeq([Unit(p[2]) if p[0] == "kv" else p[1].values() if p[0] == "abs"
                     else Tab(p[1].n, p[1].value) for p in self.parts], "view")

    def find(self, k):
        """(position of part, index in part or None) holding key k; None when absent (forks)."""
        for j, p in enumerate(self.parts):
            if p[0] == "kv":
                e = p[1] == k
                if e is True or (e is not False and ctx().branch(e.t)):
                    return j, None
            else:
                i = p[1].find(k)
                if i is not None:
                    return j, i
        return None

    def lookup(self, k):
        """(value,) or None (forks)."""
        f = self.find(k)
        if f is None:
            return None
        p = self.parts[f[0]]
        if p[0] == "abs":
            return (f[1][1],)
        return (p[2],) if f[1] is None else (p[1].value(f[1]),)

    def put(self, k, v):
        f = self.find(k)
        if f is None:
            return DictContent(self.parts + [("kv", k, v)])
        j, i = f
        p = self.parts[j]
        if p[0] == "abs":
            raise Unsupported("replacing an entry from an opaque sequence")
        if i is None:
            new = ("kv", p[1], v)
        else:
            new = ("map", p[1].override(i, v))
        return DictContent(self.parts[:j] + [new] + self.parts[j + 1:])

    def merge_new(self, m):
        """Add the entries of a key map, none of whose keys is present."""
        for p in self.parts:
            if p[0] == "abs":
                raise Unsupported("union of symbolic dictionaries")
            if p[0] != "kv":
                disjoint(p[1], m)
                continue
            if m.find(p[1]) is not None:
                raise Unsupported("a symbolic entry replaces an earlier one")
        return DictContent(self.parts + [("map", m)])

    def remove(self, k):
        f = self.find(k)
        if f is None:
            raise KeyError("symbolic key")
        if self.parts[f[0]][0] == "abs":
            raise Unsupported("removing a symbolic entry")
        if f[1] is not None:
            m = self.parts[f[0]][1]
            return DictContent(self.parts[:f[0]] + [("map", x) for x in m.without(f[1])]
                               + self.parts[f[0] + 1:])
        return DictContent(self.parts[:f[0]] + self.parts[f[0] + 1:])

    def __repr__(self):
        return "{" + ", ".join(f"{p[1]!r}: {str(p[2])[:40]}" if p[0] == "kv" else repr(p[1]) for p in self.parts) + "}"


DIGITS = re.compile(r"\d+")


class KeyMap:
    """n entries with pairwise distinct keys key(0)..key(n-1).

    Membership is a predicate `has(k)` with a position function `idx(k)`; the axioms are
    instantiated at the keys and positions that are actually used.
    """

    def __init__(self, n, key, value, name=None, has=None, idx=None, over=()):
        self.n = n
        self._key = key
        self._value = value
        self.over = tuple(over)          # ((index, value), ...) later wins
        if name is None and has is None:
            name = ctx().fresh("map")
        self.has = has if has is not None else z3.Function(name + ".has", z3.StringSort(), z3.BoolSort())
        self.idx = idx if idx is not None else z3.Function(name + ".idx", z3.StringSort(), z3.IntSort())
        self.name = name

    def key(self, i):
        k = self._key(i)
        self._note(i, k)
        return k

    def _note(self, i, k):
        c = ctx()
        t = SymStr.of(k).t
        m = ("keymap", str(self.has), zint(i).sexpr(), t.sexpr())
        if m not in c.memo:
            c.memo[m] = True
            iz = zint(i)
            c.assume(z3.Implies(z3.And(iz >= 0, iz < zint(self.n)),
                                z3.And(self.has(t), self.idx(t) == iz)))

    def value(self, i):
        for j, v in reversed(self.over):
            if ieq(i, j):
                return v
        return self._value(i)

    def find(self, k):
        c = ctx()
        if not isinstance(k, (str, SymStr)):
            return None
        t = SymStr.of(k).t
        # a key of the form of this map's keys: its index is one of the numbers in it
        cand = [int(d) for d in DIGITS.findall(k)] if isinstance(k, str) else \
            [SymInt(p.n) for p in k.ps if isinstance(p, IntStr)]
        for e in cand:
            try:
                r = SymStr.of(self._key(SymInt(zint(e)))) == k
            except Unsupported:
                continue
            if r is True:
                self._note(SymInt(zint(e)), k)
        if not c.branch(self.has(t)):
            return None
        i = self.idx(t)
        m = ("keymapf", str(self.has), t.sexpr())
        if m not in c.memo:
            c.memo[m] = True
            c.assume(z3.And(i >= 0, i < zint(self.n)))
            kk = SymStr.of(self._key(SymInt(i)))
            e = kk == k
            if e is False:
                raise Infeasible()
            if e is not True:
                c.assume(e.t)
                c.assume(kk.t == t)
        i = z3.simplify(i)
        return SymInt(i)

    def without(self, i):
        """The entries before and after position i."""
        a = KeyMap(i, self._key, self._value, self.name + ".before",
                   Restricted(self, i, lambda j, i: j < i),
                   self.idx, [(j, v) for j, v in self.over if ilt(j, i)])
        k = i + 1
        b = KeyMap(self.n - k, lambda j: self._key(j + k), lambda j: self._value(j + k), self.name + ".after",
                   Restricted(self, i, lambda j, i: j > i), Shifted(self, k),
                   [(j - k, v) for j, v in self.over if ilt(i, j)])
        return a, b

    def override(self, i, v):
        over = tuple((j, x) for j, x in self.over if zint(i).sexpr() != zint(j).sexpr())
        return KeyMap(self.n, self._key, self._value, self.name, self.has, self.idx,
                      over + ((i, v),))

    def __repr__(self):
        return f"<{self.name}: {self.n} entries, {len(self.over)} replaced>"


class Restricted:
    """Membership in a part of a key map."""

    def __init__(self, m, i, rel):
        self.m, self.i, self.rel = m, zint(i), rel
        self.name = f"{m.has}|{rel(z3.Int('at'), self.i).sexpr()}"

    def __call__(self, t):
        return z3.And(self.m.has(t), self.rel(self.m.idx(t), self.i))

    def __str__(self):
        return self.name


class Shifted:
    def __init__(self, m, k):
        self.m, self.k = m, zint(k)

    def __call__(self, t):
        return self.m.idx(t) - self.k

    def __str__(self):
        return f"{self.m.idx}-{self.k.sexpr()}"


def disjoint(a, b):
    """Two key maps have no key in common."""
    c = ctx()
    i, j = z3.Int(c.fresh("i")), z3.Int(c.fresh("j"))

    def clash():
        e = a._key(SymInt(i)) == b._key(SymInt(j))
        return e is not False and (e is True or c.branch(e.t))
    r = c.sub(clash, assume=[i >= 0, i < zint(a.n), j >= 0, j < zint(b.n)])
    if not all(x is False for x in r):
        raise Unsupported("union of symbolic dictionaries")


def to_content(d):
    if isinstance(d, PyDict):
        return d.state()
    return DictContent([("kv", k, v) for k, v in d.items()])


def dict_to_sym(d):
    r = PyDict()
    r._sym = DictContent([("kv", k, v) for k, v in d.items()])
    return r


class SymDict:
    @staticmethod
    def new():
        return PyDict()


VList = PyList


def is_seqlike(o):
    return isinstance(o, (VSeq, list, tuple))


def as_vseq(v, interp=None, native_ok=True):
    """VSeq view of a value; native sequences only with native_ok."""
    if isinstance(v, VSeq):
        return v
    if isinstance(v, PyList):
        return v._sym if v._sym is not None else (VSeq.of(list.__iter__(v), "list") if native_ok else None)
    if isinstance(v, PyDict):
        return v._sym.keys() if v._sym is not None else (VSeq.of(dict.keys(v), "view") if native_ok else None)
    h = getattr(type(v), "__pyvc_seq__", None)
    if h is not None:
        return h(v)
    if native_ok:
        if isinstance(v, list):
            return VSeq.of(v, "list")
        if isinstance(v, tuple):
            return VSeq.of(v, "tuple")
        if isinstance(v, range):
            return VSeq.of(v, "range")
        if isinstance(v, (set, frozenset)):
            return None
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
            return VSeq.of(list(v), "view")
    return None


def symbolic_index(i):
    if isinstance(i, SymInt):
        return True
    if isinstance(i, slice):
        return any(isinstance(x, SymInt) for x in (i.start, i.stop, i.step))
    return False


def repeat(o, k):
    """o * k for a sequence o."""
    kind = "list" if isinstance(o, list) or (isinstance(o, VSeq) and o.kind == "list") else "tuple"
    k2 = known_int(k) if isinstance(k, SymInt) else k
    s = as_vseq(o)
    if isinstance(k2, int):
        out = []
        for _ in range(max(0, k2)):
            out.extend(s.segs)
        r = VSeq(out, kind)
        if kind == "tuple" and all(isinstance(x, Unit) for x in out):
            return tuple(x.x for x in out)
        return r.kindly(kind)
    c = s.concrete()
    if c is None:
        if any(isinstance(g, (Join, Abs)) for g in s.segs):
            raise Unsupported("symbolic repetition of a symbolic sequence")
        if ilt(k, 0):
            return VSeq.empty(kind).kindly(kind)
        ln, w = s.length(), VSeq(s.segs)
        return VSeq([Tab(k * ln, lambda i: w.at(i % ln))], kind).kindly(kind)
    if ilt(k, 0):
        return VSeq.empty(kind).kindly(kind)
    if len(c) == 0:
        return VSeq.empty(kind).kindly(kind) if kind == "list" else ()
    if len(c) == 1:
        return VSeq([Tab(k, lambda i: c[0])], kind).kindly(kind)
    m = len(c)

    def pick(i):
        if isinstance(i, int):
            return c[i % m]
        for q in range(m - 1):
            if ieq(i % m, q):
                return c[q]
        return c[m - 1]
    return VSeq([Tab(k * m, pick)], kind).kindly(kind)
