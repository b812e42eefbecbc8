"""Symbolic trees of `Node` objects and the contracts shared by the tree properties.

A tree is a z3 element t of sort N with the number of its children, their keys, the children
themselves, a value and a class.  A node object for t is an instance of the interpreted class
`Node` whose children dictionary is symbolic; children are materialised on demand.
"""
from __future__ import annotations

import z3

from ..core import ctx, Unsupported, Infeasible
from ..scal import SymInt, SymBool
from ..strs import SymStr
from ..seq import (VSeq, Unit, Tab, Join, Abs, PyList, PyDict, DictContent, KeyMap, as_vseq, zint,
                   ieq, to_content)
from ..models import Opaque, SymType, pyvc_type, all_subclasses
from ..interp import Frame
from ..same import same
from .world import World, Cases, evaluate

N = z3.DeclareSort("N")
I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
nch = z3.Function("nch", N, I)
keyf = z3.Function("key", N, I, S)
childf = z3.Function("child", N, I, N)
valf = z3.Function("val", N, Opaque.Sort)
typf = z3.Function("typ", N, SymType.Sort)
hasf = z3.Function("has", N, S, B)
posf = z3.Function("pos", N, S, I)


class TreeFn:
    """A function of the keys of node t, printed by its term (memo keys use the text)."""

    def __init__(self, f, t):
        self.f, self.t = f, t

    def __call__(self, k):
        return self.f(self.t, k)

    def __str__(self):
        return f"{self.f.name()}({self.t.sexpr()})"


class Trees:
    """Builds node objects for terms of sort N."""

    def __init__(self, w, value=None, cls=None, shape=None):
        self.w = w
        self.shape = (lambda t: t) if shape is None else shape     # trees of equal shape have equal keys
        self.value = value or (lambda t: Opaque(valf(t)))
        self.Node = cls or w.cn.Node
        self.base = None              # what every class is known to derive from
        tr = self

        def node_same(a, name, b):
            ta, tb = getattr(a, "__pyvc_term__", None), getattr(b, "__pyvc_term__", None)
            if ta is not None and tb is not None:
                ctx().prove(name, ta == tb)
                return
            h = a.__dict__.get("__pyvc_built__"), b.__dict__.get("__pyvc_built__") \
                if hasattr(b, "__dict__") else None
            if h[0] is not None and h[1] is not None:
                return same_built(name, h[0], h[1])
            ctx().fail(name, "different nodes")
        w.cn.Node.__pyvc_same__ = node_same

    def keymap(self, t):
        s = self.shape(t)
        return KeyMap(SymInt(nch(s)), lambda i: SymStr.term(keyf(s, zint(i))),
                      lambda i: self.node(self.child(t, i)),
                      f"kids({t.sexpr()})", TreeFn(hasf, s), TreeFn(posf, s))

    def child(self, t, i):
        u = childf(t, zint(i))
        if self.shape(t) is not t:
            ctx().assume(self.shape(u) == childf(self.shape(t), zint(i)))
        return u

    def node(self, t):
        c = ctx()
        nodes = c.store.setdefault("nodes", {})
        k = (id(self), t.sexpr())
        if k in nodes:
            return nodes[k]
        o = object.__new__(self.Node)
        c.assume(nch(self.shape(t)) >= 0)
        kids = PyDict.sym(DictContent([("map", self.keymap(t))]))
        c.born.pop(id(kids), None)           # it existed before the call under test
        o.__dict__.update(_value=self.value(t), _children=kids, __pyvc_term__=t, __pyvc_trees__=self,
                          __pyvc_type__=SymType(typf(t), self.base or self.Node))
        nodes = dict(nodes)
        nodes[k] = o
        c.store["nodes"] = nodes
        return o

    def any(self, name="t"):
        return self.node(z3.Const(ctx().fresh(name), N))


def term(o):
    t = getattr(o, "__dict__", {}).get("__pyvc_term__")
    if t is None:
        raise Unsupported(f"contract applied to {type(o).__name__}, not a symbolic node")
    return t


class Rec:
    """Contract at call sites; `with rec:` lets the next call enter the body."""

    def __init__(self, w, label, spec):
        self.label = "mpllayout." + label
        self.spec = spec
        self.skip = 0
        w.it.contracts[self.label] = self

    def __call__(self, interp, fi, args, kw):
        if self.skip:
            self.skip -= 1
            return NotImplemented
        return self.spec(*bound(interp, fi, args, kw))

    def __enter__(self):
        self.skip = 1

    def __exit__(self, *a):
        self.skip = 0


def bound(interp, fi, args, kw):
    """The arguments of a call in the order of the parameters."""
    fr = Frame(fi.parent, fi, fi.globals, fi.locals, fi.nonlocals, fi.globs)
    interp.bind(fi, fr, args, kw)
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) \
        + [x.arg for x in a.kwonlyargs]
    return [fr.vars[n] for n in names]


def no_overrides(name, w, base, methods, allow=()):
    """Every class of the package inherits these methods of `base` unchanged."""
    c = ctx()
    for k in all_subclasses(base):
        if k is base:
            continue
        for m in methods:
            for d in k.__mro__:
                if m in d.__dict__:
                    if d is not base and issubclass(d, base) and (d.__name__, m) not in allow:
                        c.undecided(name, f"{k.__name__} overrides {m}")
                    break
    c.prove(name, True)


def frame_clean(name, since=0, allowed=()):
    """Nothing that existed before tick `since` was changed after it (but for allowed objects)."""
    c = ctx()
    muts = {}
    for m in c.mutations:
        if m.tick > since and not c.is_fresh(m.obj, since) and not any(m.obj is a for a in allowed):
            muts.setdefault(m.key, []).append(m)
    unsure = None
    for ms in muts.values():
        m = ms[0]
        what = f"changes an existing {type(m.obj).__name__}"
        now = m.snap()
        if same_state(m.old, now):
            continue                    # changed and put back
        if m.part is not None and type(m.old) is object:
            unsure = f"adds an attribute {m.part} to an existing {type(m.obj).__name__}"
        elif len(ms) == 1 or m.part is not None or not isinstance(m.obj, (PyDict, PyList)):
            c.fail(name, what)
            return False
        else:
            c.undecided(name, what + ", more than once")
            unsure = unsure or what
            a, b = (st[0] if st[-1] is None else st[-1] for st in (m.old, now))
            n = [SymInt(zint(len(x) if isinstance(x, (list, dict)) else x.length())) for x in (a, b)]
            c.prove(name, n[0].t == n[1].t)
            return False
    if unsure:
        c.undecided(name, unsure)
        return False
    c.prove(name, True)
    return True


def same_state(a, b):
    """The same state, entry by entry (identity)."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same_state, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_state(a[k], b[k]) for k in a)
    if isinstance(a, DictContent):
        return same_state(a.parts, b.parts)
    if isinstance(a, VSeq):
        return same_state(a.segs, b.segs)
    if isinstance(a, Unit):
        return same_state(a.x, b.x)
    if isinstance(a, (str, int, float)):
        return a == b
    if isinstance(a, (SymStr, SymInt)):
        return a.t.eq(b.t)
    return False


# ---- flattening -----------------------------------------------------------------------

def fl(tr, k, t):
    """The depth-first list of (path, node) of tree t under path k."""
    def generic():
        c = ctx()
        if c.choose(2) == 0:
            return (k, tr.node(t))
        return (SymStr.of(k) + "/" + SymStr.term(z3.String(c.fresh("path"))), tr.any("sub"))
    return Abs("fl", (k, t), lambda: fl_unfold(tr, k, t), nonempty=True, generic=generic)


def fl_unfold(tr, k, t):
    nd = tr.node(t)
    n = SymInt(nch(t))
    kk = SymStr.of(k)
    m = tr.keymap(t)
    return VSeq([Unit((k, nd)), Join(n, lambda i: VSeq(
        [fl(tr, (kk + "/" + m.key(i)).out() if isinstance(kk + "/" + m.key(i), SymStr)
            else kk + "/" + m.key(i), childf(t, zint(i)))]))])


def iter_flat_contract(w, tr):
    def spec(k, root):
        return VSeq([fl(tr, k, term(root))], "iter")
    return Rec(w, "containers:iter_flat", spec)


class Built:
    """build(h, t): the tree that `unflatten` makes from the structures h of tree t."""

    def __init__(self, tr, maps, t):
        self.tr, self.maps, self.t = tr, maps, t

    def struct(self, t=None, path=None):
        c = ctx()
        t = self.t if t is None else t
        x = (path if path is not None else SymStr.term(z3.String(c.fresh("path"))), self.tr.node(t))
        for g in self.maps:
            x = g(x)
        return x


def built_node(tr, b):
    """A node object for build(h, t); its class, value and children come from h."""
    c = ctx()
    _, cls, value, _ = struct4(b.struct())
    o = object.__new__(tr.w.cn.Node)
    base = tr.keymap(b.t)
    m = KeyMap(base.n, base._key, lambda i: built_node(tr, Built(tr, b.maps, childf(b.t, zint(i)))),
               base.name, base.has, base.idx)
    o.__dict__.update(_value=value, _children=PyDict.sym(DictContent([("map", m)])),
                      __pyvc_built__=b)
    if isinstance(cls, SymType):
        o.__dict__["__pyvc_type__"] = cls
    else:
        o.__dict__["__pyvc_type__"] = SymType(cls_const(cls), cls)
    return c.made(o)


def cls_const(cls):
    from ..models import cls_term
    return cls_term(cls)


def struct4(x):
    s = as_vseq(x)
    if s is None:
        raise Unsupported("node structure is not a tuple")
    xs = s.concrete()
    if xs is None or len(xs) != 4:
        raise Unsupported("node structure is not a 4-tuple")
    return xs


def same_built(name, a, b):
    """build(h1, t1) = build(h2, t2): same tree, and the same structure at a generic node."""
    c = ctx()
    c.prove(name, a.t == b.t)
    if len(a.maps) == len(b.maps) and all(x is y for x, y in zip(a.maps, b.maps)):
        return
    g = a.tr.any("sub")
    t = g.__pyvc_term__
    path = SymStr.term(z3.String(c.fresh("path")))
    sa, sb = struct4(a.struct(t, path)), struct4(b.struct(t, path))
    for i in (1, 2, 3):
        same(name, sa[i], sb[i])


def split_flat(v):
    """(Abs of a flattened tree, rest) at the front of a sequence of node structures."""
    segs = list(v.segs)
    while segs:
        s = segs[0]
        if isinstance(s, (Tab, Join)) and ieq(s.n, 0):
            segs.pop(0)
            continue
        if isinstance(s, Join):
            f = s.f
            segs[:1] = f(0).segs + [Join(s.n - 1, lambda j, f=f: f(j + 1))]
            continue
        break
    if not segs or not isinstance(segs[0], Abs) or segs[0].info.get("base", segs[0]).tag != "fl":
        raise Unsupported("unflatten is given something else than a flattened tree")
    return segs[0], segs[1:]


def unflatten_contract(w, tr, prop):
    """Precondition: the structures start with those of some tree t, mapped by h, where h keeps
    the child keys.  Result: (build(h, t), rest), nothing is changed."""
    def spec(structs):
        c = ctx()
        v = as_vseq(structs, w.it)
        if v is None:
            raise Unsupported("unflatten of a non-sequence")
        s, rest = split_flat(v)
        base = s.info.get("base", s)
        b = Built(tr, s.info.get("maps", ()), base.args[1])
        # precondition: child keys of the structure are the child keys of the node
        g = tr.any("sub")
        keys = as_vseq(struct4(b.struct(g.__pyvc_term__))[3], w.it)
        want = VSeq([Tab(SymInt(nch(g.__pyvc_term__)), tr.keymap(g.__pyvc_term__).key)])
        if keys is None:
            raise Unsupported("child keys are not a sequence")
        same(f"{prop}.unflatten.precondition", VSeq(keys.segs), want)
        return (built_node(tr, b), VSeq(rest, "list").kindly("list"))
    return Rec(w, "containers:unflatten", spec)


def from_tree_contract(w):
    """from_tree(cls, value, children): a new object of exactly that class with that value and
    that children dictionary.  (Used for symbolic classes; proved per class in C02.)"""
    def spec(cls, value, children):
        if not isinstance(cls, SymType):
            return NotImplemented
        o = object.__new__(w.cn.Node)
        o.__dict__.update(_value=value, _children=children, __pyvc_type__=cls)
        return ctx().made(o)
    return Rec(w, "containers:Node.from_tree", spec)
