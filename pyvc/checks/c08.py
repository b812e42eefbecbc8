"""C08: a construction evaluates its whole tree at the right arguments.

Specification functions over an arbitrary construction tree t (sort N), with K a tuple of paths
into a root primitive r and P a parameter tuple:

  CK(t, K)[i][j]  the j-th path of child i: K[n] ++ "/" ++ rest for the stored path argn/rest
  CP(t, P)[i]     what child_params of t gives for child i
  E(t, r, K, P) = [local(t, (r[K_j])_j, P)] ++ E(child 0, r, CK_0, CP_0) ++ ...
  V(t, q, P)    = [local(t, q, P)] ++ V(child 0, (q[n] or q[n][rest])_j, CP_0) ++ ...

V is the property; E is what evaluation from the stored trees computes, and E = V is a lemma.
"""
from __future__ import annotations

import jax.numpy as jnp

from .paths import *
from ..interp import StarSeq
from ..strs import IntStr
from ..scal import SymReal
from ..seq import map_abs
from ..models import zip_seqs

Par = z3.DeclareSort("Par")
nargs = z3.Function("nargs", N, I)
num = z3.Function("num", N, I, I, I)           # argument number of path j of child i
pnum = z3.Function("p_at", Par, I, z3.RealSort())
npar = z3.Function("npar", N, I)               # number of parameters
ptype = z3.Function("prim_type", N, I, SymType.Sort)
vtype = z3.Function("param_type", N, I, SymType.Sort)
vsize = z3.Function("value_size", N, I)
more = z3.Function("more", N, I, I, B)         # the path goes on after argN
rest = z3.Function("rest", N, I, I, S)
plen = z3.Function("plen", Par, I)
parf = z3.Function("par_of", N, Par, I, Par)   # child_params
zerod = z3.Function("local_is_0d", N, B)


def params(p):
    """The parameter tuple p (of length plen(p))."""
    def eq(name, x, y):
        if y.tag != "params" or x.info.get("maps") or y.info.get("maps"):
            return None
        ctx().prove(name, x.args[0] == y.args[0])
        return True
    a = Abs("params", (p,), lambda: VSeq([Tab(SymInt(plen(p)), lambda i: SymReal(pnum(p, zint(i))))]), eq=eq)
    a._len = SymInt(plen(p))
    return VSeq([a])


pcat = z3.Function("p_concat", Par, Par, Par)
preal = z3.Function("p_number", z3.RealSort(), Par)


def par_term(v):
    s = as_vseq(v)
    if s is None:
        raise Unsupported("parameters that are not a tuple")
    ts = []
    for g in s.segs:
        if isinstance(g, Abs) and g.tag == "params" and not g.info.get("maps"):
            ts.append(g.args[0])
        elif isinstance(g, Unit) and isinstance(g.x, (SymReal, int, float)):
            ts.append(preal(SymReal.lift(g.x)))
        elif isinstance(g, Tab) and ieq(g.n, 0):
            continue
        else:
            raise Unsupported("parameters that are not the parameters of a construction")
    if not ts:
        return z3.Const("no_params", Par)
    t = ts[-1]
    for u in reversed(ts[:-1]):
        t = pcat(u, t)
    return t


def _scale(x, k):
    if isinstance(k, (int, float, SymReal, SymInt)):
        if isinstance(x, VOp) and x.op == "*":
            return VOp("*", SymReal(SymReal.lift(k)) * x.a, x.b)
        return VOp("*", SymReal(SymReal.lift(k)), x)
    return NotImplemented


class Componentwise:
    """Arithmetic of values of constructions of equal size."""

    def __add__(self, o):
        return VOp("+", self, o) if isinstance(o, Componentwise) else NotImplemented

    def __mul__(self, k):
        return _scale(self, k)

    __rmul__ = __mul__

    def __neg__(self):
        return _scale(self, -1)

    def __sub__(self, o):
        return VOp("+", self, _scale(o, -1)) if isinstance(o, Componentwise) else NotImplemented

    def __truediv__(self, k):
        if isinstance(k, (int, float, SymReal, SymInt)):
            return _scale(self, 1 / SymReal(SymReal.lift(k)))
        return NotImplemented

    def __pow__(self, k):
        if isinstance(k, (int, float, SymReal, SymInt)):
            return VOp("**", self, SymReal(SymReal.lift(k)))
        return NotImplemented


class Vec(Componentwise):
    """The value of `assem` of construction t."""
    __pyvc_sym__ = True

    def __init__(self, t, prims, par, oned=False):
        self.t, self.prims, self.par, self.oned = t, prims, par, oned

    def __pyvc_same__(self, name, o):
        if not isinstance(o, Vec):
            return ctx().fail(name, f"value of assem against {type(o).__name__}")
        c = ctx()
        c.prove(name, self.t == o.t)
        same(name, self.prims, o.prims)
        same(name, self.par, o.par)
        if self.oned != o.oned:
            c.fail(name, "not made a vector")


class VOp(Componentwise):
    """A componentwise operation on vectors: k * x, x + y or x ** k."""
    __pyvc_sym__ = True

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    oned = property(lambda self: all(x.oned for x in (self.a, self.b) if isinstance(x, (Vec, VOp))))

    def __pyvc_same__(self, name, o):
        if not isinstance(o, VOp) or o.op != self.op:
            return ctx().fail(name, f"{self.op} against {getattr(o, 'op', type(o).__name__)}")
        a, b = o.a, o.b
        if self.op == "+" and isinstance(self.a, Vec) and isinstance(b, Vec) \
                and ctx().entails(self.a.t == b.t) and not ctx().entails(self.a.t == getattr(a, "t", b.t)):
            a, b = b, a
        same(name, self.a, a)
        same(name, self.b, b)


class Cat:
    """A vector that is the concatenation of a sequence of vectors."""
    __pyvc_sym__ = True

    def __init__(self, seq):
        self.seq = seq

    def __pyvc_same__(self, name, o):
        if isinstance(o, Vec) and o.oned:
            o = Cat(VSeq([Unit(o)]))
        if not isinstance(o, Cat):
            return ctx().fail(name, f"concatenation against {type(o).__name__}")
        same(name, self.seq, o.seq)

    def settle(self):
        return self


def atleast_1d(x):
    if isinstance(x, Vec):
        return Vec(x.t, x.prims, x.par, True)
    if isinstance(x, Cat):
        return x
    return NotImplemented


def concatenate(w):
    def run(interp, args, kw):
        if len(args) != 1 or kw:
            return NotImplemented
        s = as_vseq(args[0], interp)
        if s is None:
            return NotImplemented
        s = VSeq(s.segs)
        c = ctx()
        out = []

        def part(x):
            if isinstance(x, Cat):
                return list(x.seq.segs)
            if isinstance(x, Vec):
                if not x.oned and c.branch(zerod(x.t)):
                    raise ValueError("zero-dimensional arrays cannot be concatenated")
                return [Unit(x if x.oned else Vec(x.t, x.prims, x.par, True))]
            if isinstance(x, np.ndarray) and x.size == 0 and x.ndim == 1:
                return []
            raise Unsupported(f"concatenation of {type(x).__name__}")
        mine = False
        for g in s.segs:
            if isinstance(g, Unit):
                mine = mine or isinstance(g.x, (Cat, Vec))
        if not mine and all(isinstance(g, Unit) for g in s.segs):
            return NotImplemented
        empty = True
        for g in s.segs:
            if isinstance(g, Unit):
                out += part(g.x)
                empty = False
            elif isinstance(g, Tab):
                out.append(Join(g.n, lambda i, g=g: VSeq(part(g.f(i)))))
            elif isinstance(g, Join):
                out.append(Join(g.n, lambda i, g=g: VSeq(
                    [y for h in g.f(i).segs for y in (part(h.x) if isinstance(h, Unit) else [h])])))
            else:
                out.append(g)
                empty = empty and not g.nonempty
        if empty and not c.branch(zint(s.length()) > 0):
            raise ValueError("need at least one array to concatenate")
        return Cat(VSeq(out))
    return run


class Cons:
    """Arbitrary construction trees with their specification functions."""

    def __init__(self, w, shape=None):
        self.w = w
        me = self
        self.shp = sh = (lambda t: t) if shape is None else shape
        self.nch = lambda t: nch(sh(t))
        Base = w.con.ConstructionNode

        class K(Base):
            @property
            def assem(self):
                t = self.__dict__["__pyvc_term__"]
                return Local(t)
        self.K = K
        self.tr = Trees(w, self.value, K, shape)
        self.prims = Trees(w, None, w.pr.PrimitiveNode)

        def node_same(a, name, b, old=w.cn.Node.__pyvc_same__):
            for p, q in ((a, b), (b, a)):
                h = p.__dict__.get("__pyvc_spec__")
                if h is not None:
                    return me.same_spec(name, h, q)
            return old(a, name, b)
        w.cn.Node.__pyvc_same__ = node_same

    # ---- data of a construction
    def value(self, t):
        c = ctx()
        c.assume(nargs(t) >= 0)

        def child_keys(i):
            return VSeq([Tab(SymInt(nargs(childf(t, zint(i)))), lambda j: self.stored(t, i, j))])
        keys = PyList.sym(VSeq([Tab(SymInt(self.nch(t)), child_keys)], "list"))
        c.born.pop(id(keys), None)
        c.assume(npar(t) >= 0)
        sig = self.w.con.ConstructionSignature(
            VSeq([Tab(SymInt(nargs(t)), lambda i: SymType(ptype(t, zint(i)), self.w.pr.Primitive))]),
            VSeq([Tab(SymInt(npar(t)), lambda i: SymType(vtype(t, zint(i))))]), SymInt(vsize(self.shp(t))))
        return self.w.con.ConstructionValue(keys, ChildParams(t, self.nch(t)), sig)

    def stored(self, t, i, j):
        """The stored path j of child i: argN or argN/rest."""
        c = ctx()
        i, j = zint(i), zint(j)
        n = num(t, i, j)
        c.assume(z3.Implies(z3.And(i >= 0, i < self.nch(t), j >= 0, j < nargs(childf(t, i))),
                            z3.And(n >= 0, n < nargs(t))))
        p = SymStr(["arg", IntStr(n)])
        if c.branch(more(t, i, j)):
            return p + "/" + SymStr.term(rest(t, i, j))
        return p

    def CK(self, t, K, i):
        def path(j):
            c = ctx()
            self.stored(t, i, j)
            zi, zj = zint(i), zint(j)
            p = SymStr.of(K.at(SymInt(num(t, zi, zj))))
            if c.branch(more(t, zi, zj)):
                return p + "/" + SymStr.term(rest(t, zi, zj))
            return p
        return VSeq([Tab(SymInt(nargs(childf(t, zint(i)))), path)])

    def CP(self, t, P, i):
        return params(parf(t, par_term(P), zint(i)))

    def keys(self, t, name="K"):
        """An arbitrary tuple of paths for t."""
        c = ctx()
        f = z3.Function(c.fresh(name), I, S)
        c.assume(nargs(t) >= 0)
        return VSeq([Tab(SymInt(nargs(t)), lambda j: SymStr.term(f(zint(j))))])

    def par(self, name="P"):
        return params(z3.Const(ctx().fresh(name), Par))

    # ---- key and parameter trees
    def spec_node(self, kind, t, X):
        c = ctx()
        cls = self.w.con.PrimKeysNode if kind == "K" else self.w.con.ParamsNode
        step = self.CK if kind == "K" else self.CP
        o = object.__new__(cls)
        base = self.tr.keymap(t)
        m = KeyMap(base.n, base._key, lambda i: self.spec_node(
            kind, childf(t, zint(i)), step(t, X, i)), base.name, base.has, base.idx)
        kids = PyDict.sym(DictContent([("map", m)]))
        o.__dict__.update(_value=X, _children=kids, __pyvc_spec__=(kind, t, X))
        return o

    def same_spec(self, name, h, o):
        """o is the key (parameter) tree (kind, t, X)."""
        c = ctx()
        kind, t, X = h
        g = o.__dict__.get("__pyvc_spec__")
        if g is not None:
            if g[0] != kind:
                return c.fail(name, "a key tree against a parameter tree")
            c.prove(name, t == g[1])
            return same(name, X, g[2])
        want = self.spec_node(kind, t, X)
        same(name + ".value", o._value, X)
        same(name + ".children", o._children, want._children)

    def flat(self, kind, k, t, X):
        def generic():
            c = ctx()
            u = z3.Const(c.fresh("sub"), N)
            Y = self.keys(u) if kind == "K" else self.par()
            return (SymStr.term(z3.String(c.fresh("path"))), self.spec_node(kind, u, Y))

        def unfold():
            m = self.tr.keymap(t)
            step = self.CK if kind == "K" else self.CP
            return VSeq([Unit((k, self.spec_node(kind, t, X))), Join(m.n, lambda i: VSeq(
                [self.flat(kind, SymStr.of(k) + "/" + m.key(i), childf(t, zint(i)), step(t, X, i))]))])
        return Abs("fl" + kind, (k, t, X), unfold, nonempty=True, generic=generic,
                   align=("fl", t.sexpr()), joint=self.joint)

    def joint(self, bases):
        """Arbitrary corresponding elements of flattened trees of one construction."""
        c = ctx()
        u = z3.Const(c.fresh("sub"), N)
        c.assume(self.nch(u) >= 0)
        out = []
        for b in bases:
            path = SymStr.term(z3.String(c.fresh("path")))
            if b.tag == "fl":
                out.append((path, self.tr.node(u)))
            else:
                kind = b.tag[2:]
                out.append((path, self.spec_node(kind, u, self.keys(u) if kind == "K" else self.par())))
        return out

    def flat_self(self, k, t):
        def unfold():
            m = self.tr.keymap(t)
            return VSeq([Unit((k, self.tr.node(t))), Join(m.n, lambda i: VSeq(
                [self.flat_self(SymStr.of(k) + "/" + m.key(i), childf(t, zint(i)))]))])

        def generic():
            return (SymStr.term(z3.String(ctx().fresh("path"))), self.tr.any("sub"))
        return Abs("fl", (k, t), unfold, nonempty=True, generic=generic, align=("fl", t.sexpr()),
                   joint=self.joint)

    # ---- values
    def pick(self, r, K):
        """(r[K_j])_j"""
        n = VSeq(K.segs).length()
        return VSeq([Tab(n, lambda j: self.at(r, K.at(j)))])

    def at(self, r, path):
        t = r.__dict__.get("__pyvc_term__")
        if t is not None:
            return self.prims.node(tgt(t, SymStr.of(path).t))
        return self.w.it.call(type(r).__getitem__, [r, path], {})

    def E(self, t, r, K, P):
        def unfold():
            return VSeq([Unit(Vec(t, self.pick(r, K), P, True)), Join(SymInt(nch(t)), lambda i: VSeq(
                [self.E(childf(t, zint(i)), r, self.CK(t, K, i), self.CP(t, P, i))]))])
        return Abs("E", (t, r, K, P), unfold, nonempty=True, eq=self.same_E)

    def select(self, t, q, i):
        """The primitives that t gives to its child i."""
        def one(j):
            c = ctx()
            self.stored(t, i, j)
            zi, zj = zint(i), zint(j)
            x = q.at(SymInt(num(t, zi, zj)))
            if c.branch(more(t, zi, zj)):
                return self.at(x, SymStr.term(rest(t, zi, zj)))
            return x
        return VSeq([Tab(SymInt(nargs(childf(t, zint(i)))), one)])

    def V(self, t, q, P):
        def unfold():
            return VSeq([Unit(Vec(t, q, P, True)), Join(SymInt(nch(t)), lambda i: VSeq(
                [self.V(childf(t, zint(i)), self.select(t, q, i), self.CP(t, P, i))]))])
        return Abs("V", (t, q, P), unfold, nonempty=True, eq=self.same_E)

    def same_E(self, name, x, y):
        """Equality of E / V and of the zipped flattened trees; induction over the tree."""
        c = ctx()
        if x.info.get("maps") or (y.tag in "EV" and y.info.get("maps")):
            return None
        if x.tag == y.tag:
            for p, q in zip(x.args, y.args):
                if isinstance(p, z3.ExprRef):
                    c.prove(name, p == q)
                else:
                    same(name, p, q)
            return True
        e, v = (x, y) if x.tag == "E" else (y, x)
        if {x.tag, y.tag} == {"E", "V"}:
            if not c.store.get("E=V"):
                return None
            c.prove(name, e.args[0] == v.args[0])
            same(name, self.pick(e.args[1], e.args[2]), v.args[1])
            same(name, e.args[3], v.args[2])
            return True
        key = self.shape(y)
        if key is None:
            return None
        root = x.args[1] if x.tag == "E" else None
        key = (x.tag, id(root)) + key
        if key not in c.store.get("ih", ()):
            # lemma: for every tree with any keys and parameters; by induction over the tree
            t = z3.Const(c.fresh("tree"), N)
            c.assume(nch(t) >= 0)
            K, P = self.keys(t), self.par()
            z = self.rebuild(y, t, K, P)
            if z is None or x.tag != "E":
                return None
            ih = c.store.get("ih", ())
            c.store["ih"] = ih + (key,)
            c.under(name, [], lambda: same(name, VSeq(z.unfold().segs),
                                           self.E(t, root, K, P).unfold()))
        for h in y.info.get("base", y).args:
            b = h.info.get("base", h)
            if b.tag == "flK":
                same(name, b.args[2], x.args[2])
            elif b.tag == "flP":
                same(name, b.args[2], x.args[3])
            c.prove(name, b.args[1] == x.args[0])
        return True

    def rebuild(self, y, t, K, P):
        """The zipped, mapped flattened trees y for another tree, its keys and parameters."""
        hs = []
        for h in y.info.get("base", y).args:
            b = h.info.get("base", h)
            k = SymStr.term(z3.String(ctx().fresh("path")))
            a = self.flat_self(k, t) if b.tag == "fl" else self.flat(
                b.tag[-1], k, t, K if b.tag == "flK" else P)
            for g in h.info.get("maps", ()):
                a = map_abs(a, g)
            hs.append(VSeq([a]))
        z = zip_seqs(hs)
        if len(z.segs) != 1:
            return None
        a = z.segs[0]
        for g in y.info.get("maps", ()):
            a = map_abs(a, g)
        return a

    def shape(self, y):
        b = y.info.get("base", y)
        if b.tag in ("E", "V"):
            return b.tag
        if b.tag == "zip":
            hs = []
            for h in b.args:
                hb = h.info.get("base", h)
                if hb.tag not in ("fl", "flK", "flP"):
                    return None
                hs.append((hb.tag,) + tuple(id(g) for g in h.info.get("maps", ())))
            return ("zip", tuple(hs), tuple(id(g) for g in y.info.get("maps", ())))
        return None


class Local:
    """assem of construction t: an arbitrary pure function of primitives and parameters."""
    __pyvc_star__ = True
    __pyvc_sym__ = True

    def __init__(self, t):
        self.t = t

    def __call__(self, prims, *par):
        ps = as_vseq(prims)
        ctx().store["evaluated"] = True
        if ps is None:
            raise Unsupported("primitives that are not a tuple")
        v = VSeq([])
        for x in par:
            v = v.concat(x.seq if isinstance(x, StarSeq) else VSeq.unit(x))
        return Vec(self.t, VSeq(ps.segs), v)


class ChildParams:
    """The stored child_params of construction t (at least one entry per child)."""
    __pyvc_sym__ = True

    def __init__(self, t, children):
        self.t, self.children = t, children

    def __call__(self, P):
        p = par_term(P)
        t = self.t
        c = ctx()
        n = z3.Function("n_child_params", N, Par, I)(t, p)
        c.assume(n >= self.children)
        return VSeq([Tab(SymInt(n), lambda i: params(parf(t, p, zint(i))))])


def spec_of(o, kind):
    h = getattr(o, "__dict__", {}).get("__pyvc_spec__")
    if h is None or h[0] != kind:
        raise Unsupported("not a key or parameter tree")
    return h


def contracts(w, cs, validate=True):
    def iter_flat(k, root):
        h = getattr(root, "__dict__", {}).get("__pyvc_spec__")
        if h is not None:
            return VSeq([cs.flat(h[0], k, h[1], h[2])], "iter")
        return VSeq([cs.flat_self(k, term(root))], "iter")
    Rec(w, "containers:iter_flat", iter_flat)

    def get_child(node, key):
        t = node.__dict__.get("__pyvc_term__")
        if t is None:
            return NotImplemented
        if not isinstance(key, (str, SymStr)) or isinstance(node, cs.K):
            raise Unsupported("get_child of something else")
        p = SymStr.of(key).t
        ctx().assume(ok(t, p))          # precondition: the argument paths resolve
        return cs.prims.node(tgt(t, p))
    Rec(w, "containers:Node.get_child", get_child)
    r = {}
    r["keys"] = Rec(w, "constructions:ConstructionNode.root_prim_keys",
                    lambda o, K: cs.spec_node("K", term(o), tup(K)))
    r["params"] = Rec(w, "constructions:ConstructionNode.root_params",
                      lambda o, P: cs.spec_node("P", term(o), tup(P)))

    def from_tree(o, root, kt, pt):
        _, t, K = spec_of(kt, "K")
        _, u, P = spec_of(pt, "P")
        c = ctx()
        c.store["evaluated"] = True
        c.prove("C08.assem_from_tree.precondition", z3.And(term(o) == t, term(o) == u))
        return Cat(VSeq([cs.E(term(o), root, K, P)]))
    r["assem"] = Rec(w, "constructions:ConstructionNode.assem_from_tree", from_tree)

    def call(o, prims, *P):
        return Cat(VSeq([cs.V(term(o), tup(prims), tup(P[0]) if P else VSeq([]))]))
    r["call"] = Rec(w, "constructions:ConstructionNode.__call__", call)
    for v in ("validate_prims", "validate_params") if validate else ():       # proved in C09
        Rec(w, "constructions:ConstructionNode." + v, lambda *a: None)
    return r


def tup(v):
    s = as_vseq(v)
    if s is None:
        raise Unsupported("not a tuple")
    return VSeq(s.segs)


def prove(report, tier):
    w = World("constructions")
    case = Cases(report, "C08", w)
    cs = Cons(w)
    w.it.models[jnp.atleast_1d] = lambda it, a, k: atleast_1d(a[0]) if len(a) == 1 else NotImplemented
    for f in (jnp.concatenate, jnp.hstack):
        w.it.models[f] = concatenate(w)
    rec = contracts(w, cs)
    CN = w.con.ConstructionNode

    def structure(n, g):
        no_overrides(n, w, CN, ("__call__", "assem_from_tree", "assem_atleast_1d", "root_prim_keys",
                                "root_params", "root_prim", "child_prim_keys", "child_params",
                                "get_child", "items", "__getitem__", "children", "value"))
    case("one-implementation", structure)

    def keys(n, g):
        o = cs.tr.any()
        t = term(o)
        K = cs.keys(t)
        with rec["keys"]:
            r = evaluate(n, o.root_prim_keys, K)
        if not isinstance(r, w.cn.Node):
            return ctx().fail(n, f"returns {type(r).__name__}")
        cs.same_spec(n, ("K", t, K), r)
        frame_clean(n + ".frame")
    case("root_prim_keys", keys)

    def pars(n, g):
        o = cs.tr.any()
        t = term(o)
        P = cs.par()
        with rec["params"]:
            r = evaluate(n, o.root_params, P)
        if not isinstance(r, w.cn.Node):
            return ctx().fail(n, f"returns {type(r).__name__}")
        cs.same_spec(n, ("P", t, P), r)
        frame_clean(n + ".frame")
    case("root_params", pars)

    def assem(n, g):
        o = cs.tr.any()
        t = term(o)
        K, P = cs.keys(t), cs.par()
        root = cs.prims.any("root")
        kt, pt = cs.spec_node("K", t, K), cs.spec_node("P", t, P)
        ctx().born.clear()
        with rec["assem"]:
            r = evaluate(n, o.assem_from_tree, root, kt, pt)
        same(n, r, Cat(VSeq([cs.E(t, root, K, P)])))
        frame_clean(n + ".frame")
    case("assem_from_tree", assem)

    def compose(n, g):
        # r[a + "/" + b] = (r[a])[b], by induction over the number of '/' in a
        c = ctx()
        t, a, b, h, x = z3.Const("t", N), *(z3.String(s) for s in "abhx")

        def cat(*xs):
            out = []
            for i, y in enumerate(xs):
                out += ([SL] if i else []) + [y]
            return z3.Concat(*out)

        def defn(u, path, head=None, tail=None):
            if head is None:
                return z3.And(ok(u, path) == hasf(u, path), tgt(u, path) == kid(u, path))
            d = kid(u, head)
            return z3.And(ok(u, path) == z3.And(hasf(u, head), ok(d, tail)),
                          tgt(u, path) == tgt(d, tail))

        def lemma(u, a, full):
            return z3.And(ok(u, full) == z3.And(ok(u, a), ok(tgt(u, a), b)),
                          tgt(u, full) == tgt(tgt(u, a), b))
        if c.choose(2) == 0:
            c.assume(noslash(a))
            c.assume(defn(t, cat(a, b), a, b))
            c.assume(defn(t, a))
            c.prove(n + ".base", lemma(t, a, cat(a, b)))
        else:
            c.assume(noslash(h))
            d = kid(t, h)
            c.assume(defn(t, cat(h, x, b), h, cat(x, b)))
            c.assume(defn(t, cat(h, x), h, x))
            c.assume(lemma(d, x, cat(x, b)))             # induction hypothesis
            c.prove(n + ".step", lemma(t, cat(h, x), cat(h, x, b)))
    case("lemma.paths-compose", compose)

    def e_is_v(n, g):
        # E(t, r, K, P) = V(t, (r[K_j])_j, P), by induction over the tree
        c = ctx()
        t = z3.Const("t", N)
        c.assume(nch(t) >= 0)
        K, P = cs.keys(t), cs.par()
        root = cs.prims.any("root")
        rt = term(root)
        q = cs.pick(root, K)

        def child(i):
            # the lemma paths-compose at the paths of child i, then the induction hypothesis
            def path(j):
                zi, zj = zint(i), zint(j)
                cs.stored(t, i, j)
                k = SymStr.of(K.at(SymInt(num(t, zi, zj)))).t
                full, b = z3.Concat(k, SL, rest(t, zi, zj)), rest(t, zi, zj)
                c.assume(tgt(rt, full) == tgt(tgt(rt, k), b))
                same(n + ".child-primitives", cs.at(root, cs.CK(t, K, i).at(j)), cs.select(t, q, i).at(j))
            c.each(n + ".child-primitives", SymInt(nargs(childf(t, zint(i)))), path)
            same(n + ".child-parameters", cs.CP(t, P, i), cs.CP(t, P, i))
        e, v = cs.E(t, root, K, P).unfold(), cs.V(t, q, P).unfold()
        same(n + ".local", e.segs[0].x, v.segs[0].x)
        c.each(n + ".child-primitives", SymInt(nch(t)), child)
    case("lemma.stored-trees-are-the-property", e_is_v)

    def call(n, g):
        c = ctx()
        o = cs.tr.any()
        t = term(o)
        P = cs.par()
        f = z3.Function("prims", I, N)
        q = VSeq([Tab(SymInt(nargs(t)), lambda j: cs.prims.node(f(zint(j))))])
        with rec["call"]:
            r = evaluate(n, w.it.call, CN.__call__, [o, q, StarSeq(P)], {})
        c.store["E=V"] = True
        same(n, r, Cat(VSeq([cs.V(t, q, P)])))
        frame_clean(n + ".frame")
    case("__call__", call)
