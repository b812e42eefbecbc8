"""C17: updating a layout for matplotlib changes only axis-thickness parameters.

An arbitrary layout (C16) is updated with an arbitrary mapping of axes.  The loop over the
flattened constraint tree is over an opaque sequence: an arbitrary element is the root, or the
node at some path `rel` that resolves in the common shape.  The new parameter tree is a copy of
the old one (contract of Node.copy, C03) into which entries are put (contract of __setitem__,
C01); the puts are recorded.  Obligation: they are, in the order of the constraints and nothing
else, for every x/y thickness constraint u at `rel` the parameter tree of u (C08) for the x/y axis
of the axes named by the first component of u's primitive key.  A lemma over the path functions
turns the record of puts into the pointwise statement.
"""
from __future__ import annotations

from .c16 import *
from .c16 import Layouts as _Layouts
from ..models import m_isinstance

Ax = z3.Function("axes_named", S, Opaque.Sort)
klen = z3.Function("number_of_keys", N, I)
kat = z3.Function("prim_key_at", N, I, S)


class Axis:
    """The x or y axis of a matplotlib axes."""
    __pyvc_sym__ = True

    def __init__(self, ax, which):
        self.ax, self.which = ax, which

    def __pyvc_same__(self, name, o):
        if not isinstance(o, Axis) or o.which != self.which:
            return ctx().fail(name, f"the {self.which} axis against {getattr(o, 'which', type(o).__name__)}")
        same(name, SymStr.term(self.ax), SymStr.term(o.ax))


class AxesObj:
    """The matplotlib axes of a name."""
    __pyvc_sym__ = True

    def __init__(self, name):
        self.xaxis, self.yaxis = Axis(name, "x"), Axis(name, "y")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"attribute {name} of matplotlib axes")


class AxesMap:
    """A mapping that has the axes of every name the layout uses."""
    __pyvc_sym__ = True

    def __getitem__(self, k):
        if not isinstance(k, (str, SymStr)):
            raise Unsupported("axes looked up by something that is not a string")
        c = ctx()
        d = c.store.setdefault("axes", {})
        t = SymStr.of(k).t
        if t.sexpr() not in d:
            d[t.sexpr()] = AxesObj(t)
        return d[t.sexpr()]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{name} of the mapping of axes")


class Layouts(_Layouts):
    def __init__(self, w):
        super().__init__(w)
        self.K.value = lambda t: VSeq([Tab(SymInt(klen(t)), lambda j: SymStr.term(kat(t, zint(j))))])
        self.cs.tr.base = w.con.ConstructionNode

        class Copy(w.con.ParamsNode):
            """A copy of a parameter tree, known by its contract."""
            @property
            def children(self):
                raise Unsupported("the children of a copied tree")
        self.Copy = Copy

        def copy(o):
            r = object.__new__(Copy)
            r.__dict__.update(_value=o.value, __pyvc_copyof__=term(o), __pyvc_puts__=PyList(),
                              __pyvc_type__=SymType(cls_const(w.cn.Node), w.cn.Node))
            return ctx().made(r)
        Rec(w, "containers:Node.copy", copy)
        Rec(w, "containers:Node.__setitem__", self.set_child)

    def set_child(self, o, key, child):
        c = ctx()
        puts = o.__dict__.get("__pyvc_puts__")
        if puts is None:
            raise Unsupported("an entry of a tree that is not a copy is replaced")
        if not isinstance(key, (str, SymStr)):
            raise Unsupported("key that is not a string")
        if not c.branch(ok(shp(o.__dict__["__pyvc_copyof__"]), SymStr.of(key).t)):
            raise KeyError("path does not resolve")
        h = getattr(child, "__dict__", {}).get("__pyvc_spec__")
        what = ("other", child) if h is None else (h[0], self.cs.tr.node(h[1]), h[2])
        puts.append((SymStr.of(key), what))

    def get_child(self, node, key):
        if node.__dict__.get("__pyvc_puts__") is not None:
            raise Unsupported("reading the updated tree")
        return super().get_child(node, key)

    def kinds(self, u):
        """u is an x (y) thickness constraint (no class is both)."""
        w = self.w
        o = self.cs.tr.node(u)
        x, y = (m_isinstance(w.it, [o, k], {}) for k in (w.cr.XAxisThickness, w.cr.YAxisThickness))
        x, y = (mkbool(as_z3(x)), mkbool(as_z3(y)))
        ctx().assume(z3.Not(z3.And(as_z3(x), as_z3(y))))
        return x, y

    def element(self, t, rel):
        """The element of the flattened tree t at the path rel."""
        return (("/" + SymStr.term(rel)), self.owner(t).node(tgt(t, rel)))

    def facts(self, rel):
        """What holds of the trees at a path that resolves."""
        c = ctx()
        c.assume(ok(self.s, rel))
        c.assume(rel != "")
        for t in (self.tC, self.tK, self.tP):
            c.assume(ok(shp(t), rel) == ok(self.s, rel))
            c.assume(shp(tgt(t, rel)) == tgt(self.s, rel))
        x, y = self.kinds(tgt(self.tC, rel))
        c.assume(z3.Implies(z3.Or(as_z3(x), as_z3(y)), klen(tgt(self.tK, rel)) == 1))
        c.assume(klen(tgt(self.tK, rel)) >= 0)

    def fl(self, k, t):
        a = super().fl(k, t)
        if not (isinstance(k, str) and k == "") or not any(t.eq(u) for u, _ in self.trees()):
            return a
        tr = self.owner(t)

        def generic():
            c = ctx()
            if c.choose(2) == 0:
                return ("", tr.node(t))
            rel = z3.String(c.fresh("rel"))
            self.facts(rel)
            return self.element(t, rel)

        def distinct(x, y):
            return SymStr.of(x[0]).t != SymStr.of(y[0]).t
        a.info.update(generic=generic, distinct=distinct, exact=True)
        return a


def as_z3(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b.z3bool if hasattr(b, "z3bool") else b.t


def first(k):
    """The first component of a path."""
    cut = SymStr.of(k).split_first()
    return SymStr.of(k) if cut is None else SymStr.of(cut[0])


def lemma(report, w):
    """After puts of new_0, new_1, ... at paths r_0, r_1, ..., none of which is another or below
    another, r_i resolves to new_i and every path that is neither an r_i nor below one resolves
    as before: induction over the number of puts, with the lemmas of C01 for one put."""
    case = Cases(report, "C17", w)
    T = z3.DeclareSort("Tree")
    okT, tgtT = z3.Function("ok_in", T, S, B), z3.Function("target_in", T, S, N)
    under = z3.Function("is_or_is_below", S, S, B)
    r, new = z3.Function("put_path", I, S), z3.Function("put_node", I, N)
    t0, t, t2 = (z3.Const(x, T) for x in ("tree0", "tree", "tree'"))
    j, i = z3.Ints("j i")
    p = z3.String("p")

    def unchanged(a, b, path):
        return z3.And(okT(b, path) == okT(a, path),
                      z3.Implies(okT(a, path), tgtT(b, path) == tgtT(a, path)))

    def step(n, g):
        c = ctx()
        c.assume(j >= 0)
        clear = z3.Function("clear_of_the_first", I, S, B)     # not at or below r_0 .. r_{m-1}

        # definition of clear, and no put path is at or below another
        for x in (p, r(j), r(i)):
            c.assume(clear(j + 1, x) == z3.And(clear(j, x), z3.Not(under(x, r(j)))))
        c.assume(clear(j, r(j)))
        c.assume(z3.Implies(i != j, z3.Not(under(r(i), r(j)))))
        c.assume(okT(t0, r(j)))
        # induction hypothesis
        c.assume(z3.Implies(z3.And(i >= 0, i < j), z3.And(okT(t, r(i)), tgtT(t, r(i)) == new(i))))
        for x in (p, r(j)):
            c.assume(z3.Implies(clear(j, x), unchanged(t0, t, x)))
        c.prove(n + ".resolves", okT(t, r(j)))
        # one put at r_j, which resolves (C01: setitem, lemmas added-path-resolves and
        # other-paths-unchanged)
        c.assume(z3.And(okT(t2, r(j)), tgtT(t2, r(j)) == new(j)))
        for x in (p, r(i)):
            c.assume(z3.Implies(z3.Not(under(x, r(j))), unchanged(t, t2, x)))
        if c.choose(2) == 0:
            c.assume(z3.And(i >= 0, i <= j))
            c.prove(n + ".replaced", z3.And(okT(t2, r(i)), tgtT(t2, r(i)) == new(i)))
        else:
            c.assume(clear(j + 1, p))
            c.prove(n + ".unchanged", unchanged(t0, t2, p))
    case("lemma.puts", step)


def prove(report, tier):
    w = World("layout")
    case = Cases(report, "C17", w)
    L = Layouts(w)
    cs = L.cs

    def update(n, g):
        c = ctx()
        o = L.layout()
        axs = AxesMap()
        mark = c.tick
        x, y = L.kinds(L.tC)
        c.assume(z3.And(z3.Not(as_z3(x)), z3.Not(as_z3(y))))      # the root is only a container
        r = evaluate(n, w.layout.update_layout_constraints, o, axs)
        if not isinstance(r, w.layout.Layout):
            return c.fail(n, f"returns {type(r).__name__}")
        c.prove(n + ".new-layout", r is not o and c.is_fresh(r, mark))
        for nm, (t, tr) in zip(("root_constraint", "root_prim_keys", "root_param", "root_prim"), L.trees()):
            if nm != "root_param":
                x = getattr(r, nm)
                if nm == "root_prim_keys" and getattr(x, "__dict__", {}).get("__pyvc_copyof__") is not None:
                    # a copy, into which nothing is put, has the same keys
                    c.prove(f"{n}.{nm}-kept", x.__dict__["__pyvc_copyof__"].eq(t))
                    same(f"{n}.{nm}-kept", VSeq(x.__dict__["__pyvc_puts__"].state().segs), VSeq([]))
                    continue
                c.prove(f"{n}.{nm}-kept", x is tr.node(t))
        P = r.root_param
        if P.__dict__.get("__pyvc_puts__") is None or P.__dict__.get("__pyvc_copyof__") is None:
            return c.fail(n + ".root_param", "the parameters are not a copy of the old ones")
        c.prove(n + ".root_param.copied", P.__dict__["__pyvc_copyof__"].eq(L.tP))
        frame_clean(n + ".original-unchanged", mark)

        def entry(e):
            path, node = e
            u = term(node)
            x, y = L.kinds(u)
            if isinstance(path, str):
                return VSeq([])
            rel = SymStr.of(path[1:])
            isx = c_branch(x)
            if not isx and not c_branch(y):
                return VSeq([])
            k = SymStr.term(kat(tgt(L.tK, rel.t), z3.IntVal(0)))
            a = axs[first(k)]
            return VSeq.unit((rel, ("P", node, VSeq.unit(a.xaxis if isx else a.yaxis))))

        def c_branch(b):
            return ctx().branch(as_z3(b))
        from ..loops import flat_abs
        same(n + ".exactly-the-thickness-parameters", VSeq(P.__dict__["__pyvc_puts__"].state().segs),
             VSeq([flat_abs(L.fl("", L.tC), entry)]))
        no_overrides(n + ".overrides", w, w.cn.Node, ("__setitem__", "copy", "get_child", "__getitem__"))

    # root_params: proved for all constructions in C08; it does not fail for these
    def total(o, X):
        x = as_vseq(X, w.it)
        if x is None:
            raise Unsupported("parameters that are not a tuple")
        return ctx().made(cs.spec_node("P", term(o), VSeq(x.segs)))
    rec = Rec(w, "constructions:ConstructionNode.root_params", total)
    case("update", update)
    lemma(report, w)

    w2 = World("layout")

    def reaches(n, g, X):
        # the parameter tree of a thickness constraint holds the thickness of the axis now
        c = ctx()
        o = evaluate(n, getattr(w2.cr, X + "AxisThickness"))
        axis = Axis(z3.String("ax"), X.lower())
        side = object()
        axis.get_ticks_position = lambda: side
        T = g.real("thickness")
        seen = []

        def thickness(a, *rest):
            seen.append((a, rest))
            return T
        Rec(w2, "constraints:get_axis_thickness", thickness)
        r = evaluate(n, o.root_params, (axis,))
        c.prove(n + ".axis", isinstance(r.value, tuple) and len(r.value) == 1 and r.value[0] is axis)
        c.prove(n + ".children", list(r.children) == list(o.children) and len(r.children) == 1)
        for x in r.children.values():
            same(n + ".thickness", x.value, (T,))
        c.prove(n + ".measured", len(seen) >= 1 and all(a is axis and len(x) == 1 and x[0] is side
                                                         for a, x in seen))
    for X in "XY":
        case(f"reaches-the-residual[{X}]", lambda n, g, X=X: reaches(n, g, X))
