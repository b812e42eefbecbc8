"""C10: arithmetic on constructions is pointwise arithmetic on their values.

The result of an operation on arbitrary construction trees is specified node by node: its keys,
its local value, the primitives and parameters it gives to each child, and that its children are
the results for the children.  With the definition of evaluation (C08) these are the steps of
the induction that gives: value of the result = the operation applied to the values.
"""
from __future__ import annotations

from .c08 import *
from .world import *

shp = z3.Function("shape", N, N)


class Result:
    """Specification of the result of an operation at trees ts."""

    def __init__(self, cs, op, ts, scalar=None, extra=None):
        self.cs, self.op, self.ts = cs, op, ts
        self.scalar = scalar          # the number, or None: the last parameter
        self.extra = extra

    def child(self, i):
        return Result(self.cs, self.op, [self.cs.tr.child(t, i) for t in self.ts], self.scalar,
                      self.extra)

    def args(self):
        """Arbitrary inputs: (primitives of each tree), (parameters of each tree), number."""
        c = ctx()
        qs, Ps = [], []
        for t in self.ts:
            f = z3.Function(c.fresh("prims"), I, N)
            c.assume(nargs(t) >= 0)
            c.assume(npar(t) >= 0)
            qs.append(VSeq([Tab(SymInt(nargs(t)), lambda j, f=f: self.cs.prims.node(f(zint(j))))]))
            P = z3.Const(c.fresh("P"), Par)
            c.assume(plen(P) == npar(t))
            Ps.append(params(P))
        s = SymReal(z3.Real(c.fresh("s"))) if self.scalar is None and self.op in "*/^" else None
        return qs, Ps, s

    def join(self, vs, s=None):
        r = VSeq([])
        for v in vs:
            r = r.concat(v)
        return r.concat(VSeq.unit(s)) if s is not None else r

    def local(self, qs, Ps, s):
        vs = [Vec(t, q, P) for t, q, P in zip(self.ts, qs, Ps)]
        k = s if s is not None else self.scalar
        if self.op == "+":
            return vs[0] + vs[1]
        if self.op == "*":
            return vs[0] * k
        if self.op == "/":
            return vs[0] / k
        if self.op == "^":
            return vs[0] ** k
        raise AssertionError(self.op)


def node_facts(n, w, R, spec, child_ok):
    """Obligations that R is the result described by spec (at one node)."""
    c = ctx()
    cs = spec.cs
    ts = spec.ts
    t = ts[0]
    qs, Ps, s = spec.args()
    if s is not None and spec.op == "/":
        c.assume(s.t != 0)
    q, P = spec.join(qs), spec.join(Ps, s)
    same(n + ".keys", VSeq(as_vseq(evaluate(n + ".keys", R.keys), w.it).segs),
         VSeq([Tab(SymInt(cs.nch(t)), cs.tr.keymap(t).key)]))
    v = evaluate(n + ".local-value", w.it.call, R.assem, [q, StarSeq(P)], {})
    same(n + ".local-value", v, spec.local(qs, Ps, s))
    sig = R.value.signature
    pt = VSeq([Tab(SymInt(nargs(u)), lambda i, u=u: SymType(ptype(u, zint(i)))) for u in ts])
    same(n + ".primitive-types", VSeq(as_vseq(sig.prim_types, w.it).segs), pt)
    c.prove(n + ".number-of-parameters", zint(as_vseq(sig.param_types, w.it).length())
            == sum((npar(u) for u in ts), z3.IntVal(0 if s is None else 1)))
    same(n + ".value-size", sig.value_size, SymInt(vsize(shp(t))))
    # the primitives and parameters of the children
    Ks = [cs.keys(u) for u in ts]
    ks = as_vseq(evaluate(n + ".child-primitives", R.child_prim_keys, spec.join(Ks)), w.it)
    same(n + ".child-primitives", VSeq(ks.segs), VSeq([Tab(SymInt(cs.nch(t)), lambda i: spec.join(
        [cs.CK(u, K, i) for u, K in zip(ts, Ks)]))]))
    ps = as_vseq(evaluate(n + ".child-parameters", R.child_params, P), w.it)
    if ps is None:
        return c.fail(n + ".child-parameters", "not a sequence")
    ps = VSeq(ps.segs)
    c.prove(n + ".child-parameters", zint(ps.length()) >= cs.nch(t))
    c.each(n + ".child-parameters", SymInt(cs.nch(t)), lambda i: same(
        n + ".child-parameters", ps.at(i), spec.join([cs.CP(u, Q, i) for u, Q in zip(ts, Ps)], s)))
    kids = to_content(R.children).values()
    c.prove(n + ".children", zint(kids.length()) == cs.nch(t))
    c.each(n + ".children", SymInt(cs.nch(t)), lambda i: child_ok(n + ".children", kids.at(i), spec.child(i)))


class Built:
    """What unflatten makes from the structures elem(trees)."""

    def __init__(self, elem, ts):
        self.elem, self.ts = elem, ts


def built(w, cs, elem, ts):
    x = struct4(elem(ts))
    _, cls, value, keys = x
    if not isinstance(cls, type):
        raise Unsupported("class of a flattened construction")
    o = object.__new__(cls)
    base = cs.tr.keymap(ts[0])
    m = KeyMap(base.n, base._key, lambda i: built(w, cs, elem, [cs.tr.child(t, i) for t in ts]),
               base.name, base.has, base.idx)
    o.__dict__.update(_value=value, _children=PyDict.sym(DictContent([("map", m)])),
                      __pyvc_elem__=Built(elem, ts))
    return ctx().made(o)


def elem_of(cs, a):
    """A flattened (zipped, mapped) tree as a function of its nodes; and the trees."""
    base = a.info.get("base", a)
    if base.tag == "fl":
        hs = [a]
        outer = ()
    elif base.tag == "zip":
        hs = list(base.args)
        outer = a.info.get("maps", ())
    else:
        raise Unsupported(f"unflatten of {base.tag}")
    trees = []
    for h in hs:
        hb = h.info.get("base", h)
        if hb.tag != "fl":
            raise Unsupported(f"unflatten of zipped {hb.tag}")
        trees.append(hb.args[1])

    def elem(ts):
        c = ctx()
        xs = []
        for h, t in zip(hs, ts):
            x = (SymStr.term(z3.String(c.fresh("path"))), cs.tr.node(t))
            for g in h.info.get("maps", ()):
                x = g(x)
            xs.append(x)
        x = xs[0] if base.tag == "fl" else tuple(xs)
        for g in outer:
            x = g(x)
        return x
    return elem, trees


def same_shape(cs, ts):
    c = ctx()
    for t in ts:
        c.assume(shp(t) == shp(ts[0]))
        c.assume(nch(shp(t)) >= 0)


def flat_contracts(w, cs):
    def joint(bases):
        c = ctx()
        us = [z3.Const(c.fresh("sub"), N) for _ in bases]
        same_shape(cs, us)
        return [(SymStr.term(z3.String(c.fresh("path"))), cs.tr.node(u)) for u in us]

    def iter_flat(k, root):
        if "__pyvc_term__" not in root.__dict__:
            return NotImplemented
        t = term(root)

        def flat(k, t):
            def unfold():
                m = cs.tr.keymap(t)
                return VSeq([Unit((k, cs.tr.node(t))), Join(m.n, lambda i: VSeq(
                    [flat(SymStr.of(k) + "/" + m.key(i), cs.tr.child(t, i))]))])

            def generic():
                return (SymStr.term(z3.String(ctx().fresh("path"))), cs.tr.any("sub"))
            # trees of equal shape are aligned
            return Abs("fl", (k, t), unfold, nonempty=True, generic=generic, align=Shape(t), joint=joint)
        return VSeq([flat(k, t)], "iter")
    Rec(w, "containers:iter_flat", iter_flat)

    def unflatten(structs):
        v = as_vseq(structs, w.it)
        if v is None:
            raise Unsupported("unflatten of a non-sequence")
        segs = norm_front(v)
        if segs and isinstance(segs[0], Unit):
            return NotImplemented
        if not segs or not isinstance(segs[0], Abs):
            raise Unsupported("unflatten is given something else than a flattened tree")
        elem, trees = elem_of(cs, segs[0])
        # precondition: at every node the child keys are those of the tree
        c = ctx()
        g = [z3.Const(c.fresh("sub"), N) for _ in trees]

        def keys():
            same_shape(cs, g)
            ks = as_vseq(struct4(elem(g))[3], w.it)
            same("C10.unflatten.precondition", VSeq(ks.segs),
                 VSeq([Tab(SymInt(cs.nch(g[0])), cs.tr.keymap(g[0]).key)]))
        c.under("C10.unflatten.precondition", [], keys)
        return (built(w, cs, elem, trees), VSeq(segs[1:], "list").kindly("list"))
    Rec(w, "containers:unflatten", unflatten)


def norm_front(v):
    from .tree import split_flat
    segs = list(v.segs)
    while segs and isinstance(segs[0], (Tab, Join)) and ieq(segs[0].n, 0):
        segs.pop(0)
    return segs


class Shape:
    """Alignment of flattened trees: equal when the trees have equal shape."""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Shape) and ctx().entails(shp(self.t) == shp(o.t))

    def __hash__(self):
        return 7

    def __repr__(self):
        return "shape"


def results(n, w, cs, make, spec, rec):
    """make() is the result described by spec, at its root and at all descendants."""
    c = ctx()
    done = []

    def child_ok(name, x, want):
        d = x.__dict__.get("__pyvc_result__")
        if d is not None:
            if d.op != want.op:
                return c.fail(name, "another operation at the children")
            for a, b in zip(d.ts, want.ts):
                c.prove(name, a == b)
            if d.scalar is not None or want.scalar is not None:
                same(name, d.scalar, want.scalar)
            return
        b = x.__dict__.get("__pyvc_elem__")
        if b is None:
            return c.fail(name, f"child is a {type(x).__name__}")
        for p, q in zip(b.ts, want.ts):
            c.prove(name, p == q)
        if any(e is b.elem for e in done):
            return
        done.append(b.elem)
        # the same structures at any node
        g = [z3.Const(c.fresh("node"), N) for _ in want.ts]

        def anywhere():
            same_shape(cs, g)
            s = Result(cs, want.op, g, want.scalar)
            node_facts(n + ".below", w, built(w, cs, b.elem, g), s, child_ok)
        c.under(n + ".below", [], anywhere)
    node_facts(n, w, make(), spec, child_ok)


class OpRec(Rec):
    pass


def op_contract(w, cs, name, op):
    """Contract of transform_sum / transform_scalar_*: a node described by Result."""
    def spec(*a):
        if op == "+":
            x, y = a
            if not (isinstance(x, cs.K) and isinstance(y, cs.K)):
                return NotImplemented
            return spec_node(cs, Result(cs, op, [term(x), term(y)]))
        x, k = a
        if not isinstance(x, cs.K) or "__pyvc_term__" not in x.__dict__:
            return NotImplemented
        if isinstance(k, w.con.ConstructionNode):
            return NotImplemented
        return spec_node(cs, Result(cs, op, [term(x)], k))
    return Rec(w, "constructions:" + name, spec)


def spec_node(cs, r):
    o = object.__new__(cs.w.con.ConstructionNode)
    o.__dict__["__pyvc_result__"] = r
    return ctx().made(o)


def prove(report, tier):
    w = World("constructions")
    con = w.con
    case = Cases(report, "C10", w)
    cs = Cons(w, shp)
    flat_contracts(w, cs)
    CN = con.ConstructionNode

    def structure(n, g):
        no_overrides(n, w, CN, ("__add__", "__radd__", "__mul__", "__rmul__", "__truediv__", "__pow__",
                                "__neg__", "__pos__", "child_prim_keys", "child_params"))
    case("one-implementation", structure)

    def two():
        a, b = cs.tr.any("A"), cs.tr.any("B")
        same_shape(cs, [term(a), term(b)])
        return a, b

    rsum = op_contract(w, cs, "transform_sum", "+")

    def sums(name, f):
        def body(n, g):
            a, b = two()
            c = ctx()

            def make():
                with rsum:
                    return evaluate(n, f, a, b)
            results(n, w, cs, make, Result(cs, "+", [term(a), term(b)]), rsum)
            frame_clean(n + ".frame")
        case(name, body)
    sums("transform_sum", lambda a, b: con.transform_sum(a, b))
    sums("__add__", lambda a, b: a + b)

    def scaled(name, f, op, number, rec=None, value=None):
        def body(n, g):
            a = cs.tr.any("A")
            same_shape(cs, [term(a)])
            k = None
            if number is not None:
                k = g.real("k") if number == "k" else number
                if op == "/":
                    ctx().assume(R(k).t != 0)
            spec = Result(cs, op, [term(a)], None if number is None else (value or k))

            def make():
                with recs[op] if op != "/" else recs["*"]:
                    return evaluate(n, f, a, k if number is not None else w.it.call(con.Scalar, [], {}))
            results(n, w, cs, make, spec, None)
            frame_clean(n + ".frame")
        case(name, body)
    recs = {"*": op_contract(w, cs, "transform_scalar_mul", "*"),
            "^": op_contract(w, cs, "transform_scalar_pow", "^")}
    for tag, num_ in (("number", "k"), ("int", 4), ("parameter", None)):
        scaled(f"transform_scalar_mul[{tag}]", lambda a, k: con.transform_scalar_mul(a, k), "*", num_)
        scaled(f"transform_scalar_div[{tag}]", lambda a, k: con.transform_scalar_div(a, k), "/", num_)
        scaled(f"transform_scalar_pow[{tag}]", lambda a, k: con.transform_scalar_pow(a, k), "^", num_)
        scaled(f"__mul__[{tag}]", lambda a, k: a * k, "*", num_)
        scaled(f"__rmul__[{tag}]", lambda a, k: k * a, "*", num_)
        scaled(f"__truediv__[{tag}]", lambda a, k: a / k, "/", num_)
        scaled(f"__pow__[{tag}]", lambda a, k: a ** k, "^", num_)
    scaled("__neg__", lambda a, k: -a, "*", 1, value=-1)

    def pos(n, g):
        a = cs.tr.any("A")
        same(n, evaluate(n, lambda: +a), a)
        frame_clean(n + ".frame")
    case("__pos__", pos)

    def partial(n, g):
        c = ctx()
        a = cs.tr.any("A")
        t = term(a)
        same_shape(cs, [t])
        c.assume(npar(t) >= 0)
        F, P = z3.Const("F", Par), z3.Const("P", Par)
        c.assume(z3.And(plen(F) >= 0, plen(P) >= 0, plen(F) + plen(P) == npar(t)))
        r = evaluate(n, w.it.call, con.transform_partial, [a, StarSeq(params(F))], {})
        full = params(P).concat(params(F))
        f = z3.Function("prims", I, N)
        q = VSeq([Tab(SymInt(nargs(t)), lambda j: cs.prims.node(f(zint(j))))])
        v = evaluate(n + ".local-value", w.it.call, r.assem, [q, StarSeq(params(P))], {})
        same(n + ".local-value", v, Vec(t, q, full))
        sig = r.value.signature
        same(n + ".primitive-types", VSeq(as_vseq(sig.prim_types, w.it).segs),
             VSeq([Tab(SymInt(nargs(t)), lambda i: SymType(ptype(t, zint(i))))]))
        c.prove(n + ".number-of-parameters", zint(as_vseq(sig.param_types, w.it).length()) == plen(P))
        same(n + ".value-size", sig.value_size, SymInt(vsize(shp(t))))
        K = cs.keys(t)
        ks = as_vseq(evaluate(n, r.child_prim_keys, K), w.it)
        same(n + ".child-primitives", VSeq(ks.segs),
             VSeq([Tab(SymInt(cs.nch(t)), lambda i: cs.CK(t, K, i))]))
        ps = as_vseq(evaluate(n, r.child_params, params(P)), w.it)
        ps = VSeq(ps.segs)
        c.prove(n + ".child-parameters", zint(ps.length()) >= cs.nch(t))
        c.each(n + ".child-parameters", SymInt(cs.nch(t)), lambda i: same(
            n + ".child-parameters", ps.at(i), cs.CP(t, full, i)))
        same(n + ".children", VSeq(to_content(r.children).items().segs),
             VSeq(DictContent([("map", cs.tr.keymap(t))]).items().segs))
        frame_clean(n + ".frame")
    case("transform_partial", partial)
