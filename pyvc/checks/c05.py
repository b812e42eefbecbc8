"""C05: primitives exist only in the shape their signature declares."""
from .tree import *
from ..interp import StarSeq
from ..models import is_subclass, cls_term, subclass_pred
from ..strs import IntStr
from .world import internal


class SymArr:
    """An array of unknown shape: any number of dimensions, any extents."""
    __pyvc_sym__ = True

    def __init__(self, name="value"):
        c = ctx()
        nd, ext = z3.Int(name + ".ndim"), z3.Function(name + ".extent", I, I)
        c.assume(nd >= 0)

        def e(i):
            ctx().assume(ext(zint(i)) >= 0)
            return SymInt(ext(zint(i)))
        self.nd, self.ext = nd, ext
        self.shape = VSeq.tab(SymInt(nd), e)

    @property
    def __pyvc_type__(self):
        import numpy as np
        return np.ndarray

    @property
    def ndim(self):
        return SymInt(self.nd)

    @property
    def size(self):
        c = ctx()
        if c.branch(self.nd == 0):
            return 1
        if c.branch(self.nd == 1):
            return self.shape[0]
        if c.branch(self.nd == 2):
            return self.shape[0] * self.shape[1]
        raise Unsupported("size of an array of many dimensions")

    def __pyvc_len__(self):
        if ctx().branch(self.nd == 0):
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"attribute {name} of an array of unknown shape")

    def is_vector(self, m):
        return z3.And(self.nd == 1, self.ext(0) == zint(m))

    def __repr__(self):
        return "<array of unknown shape>"


def outcome(n, fn, *args, **kw):
    """(True, result) or (False, exception of the code under test)."""
    try:
        return True, fn(*args, **kw)
    except Exception as e:
        internal(e)
        return False, e


def subs(a, b):
    r = is_subclass(a, b)
    return r.t if isinstance(r, SymBool) else z3.BoolVal(bool(r))


def decide_all(n, ok, cond, gens, some=None):
    """Accepted => cond and every generic condition holds; rejected => one of them fails.

    gens: [(length, fn(i) -> z3 condition)]; some: (length, fn) of which one has to hold."""
    c = ctx()
    if ok:
        if some:
            k = z3.Int(c.fresh("good"))
            c.prove(n + ".accepts-only-valid", z3.Exists(
                [k], z3.And(k >= 0, k < zint(some[0]), some[1](SymInt(k)))))
        c.prove(n + ".accepts-only-valid", cond)
        for ln, f in gens:
            c.each(n + ".accepts-only-valid", ln,
                   lambda i: (c.inst(i), c.prove(n + ".accepts-only-valid", f(i))))
        return
    ors = [z3.Not(cond)]
    for ln, f in gens:
        k = z3.Int(c.fresh("bad"))
        ors.append(z3.Exists([k], z3.And(k >= 0, k < zint(ln), z3.Not(f(SymInt(k))))))
    if some:
        def none(k):
            c.inst(k)
            c.prove(n + ".rejects-only-invalid", z3.Or(z3.Not(some[1](k)), *ors))
        c.each(n + ".rejects-only-invalid", some[0], none)
        return
    c.prove(n + ".rejects-only-invalid", z3.Or(*ors))


def prims(tr, name, n, kind="list"):
    """n symbolic nodes of any classes."""
    f = z3.Function(name, I, N)
    v = VSeq.tab(n, lambda i: tr.node(f(zint(i))), kind)
    if kind == "list":
        v = PyList.sym(v)
        ctx().born.pop(id(v), None)
    return v, lambda i: SymType(typf(f(zint(i))), tr.Node)


def length(name):
    t = z3.Int(name)
    ctx().assume(t >= 0)
    return SymInt(t)


def prove(report, tier):
    w = World("primitives")
    tr = Trees(w)
    pr = w.pr
    case = Cases(report, "C05", w)

    def types_of(name, n, none=True):
        f, b = z3.Function(name, I, SymType.Sort), z3.Function(name + ".none", I, B)

        def t(i):
            if none and ctx().branch(b(zint(i))):
                return None
            return SymType(f(zint(i)))

        def fits(a, i):
            r = subs(a, SymType(f(zint(i))))
            return z3.If(b(zint(i)), subs(a, pr.PrimitiveNode), r) if none else r
        return VSeq.tab(n, t, "tuple"), fits

    def fixed(n, g):
        nt, np_ = length("types.len"), length("prims.len")
        ts, fits = types_of("types", nt)
        ps, cls = prims(tr, "prim", np_)
        ok, r = outcome(n, pr.validate_prims, ps, ts)
        decide_all(n, ok, np_.t == nt.t,
                   [(SymInt(z3.If(np_.t == nt.t, np_.t, 0)), lambda i: fits(cls(i), i))])
        if not ok:
            ctx().prove(n + ".raises-ValueError", isinstance(r, ValueError))
        frame_clean(n + ".frame")
    case("validate_prims.fixed", fixed)

    for u in (1, 2, 3):
        def rep(n, g, u=u):
            c = ctx()
            np_ = length("prims.len")
            f = [SymType(z3.Const(f"unit{i}", SymType.Sort)) for i in range(u)]
            ps, cls = prims(tr, "prim", np_)
            ok, r = outcome(n, pr.validate_prims, ps, tuple(f) + (Ellipsis,))

            def at(i):
                e = subs(cls(i), f[u - 1])
                for q in range(u - 1):
                    e = z3.If(i.t % u == q, subs(cls(i), f[q]), e)
                return e
            decide_all(n, ok, np_.t % u == 0,
                       [(SymInt(z3.If(np_.t % u == 0, np_.t, 0)), at)])
            if not ok:
                c.prove(n + ".raises-ValueError", isinstance(r, ValueError))
            frame_clean(n + ".frame")
        case(f"validate_prims.repeat{u}", rep)

    def repeat_any(n, g):
        # any number of types in the repeated unit (at least one)
        c = ctx()
        np_, u = length("prims.len"), length("unit.len")
        c.assume(u.t > 0)
        ts, fits = types_of("unit", u)
        ps, cls = prims(tr, "prim", np_)
        ok, r = outcome(n, pr.validate_prims, ps, ts + (Ellipsis,))
        decide_all(n, ok, np_.t % u.t == 0,
                   [(SymInt(z3.If(np_.t % u.t == 0, np_.t, 0)), lambda i: fits(cls(i), SymInt(i.t % u.t)))])
        if not ok:
            c.prove(n + ".raises-ValueError", isinstance(r, ValueError))
        frame_clean(n + ".frame")
    case("validate_prims.repeat-any", repeat_any)

    # ---- PrimitiveNode.__init__ ---------------------------------------------------
    match = z3.Function("matches", I, B)      # the children match alternative i

    class Alt:
        """An opaque tuple of primitive types (alternative i of a signature)."""
        __pyvc_sym__ = True
        __pyvc_type__ = tuple

        def __init__(self, i):
            self.i = i

    def vp_spec(ps, alt):
        c = ctx()
        if not isinstance(alt, Alt):
            return NotImplemented
        want = c.store.get("children")
        same("C05.PrimitiveNode.children-checked", VSeq(as_vseq(ps, w.it).segs), VSeq(want.segs))
        if c.branch(match(zint(alt.i))):
            return None
        raise ValueError("does not match")
    vp = Rec(w, "primitives:validate_prims", vp_spec)
    w.it.contracts.pop(vp.label)

    class Contract:
        def __enter__(self):
            w.it.contracts[vp.label] = vp

        def __exit__(self, *a):
            w.it.contracts.pop(vp.label, None)

    class SetOf(VSeq):
        __pyvc_type__ = set

    def children(n):
        """A dictionary of any nodes under any distinct keys, and its items."""
        c = ctx()
        kids, f = z3.Int("children.len"), z3.Function("kid", I, N)
        c.assume(kids >= 0)
        kf = z3.Function("kidkey", I, S)
        m = KeyMap(SymInt(kids), lambda i: SymStr.term(kf(zint(i))),
                   lambda i: tr.node(f(zint(i))), "children",
                   z3.Function("children.has", S, B), z3.Function("children.idx", S, I))
        d = PyDict.sym(DictContent([("map", m)]))
        c.born.pop(id(d), None)
        return d, m, lambda i: subs(SymType(typf(f(zint(i))), tr.Node), pr.PrimitiveNode)

    def init(alts):
        def body(n, g):
            c = ctx()
            size = length("param_size")
            if alts == "tuple":
                sig, na = Alt(0), SymInt(z3.IntVal(1))
            else:
                na = length("alternatives")
                sig = SetOf([Tab(na, Alt)], "set")
            K = type("K", (pr.PrimitiveNode,), {"signature": (size, sig)})
            val = SymArr() if c.choose(2) else Opaque(z3.Const("v", Opaque.Sort))
            if isinstance(val, Opaque):
                c.assume(z3.Not(subs(val.__pyvc_type__, __import__("numpy").ndarray)))
            d, m, isprim = children(n)
            c.store["children"] = VSeq([Tab(m.n, m.value)])
            with Contract():
                ok, r = outcome(n, w.it.call, K, [val, d], {})
                shape = val.is_vector(size) if isinstance(val, SymArr) else z3.BoolVal(False)
                decide_all(n, ok, shape, [(m.n, isprim)],
                           (na, lambda i: match(zint(i))))
            if ok:
                if type(r) is not K:
                    c.fail(n + ".class", "another class")
                c.prove(n + ".value", r.value is val)
                same(n + ".keys", VSeq(to_content(r.children).keys().segs), VSeq([Tab(m.n, m.key)]))
                same(n + ".children", VSeq(to_content(r.children).values().segs),
                     VSeq([Tab(m.n, m.value)]))
            frame_clean(n + ".frame")
        return body
    case("PrimitiveNode.tuple", init("tuple"))
    case("PrimitiveNode.alternatives", init("set"))

    # ---- Primitive.__init__ ---------------------------------------------------------
    def primitive(n, g):
        """Any initialiser of children (distinct keys), any value: the node gets exactly them."""
        c = ctx()
        import numpy as np
        nk, np_ = length("keys.len"), length("child.len")
        kf = z3.Function("childkey", I, S)
        given = c.choose(2)                   # prims given / default
        vsel = c.choose(5)                    # None, array, list, tuple, something else
        size = length("param_size")
        seen = []
        m = KeyMap(nk, lambda i: SymStr.term(kf(zint(i))), None, "childkeys",
                   z3.Function("childkeys.has", S, B), z3.Function("childkeys.idx", S, I))
        ps, _ = prims(tr, "child", np_, "tuple")
        par, _ = prims(tr, "par", length("par.len"), "tuple")
        dflt, _ = prims(tr, "dflt", length("dflt.len"), "tuple")
        default = SymArr()

        def init_children(cls, prims, **kw):
            seen.append(prims)
            return VSeq.tab(nk, m.key), ps
        sig = (size, Alt(0))
        K = type("K", (pr.Primitive,), {
            "signature": sig, "init_children": classmethod(init_children),
            "default_value": classmethod(lambda cls, **kw: default),
            "default_prims": classmethod(lambda cls, **kw: dflt)})
        v = (None, SymArr(), [0.0, 1.0], (), Opaque(z3.Const("v", Opaque.Sort)))[vsel]
        if vsel == 4:
            c.assume(z3.Not(v.__pyvc_is__(None).t))
            c.assume(z3.Not(z3.Or(*[subs(v.__pyvc_type__, k) for k in (
                list, tuple, np.ndarray, __import__("jax").numpy.ndarray)])))
        c.store["children"] = ps
        with Contract():
            ok, r = outcome(n, w.it.call, K, [v, par] if given else [v], {})
        shape = {0: default.is_vector(size), 1: default.is_vector(size), 2: size.t == 2,
                 3: size.t == 0, 4: z3.BoolVal(False)}[vsel]
        cf = z3.Function("child", I, N)
        decide_all(n, ok, z3.And(shape, nk.t == np_.t, match(0)),
                   [(np_, lambda i: subs(SymType(typf(cf(zint(i))), tr.Node), pr.PrimitiveNode))])
        if vsel == 1 and ok:
            c.prove(n + ".value", r.value is v)
        if vsel == 0 and ok:
            c.prove(n + ".default-value", r.value is default)
        if vsel in (2, 3) and ok:
            x = r.value
            c.prove(n + ".value", isinstance(x, np.ndarray) and
                    [float(q) for q in x] == list(v))
        if ok:
            if len(seen) != 1:
                c.fail(n + ".init_children", "called more than once")
            same(n + ".parameterizing", VSeq(as_vseq(seen[0]).segs),
                 VSeq((par if given else dflt).segs))
            d = to_content(r.children)
            same(n + ".keys", VSeq(d.keys().segs), VSeq([Tab(nk, m.key)]))
            same(n + ".children", VSeq(d.values().segs), VSeq(ps.segs))
        frame_clean(n + ".frame")
    case("Primitive", primitive)

    # ---- shipped primitives -----------------------------------------------------------
    def up(i, cls, f):
        """Instances of a class are instances of its bases."""
        t = SymType(typf(f(zint(i))), tr.Node)
        ctx().assume(z3.Implies(subs(t, cls), subs(t, pr.PrimitiveNode)))

    def typed(name, n, cls, kind):
        """n nodes whose classes are known to respect the base classes of cls."""
        f = z3.Function(name, I, N)

        def at(i):
            up(i, cls, f)
            return tr.node(f(zint(i)))
        v = VSeq.tab(n, at, kind)
        if kind == "list":
            v = PyList.sym(v)
            ctx().born.pop(id(v), None)
        return v, (lambda i: subs(SymType(typf(f(zint(i))), tr.Node), cls)), at

    def point(n, g):
        c = ctx()
        v = SymArr()
        ok, r = outcome(n, w.it.call, pr.Point, [v], {})
        decide_all(n, ok, v.is_vector(2), [])
        if ok:
            c.prove(n + ".value", r.value is v)
            c.prove(n + ".no-children", len(r.children) == 0 and type(r) is pr.Point)
        ok, r = outcome(n, w.it.call, pr.Point, [], {})
        c.prove(n + ".default", ok and r.value.shape == (2,) and len(r.children) == 0)
        frame_clean(n + ".frame")
    case("Point", point)

    def line(n, g):
        c = ctx()
        kind = ("list", "tuple")[c.choose(2)]
        np_ = length("points")
        ps, good, at = typed("point", np_, pr.Point, kind)
        v = SymArr() if c.choose(2) else None
        ok, r = outcome(n, w.it.call, pr.Line, [v, ps], {})
        decide_all(n, ok, z3.And(np_.t == 2, v.is_vector(0) if v else z3.BoolVal(True)),
                   [(SymInt(z3.If(np_.t == 2, np_.t, 0)), good)])
        if ok:
            c.prove(n + ".keys", list(r.children.keys()) == ["Point0", "Point1"])
            ends = list(r.children.values())
            c.prove(n + ".ends", len(ends) == 2 and ends[0] is at(0) and ends[1] is at(1))
            c.prove(n + ".class", type(r) is pr.Line)
        frame_clean(n + ".frame")
    case("Line", line)

    def check_polygon(n, r, np_, at, cls):
        """r has np_ edges, edge i from point i to point i+1, wrapping around."""
        c = ctx()
        d = to_content(r.children)
        if type(r) is not cls:
            c.fail(n + ".class", "another class")
        same(n + ".keys", VSeq(d.keys().segs),
             VSeq([Tab(np_, lambda i: SymStr.term(z3.simplify(SymStr(["Line", IntStr(zint(i))]).t)) )]))
        edges = VSeq(d.values().segs)

        def edge(i):
            e = edges[i]
            if type(e) is not pr.Line:
                return c.fail(n + ".edges", f"an edge is a {type(e).__name__}")
            if e.value.shape != (0,) or list(e.children.keys()) != ["Point0", "Point1"]:
                return c.fail(n + ".edges", "a malformed edge")
            a, b = list(e.children.values())
            nxt = 0 if c.branch(i.t + 1 == np_.t) else i + 1
            want = at(i), at(nxt)
            for x, y in zip((a, b), want):
                same(n + ".edges", x, y)
                c.prove(n + ".shared-vertices", x is y or c.entails(term(x) == term(y)))
        c.each(n + ".edges", np_, edge)

    def polygon(n, g):
        c = ctx()
        kind = ("list", "tuple")[c.choose(2)]
        np_ = length("points")
        ps, good, at = typed("point", np_, pr.Point, kind)
        v = SymArr() if c.choose(2) else None
        ok, r = outcome(n, w.it.call, pr.Polygon, [v, ps], {})
        decide_all(n, ok, v.is_vector(0) if v else z3.BoolVal(True), [(np_, good)])
        if ok:
            check_polygon(n, r, np_, at, pr.Polygon)
        frame_clean(n + ".frame")
    case("Polygon", polygon)

    def quad(n, g):
        c = ctx()
        kind, v = (("list", None), ("tuple", None), ("list", SymArr()))[c.choose(3)]
        np_ = length("points")
        ps, good, at = typed("point", np_, pr.Point, kind)
        ok, r = outcome(n, w.it.call, pr.Quadrilateral, [v, ps], {})
        decide_all(n, ok, z3.And(np_.t == 4, v.is_vector(0) if v else z3.BoolVal(True)),
                   [(SymInt(z3.If(np_.t == 4, np_.t, 0)), good)])
        if ok:
            check_polygon(n, r, np_, at, pr.Quadrilateral)
        frame_clean(n + ".frame")
    case("Quadrilateral", quad)

    def axes_keys(xaxis, yaxis, twinx, twiny):
        ks = ["Frame"]
        for on, k in ((xaxis, "XAxis"), (yaxis, "YAxis"), (xaxis and twinx, "TwinXAxis"),
                      (yaxis and twiny, "TwinYAxis")):
            ks += [k, k + "Label"] if on else []
        return ks

    def axes(flags):
        kw = dict(zip(("xaxis", "yaxis", "twinx", "twiny"), flags))
        keys = axes_keys(**kw)
        classes = [pr.Point if k.endswith("Label") else pr.Quadrilateral for k in keys]

        def given(n, g):
            c = ctx()
            kind, v = (("list", None), ("tuple", None), ("tuple", SymArr()))[c.choose(3)]
            np_ = length("prims")
            f = z3.Function("child", I, N)

            def at(i):
                up(i, pr.Point, f)
                up(i, pr.Quadrilateral, f)
                return tr.node(f(zint(i)))
            ps = VSeq.tab(np_, at, kind)
            if kind == "list":
                ps = PyList.sym(ps)
                c.born.pop(id(ps), None)
            ok, r = outcome(n, w.it.call, pr.Axes, [v, ps], kw)
            good = [subs(SymType(typf(f(z3.IntVal(i))), tr.Node), k) for i, k in enumerate(classes)]
            for i in range(9):
                at(i)
            valid = z3.And(np_.t == len(keys), v.is_vector(0) if v else z3.BoolVal(True), *good)
            c.prove(n + (".accepts-only-valid" if ok else ".rejects-only-invalid"),
                    valid if ok else z3.Not(valid))
            if ok:
                d = to_content(r.children)
                same(n + ".keys", VSeq(d.keys().segs), VSeq.of(keys))
                same(n + ".children", VSeq(d.values().segs),
                     VSeq.of([at(i) for i in range(len(keys))]))
                c.prove(n + ".class", type(r) is pr.Axes)
            frame_clean(n + ".frame")

        def default(n, g):
            c = ctx()
            r = evaluate(n, w.it.call, pr.Axes, [], kw)
            c.prove(n + ".keys", list(r.children.keys()) == keys)
            kids = list(r.children.values())
            c.prove(n + ".classes", [type(k) for k in kids] == classes)
            c.prove(n + ".distinct", len({id(k) for k in kids}) == len(kids))
        tag = "".join("xyXY"[i] if b else "-" for i, b in enumerate(flags))
        case(f"Axes[{tag}].given", given)
        case(f"Axes[{tag}].default", default)
    import itertools
    for flags in itertools.product((False, True), repeat=4):
        axes(flags)

    def overrides(n, g):
        no_overrides(n, w, pr.PrimitiveNode, ("__setattr__", "__new__", "__getattribute__", "value", "children"))
    case("overrides", overrides)
