"""C11: mapped constructions and value constraints split their arguments correctly."""
from __future__ import annotations

from .c10 import *


def prove_map(report, w, cs, case):
    con = w.con

    def body(n, g):
        c = ctx()
        o = cs.tr.any("item")
        t = term(o)
        N_ = z3.Int("N")
        c.assume(z3.And(N_ >= 0, nargs(t) >= 1, npar(t) >= 0))
        c.store["fold_hints"] = [lambda i: SymInt(zint(i) * npar(t))]
        types = PyList.sym(VSeq([Tab(SymInt(N_), lambda i: SymType(z3.Function(
            "mapped_type", I, SymType.Sort)(zint(i)), w.pr.Primitive))], "list"))
        c.born.pop(id(types), None)
        r = evaluate(n, con.transform_map, o, types)
        M, np_ = nargs(t) - 1, npar(t)
        num_ = z3.If(N_ > M, N_ - M, 0)
        keys = VSeq(as_vseq(evaluate(n + ".number", r.keys), w.it).segs)
        c.prove(n + ".number", zint(keys.length()) == num_)
        # every child is the construction itself, in order
        kids = to_content(r.children).values()
        c.prove(n + ".number", zint(kids.length()) == num_)
        c.each(n + ".items", SymInt(num_), lambda i: same(n + ".items", kids.at(i), o))
        # the primitives of item i: the i-th, then the last M
        f = z3.Function("path", I, S)
        K = VSeq([Tab(SymInt(N_), lambda j: SymStr.term(f(zint(j))))])
        ks = VSeq(as_vseq(evaluate(n + ".primitives", r.child_prim_keys, K), w.it).segs)
        c.prove(n + ".primitives", zint(ks.length()) == num_)
        c.each(n + ".primitives", SymInt(num_), lambda i: same(n + ".primitives", ks.at(i), VSeq(
            [Unit(SymStr.term(f(zint(i)))), Tab(SymInt(M), lambda j: SymStr.term(f(N_ - M + zint(j))))])))
        # the parameters of item i: its own slice
        p = z3.Function("param", I, z3.RealSort())
        P = VSeq([Tab(SymInt(num_ * np_), lambda j: SymReal(p(zint(j))))])
        ps = as_vseq(evaluate(n + ".parameters", r.child_params, P), w.it)
        ps = VSeq(ps.segs)
        c.prove(n + ".parameters", zint(ps.length()) == num_)
        c.each(n + ".parameters", SymInt(num_), lambda i: same(n + ".parameters", ps.at(i), VSeq(
            [Tab(SymInt(np_), lambda j: SymReal(p(zint(i) * np_ + zint(j))))])))
        sig = r.value.signature
        c.prove(n + ".number-of-parameters", zint(as_vseq(sig.param_types, w.it).length()) == num_ * np_)

        def own():
            c.assume(N_ >= M)
            c.prove(n + ".number-of-primitives", zint(as_vseq(sig.prim_types, w.it).length()) == N_)
        c.under(n + ".number-of-primitives", [], own)
        v = evaluate(n + ".own-value", w.it.call, r.assem, [VSeq([]), StarSeq(P)], {})
        c.prove(n + ".own-value", isinstance(v, np.ndarray) and v.shape == (0,))
        same(n + ".value-size", sig.value_size, 0)
        frame_clean(n + ".frame")
    case("transform_map", body)


totf = z3.Function("total_size", N, I)
offf = z3.Function("offset", N, I, I)
lvf = z3.Function("vector_of", N, N)


def definitions(s, i):
    """total(s) = size(s) + offset(s, n);  offset(s, 0) = 0;
    offset(s, i + 1) = offset(s, i) + total(child i)."""
    c = ctx()
    i = zint(i)
    c.assume(z3.And(vsize(s) >= 0, nch(s) >= 0, offf(s, 0) == 0,
                    totf(s) == vsize(s) + offf(s, nch(s))))
    c.assume(z3.Implies(z3.And(i >= 0, i < nch(s)),
                        offf(s, i + 1) == offf(s, i) + totf(childf(s, i))))


def off(s, i):
    """The offset with the facts of the lemma `offsets`."""
    c = ctx()
    definitions(s, i)
    i = zint(i)
    c.assume(z3.Implies(z3.And(i >= 0, i < nch(s)), totf(childf(s, i)) >= 0))
    c.assume(z3.Implies(z3.And(i >= 0, i <= nch(s)), z3.And(0 <= offf(s, i), offf(s, i) <= offf(s, nch(s)))))
    return SymInt(offf(s, i))


class SymVec:
    """A one-dimensional array of symbolic length."""
    __pyvc_sym__ = True
    __pyvc_type__ = np.ndarray
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, seq):
        self.seq = VSeq(seq.segs)

    shape = property(lambda self: (self.seq.length(),))
    size = property(lambda self: self.seq.length())

    def __pyvc_seq__(self):
        return self.seq

    def __pyvc_len__(self):
        return self.seq.length()

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = as_vseq(self.seq[i])
            return SymVec(r)
        return self.seq[i]

    def __mul__(self, k):
        if isinstance(k, np.ndarray) and k.ndim == 0:
            k = k[()]
        if isinstance(k, np.generic):
            k = k.item()
        if isinstance(k, (int, float, SymInt, SymReal)):
            k = SymReal(SymReal.lift(k))
            return SymVec(self.seq.map(lambda x: k * x))
        return NotImplemented

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __pyvc_same__(self, name, o):
        if not isinstance(o, SymVec):
            return ctx().fail(name, f"a vector against {type(o).__name__}")
        same(name, self.seq, o.seq)


def vector(n, f):
    return SymVec(VSeq([Tab(n if isinstance(n, SymInt) else SymInt(n), f)]))


def array_models(w):
    def const(default):
        def run(interp, args, kw):
            if not args or not isinstance(args[0], SymInt) or set(kw) - {"dtype"}:
                return NotImplemented
            x = default if default is not None else args[1]
            return vector(args[0], lambda i: SymReal(SymReal.lift(x)))
        return run

    def same_array(interp, args, kw):
        return args[0] if len(args) == 1 and not kw and isinstance(args[0], SymVec) else NotImplemented
    import jax.numpy as jnp_
    for m in (np, jnp_):
        w.it.models[m.ones] = const(1.0)
        w.it.models[m.zeros] = const(0.0)
        w.it.models[m.full] = const(None)
        w.it.models[m.asarray] = same_array


def prove_offsets(report, w, case):
    def lemma(n, g):
        c = ctx()
        s = z3.Const("s", N)
        i, k = z3.Ints("i k")
        c.assume(z3.And(0 <= i, i < nch(s), i <= k, k < nch(s)))
        for x in (i, k):
            definitions(s, x)
            # induction over the tree
            c.assume(totf(childf(s, x)) >= 0)
        c.prove(n + ".not-negative", z3.Implies(offf(s, i) >= 0, offf(s, i + 1) >= 0))
        c.prove(n + ".increasing.start", offf(s, i) <= offf(s, i))
        c.prove(n + ".increasing.step", z3.Implies(offf(s, i) <= offf(s, k), offf(s, i) <= offf(s, k + 1)))
        c.prove(n + ".total", z3.Implies(offf(s, nch(s)) >= 0, totf(s) >= 0))
    case("offsets", lemma)

    def cover(n, g):
        """The chunks of a vector, one after the other, are the vector."""
        c = ctx()
        s = z3.Const("s", N)
        f = z3.Function("v", I, z3.RealSort())
        off(s, 0)
        off(s, nch(s))

        def part(a, b):
            return VSeq([Tab(SymInt(b - a), lambda j: SymReal(f(a + zint(j))))])
        z = vsize(s)
        same(n + ".start", part(z3.IntVal(0), z), part(z3.IntVal(0), z + offf(s, 0)))

        def step(i):
            i = zint(i)
            off(s, i)
            off(s, i + 1)
            same(n + ".step", part(z3.IntVal(0), z + offf(s, i)).concat(
                part(z + offf(s, i), z + offf(s, i + 1))), part(z3.IntVal(0), z + offf(s, i + 1)))
        c.each(n + ".step", SymInt(nch(s)), step)
        c.prove(n + ".end", z + offf(s, nch(s)) == totf(s))
    case("chunks-cover-the-vector", cover)


def prove_chunk(w, case):
    con = w.con

    def body(n, g):
        c = ctx()
        m, L = z3.Ints("m L")
        sz = z3.Function("chunk_size", I, I)
        o = z3.Function("start", I, I)
        f = z3.Function("a", I, z3.RealSort())
        c.assume(z3.And(m >= 0, o(0) == 0, o(m) <= L, L >= 0))

        def start(i):
            i = zint(i)
            # sizes are not negative (the lemma `offsets` for arbitrary sizes)
            ctx().assume(z3.Implies(z3.And(i >= 0, i < m), z3.And(
                sz(i) >= 0, o(i + 1) == o(i) + sz(i))))
            ctx().assume(z3.Implies(z3.And(i >= 0, i <= m), z3.And(o(i) >= 0, o(i) <= o(m))))
            return SymInt(o(i))
        c.store["fold_hints"] = [start]

        def size(i):
            start(i)
            start(i + 1)
            return SymInt(sz(zint(i)))
        sizes = VSeq([Tab(SymInt(m), size)])
        array = vector(L, lambda i: SymReal(f(zint(i))))
        with rec:
            x = evaluate(n, con.chunk, array, sizes)
        r = as_vseq(x, w.it)
        if r is None:
            r = VSeq.of(evaluate(n, lambda: list(w.it.iterate(x))))
        r = VSeq(r.segs)
        c.prove(n + ".number", zint(r.length()) == m)

        def one(i):
            start(i)
            start(i + 1)
            i = zint(i)
            same(n + ".chunk", r.at(SymInt(i)), vector(SymInt(sz(i)), lambda j: SymReal(f(o(i) + zint(j)))))
        c.each(n + ".chunk", SymInt(m), one)

    def spec(array, sizes):
        s = as_vseq(sizes, w.it)
        if not isinstance(array, SymVec) or s is None or len(s.segs) != 1 or not isinstance(s.segs[0], Tab):
            return NotImplemented
        g = s.segs[0]
        i = z3.Int(ctx().fresh("i"))
        x = g.f(SymInt(i))
        t = x.t if isinstance(x, SymInt) else None
        if t is None or t.decl() != totf or t.arg(0).decl() != childf or not t.arg(0).arg(1).eq(i):
            return NotImplemented
        p = t.arg(0).arg(0)
        if not ctx().entails(zint(g.n) == nch(p)):
            return NotImplemented

        def piece(i):
            a, b = off(p, i), off(p, i + 1)
            return array[a:b]
        return VSeq([Tab(g.n, piece)], "iter")
    rec = Rec(w, "constructions:chunk", spec)
    case("chunk", body)


def prove_accumulate(w, case, sz, tt):
    def spec(function, node, initial):
        t = node.__dict__.get("__pyvc_term__")
        c = ctx()
        if t is None or not isinstance(initial, int) or initial != 0:
            raise Unsupported("accumulate of something else")
        a, b = SymInt(z3.Int(c.fresh("a"))), SymInt(z3.Int(c.fresh("b")))
        r = w.it.call(function, [a, b], {})
        if not isinstance(r, SymInt) or not c.entails(r.t == a.t + b.t):
            raise Unsupported("accumulate with something else than addition")
        return tt.node(t)
    rec = Rec(w, "containers:accumulate", spec)

    def body(n, g):
        c = ctx()
        s = z3.Const("s", N)
        off(s, 0)
        off(s, nch(s))
        c.store["fold_hints"] = [lambda i: SymInt(vsize(s) + off(s, i).t)]
        with rec:
            r = evaluate(n, w.cn.accumulate, lambda x, y: x + y, sz.node(s), 0)
        same(n + ".value", r.value, SymInt(totf(s)))
        m = DictContent([("map", tt.keymap(s))])
        same(n + ".children", VSeq(to_content(r._children).items().segs), VSeq(m.items().segs))
        frame_clean(n + ".frame")
    case("accumulate-sizes", body)


def prove_vector(w, case, sz):
    con = w.con
    LV = con.LocalVector
    skip = [0]

    def construct(interp, args, kw):
        if skip[0]:
            skip[0] -= 1
            return NotImplemented
        size = kw.get("size_node", args[0] if args else None)
        s = getattr(size, "__dict__", {}).get("__pyvc_term__")
        if len(args) + len(kw) != 1 or s is None:
            return NotImplemented
        return local_vector(w, s)
    w.it.models[LV] = construct

    def body(n, g):
        c = ctx()
        s = z3.Const("s", N)
        off(s, 0)
        off(s, nch(s))
        c.assume(vsize(s) >= 0)
        skip[0] = 1
        try:
            o = evaluate(n, w.it.call, LV, [sz.node(s)], {})
        finally:
            skip[0] = 0
        c.prove(n + ".class", isinstance(o, LV))
        same(n + ".keys", VSeq(as_vseq(evaluate(n, o.keys), w.it).segs), VSeq([Tab(
            SymInt(nch(s)), lambda i: SymStr.term(keyf(s, zint(i))))]))
        kids = to_content(o.children).values()
        c.prove(n + ".children", zint(kids.length()) == nch(s))

        def kid(i):
            x = kids.at(i)
            t = x.__dict__.get("__pyvc_term__")
            if t is None:
                return c.fail(n + ".children", f"child is a {type(x).__name__}")
            c.prove(n + ".children", t == lvf(childf(s, zint(i))))
        c.each(n + ".children", SymInt(nch(s)), kid)
        ks = VSeq(as_vseq(evaluate(n, o.child_prim_keys, ()), w.it).segs)
        same(n + ".child-primitives", ks, VSeq([Tab(SymInt(nch(s)), lambda i: VSeq([]))]))
        sig = o.value.signature
        same(n + ".primitive-types", as_vseq(sig.prim_types, w.it), VSeq([]))
        c.prove(n + ".number-of-parameters", zint(as_vseq(sig.param_types, w.it).length()) == 1)
        same(n + ".value-size", sig.value_size, SymInt(vsize(s)))
        f = z3.Function("v", I, z3.RealSort())
        v = vector(totf(s), lambda i: SymReal(f(zint(i))))
        own = evaluate(n + ".own-chunk", w.it.call, o.assem, [(), v], {})
        same(n + ".own-chunk", own, vector(vsize(s), lambda i: SymReal(f(zint(i)))))

        def chunks(name, value, want):
            ps = VSeq(as_vseq(evaluate(name, w.it.call, o.child_params, [(value,)], {}), w.it).segs)
            c.prove(name, zint(ps.length()) == nch(s))

            def one(i):
                a = off(s, i)
                off(s, i + 1)
                same(name, as_vseq(ps.at(i)), VSeq([Unit(vector(totf(childf(s, zint(i))), want(a.t)))]))
            c.each(name, SymInt(nch(s)), one)
        chunks(n + ".chunks", v, lambda a: lambda j: SymReal(f(vsize(s) + a + zint(j))))
        nums = [("real", SymReal(z3.Real("x"))), ("integer", SymInt(z3.Int("k"))), ("int", 3), ("float", 0.5),
                ("np.float64", np.float64(0.25)), ("np.int64", np.int64(2)), ("np.float32", np.float32(1.5)),
                ("array", np.array(2.0))]
        for tag, x in nums:
            y = SymReal(SymReal.lift(x.item() if hasattr(x, "item") else x))
            own = evaluate(n + f".own-number[{tag}]", w.it.call, o.assem, [(), x], {})
            ok = not isinstance(own, SymVec) and np.ndim(own) == 0
            c.prove(n + f".own-number[{tag}]", ok)
            if ok:
                same(n + f".own-number[{tag}]", SymReal(SymReal.lift(
                    own.item() if hasattr(own, "item") else own)), y)
            chunks(n + f".number[{tag}]", x, lambda a: lambda j: y)
        frame_clean(n + ".frame")
    case("LocalVector", body)


def local_vector(w, s):
    o = object.__new__(w.con.LocalVector)
    sig = w.con.ConstructionSignature((), (np.ndarray,), SymInt(vsize(s)))
    o.__dict__.update(_value=w.con.ConstructionValue((), lambda p: (), sig), _children={},
                      __pyvc_term__=lvf(s), __pyvc_shape__=s)
    return ctx().made(o)


class Made:
    """The result of an operation on constructions."""

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b


def prove_constraint(w, case, cs, sz):
    con, CN = w.con, w.con.ConstructionNode

    def shape_of(x):
        d = x.__dict__
        if "__pyvc_made__" in d:
            return shape_of(d["__pyvc_made__"].a)
        if "__pyvc_shape__" in d:
            return d["__pyvc_shape__"]
        return shp(term(x))

    def made(op, a, b):
        o = object.__new__(CN)
        o.__dict__["__pyvc_made__"] = Made(op, a, b)
        return ctx().made(o)

    def mine(x):
        return isinstance(x, CN) and ({"__pyvc_made__", "__pyvc_term__"} & set(x.__dict__))

    def mul(x, k):
        return made("*", x, k) if mine(x) and not isinstance(k, CN) else NotImplemented

    def add(x, y):
        if not (mine(x) and mine(y)):
            return NotImplemented
        # precondition of C10: trees of equal keys and sizes
        ctx().prove("C11.transform_constraint.equal-shapes", shape_of(x) == shape_of(y))
        return made("+", x, y)

    def mapped(function, root):
        t = term(root)
        c = ctx()
        u = z3.Const(c.fresh("node"), N)

        def value():
            r = w.it.call(function, [cs.tr.node(u).value], {})
            same("C11.transform_constraint.sizes", r, SymInt(vsize(shp(u))))
        c.under("C11.transform_constraint.sizes", [], value)
        return sz.node(shp(t))
    Rec(w, "containers:map", mapped)
    Rec(w, "constructions:transform_scalar_mul", mul)
    Rec(w, "constructions:transform_sum", add)

    def body(n, g):
        c = ctx()
        o = cs.tr.any("cons")
        t = term(o)
        r = evaluate(n, con.transform_constraint, o)
        d = r.__dict__.get("__pyvc_made__") if isinstance(r, CN) else None
        if d is None:
            raise Unsupported("a constraint that is not made by construction arithmetic")
        c.prove(n + ".sum", d.op == "+" and d.a is o)
        e = d.b.__dict__.get("__pyvc_made__") if d.op == "+" else None
        if e is None or e.op != "*":
            return c.fail(n + ".minus", "the target is not multiplied by -1")
        same(n + ".minus", SymReal(SymReal.lift(e.b)), SymReal(SymReal.lift(-1)))
        if not isinstance(e.a, con.LocalVector):
            return c.fail(n + ".target", f"the target is a {type(e.a).__name__}")
        c.prove(n + ".target", term(e.a) == lvf(shp(t)))
        frame_clean(n + ".frame")
    case("transform_constraint", body)


def prove_sizes(report):
    """Every construction of the package gives a local vector of the size that it declares (what
    the splitting of vector targets relies on)."""
    from . import world
    from .c15 import axes_prim
    w = World("constraints")
    case = Cases(report, "C11", w)
    con, pr = w.con, w.pr

    def prim(g, t):
        if issubclass(t, pr.Axes):
            return axes_prim(g)[0]
        for k, f in ((pr.Quadrilateral, g.quad), (pr.Line, g.line), (pr.Point, g.point)):
            if issubclass(k, t):
                return f()[0]
        raise Unsupported(f"a primitive of type {t}")

    def check(n, g, o, target):
        c = ctx()
        sig = o.value.signature
        ps = tuple(prim(g, t) for t in sig.prim_types)
        pars = []
        for i, t in enumerate(sig.param_types):
            if t is np.ndarray:
                # the direction, or the target of a constraint
                pars.append(g.real("target") if target and i + 1 == len(sig.param_types)
                            else world.vec(g.real("d.x"), g.real("d.y")))
            elif t is bool:
                pars.append(c.choose(2) == 1)
            elif t is float:
                pars.append(g.real("number"))
            else:
                pars.append(None)
        v = evaluate(n, o.assem, ps, *pars)
        c.prove(n, int(np.size(v)) == sig.value_size)
        for k in o.children.values():
            check(n, g, k, target)

    sides = ("bottom", "top", "left", "right")
    forms = [{}] + [{"side": x} for x in sides] + [{"shape": 3, "side": "left"}, {"shape": (2, 3)}] + \
        [{"axis": x} for x in "xy"] + [{"dim": x} for x in ("width", "height")] + [{"twin": True}]
    for m in (con, w.cr):
        for name in sorted(vars(m)):
            cls = vars(m)[name]
            if not (isinstance(cls, type) and issubclass(cls, con.ConstructionNode)) or name[0] == "_" \
                    or cls.__module__ != m.__name__:
                continue
            if cls in (con.ConstructionNode, con.Vector, con.LocalVector):
                continue

            def body(n, g, cls=cls, m=m):
                k = ctx().choose(len(forms))
                try:
                    o = cls(**forms[k])
                except Exception as e:
                    internal(e)
                    raise Infeasible()
                check(n, g, o, m is w.cr)
            case(f"declared-size.{m.__name__.split('.')[-1]}.{name}", body)


def prove(report, tier):
    w = World("constructions")
    case = Cases(report, "C11", w)
    cs = Cons(w, shp)
    prove_map(report, w, cs, case)
    array_models(w)
    sz = Trees(w, lambda s: SymInt(vsize(s)))
    tt = Trees(w, lambda s: SymInt(totf(s)))
    prove_offsets(report, w, case)
    prove_chunk(w, case)
    prove_accumulate(w, case, sz, tt)
    prove_vector(w, case, sz)
    prove_constraint(w, case, cs, sz)
    prove_sizes(report)
