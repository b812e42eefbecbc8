"""C02: flattening a tree and rebuilding it are inverse, also as a JAX pytree."""
from .tree import *

METHODS = ("value", "children", "keys", "values", "items", "__len__", "__iter__", "from_tree",
           "_value", "_children", "__eq__", "__hash__", "__getattribute__", "__getattr__")


def prove_iter_flat(report, w, tr, prop):
    rec = iter_flat_contract(w, tr)
    case = Cases(report, prop, w)

    def body(n, g):
        c = ctx()
        root = tr.any()
        k = SymStr.term(z3.String("k"))
        with rec:
            r = evaluate(n, w.cn.iter_flat, k, root)
        v = as_vseq(r, w.it)
        if v is None:
            raise Unsupported("iter_flat returned something that is not a sequence")
        same(n, v, fl_unfold(tr, k, term(root)))
        frame_clean(n + ".frame")
    case("iter_flat", body)
    return rec


def prove_from_tree(report, w, prop):
    rec = from_tree_contract(w)
    case = Cases(report, prop, w)

    def body(n, g):
        for cls in all_subclasses(w.cn.Node):
            for sym in (False, True):
                v = Opaque(z3.Const("v", Opaque.Sort))
                d = PyDict()
                d["a"] = object.__new__(w.cn.Node)
                r = evaluate(n, cls.from_tree, v, d)
                if type(r) is not cls:
                    ctx().fail(n, f"{cls.__name__}.from_tree returned a {type(r).__name__}")
                    continue
                same(n, r.value, v)
                if r.children is not d:
                    same(n, r.children, d)
        no_overrides(n + ".overrides", w, w.cn.Node, METHODS)
    case("from_tree", body)
    return rec


def prove_unflatten(report, w, tr, prop):
    rec = unflatten_contract(w, tr, prop)
    case = Cases(report, prop, w)

    def body(n, g, after=None):
        c = ctx()
        # structures h of a tree t, followed by anything; h is any function of path and node
        # that keeps the child keys
        t = tr.any().__pyvc_term__
        T = z3.Function("h.type", S, N, SymType.Sort)
        V = z3.Function("h.value", S, N, Opaque.Sort)

        def h(x):
            k, nd = x
            kt = SymStr.of(k).t
            m = tr.keymap(term(nd))
            # as the list of the node's own keys
            return (k, SymType(T(z3.StringVal(""), term(nd)), w.cn.Node),
                    Opaque(V(z3.StringVal(""), term(nd))),
                    PyList.sym(VSeq([Tab(m.n, m.key)], "list")))
        k = SymStr.term(z3.String("k"))
        if after is None:
            rest = [Abs("rest", (), elem=lambda i: Opaque(z3.Function("rest", I, Opaque.Sort)(zint(i))))]
        else:
            # one more entry, whatever its key
            rest = [Unit((SymStr.term(z3.String("after")), w.cn.Node, 1, PyList([])))]
        s = VSeq([fl(tr, k, t)]).map(h)
        arg = PyList.sym(VSeq(s.segs + rest, "list"))
        c.born.pop(id(arg), None)
        mark = c.tick
        with rec:
            r = evaluate(n, w.cn.unflatten, arg)
        r = list(as_vseq(r, w.it).concrete() or ())
        if len(r) != 2:
            return c.fail(n, "does not return a pair")
        nd, left = r
        same(n + ".rest", as_vseq(left, w.it), VSeq(rest))
        check_built(n, w, tr, nd, Built(tr, (h,), t), mark)
        frame_clean(n + ".frame", mark)
    case("unflatten", body)
    case("unflatten[one more entry]", lambda n, g: body(n, g, 1))
    return rec


def check_built(n, w, tr, nd, b, mark):
    """nd is a new node with the class, value, keys and children of build(h, t)."""
    c = ctx()
    if nd.__dict__.get("__pyvc_built__") is not None:
        same(n + ".node", nd, built_node(tr, b))
        return
    if not isinstance(nd, w.cn.Node):
        return c.fail(n, "not a node")
    c.prove(n + ".fresh", c.is_fresh(nd, mark) and c.is_fresh(nd.children, mark))
    _, cls, value, keys = struct4(b.struct())
    got = pyvc_type(nd)
    if isinstance(got, SymType):
        c.prove(n + ".type", got == cls)
    else:
        c.prove(n + ".type", got is cls)
    same(n + ".value", nd.value, value)
    d = to_content(nd.children)
    same(n + ".keys", VSeq(d.keys().segs), VSeq(as_vseq(keys, w.it).segs))
    m = tr.keymap(b.t)
    want = VSeq([Tab(m.n, lambda i: built_node(tr, Built(tr, b.maps, childf(b.t, zint(i)))))])
    same(n + ".children", VSeq(d.values().segs), want)


def prove(report, tier):
    w = World("primitives")
    tr = Trees(w)
    prove_iter_flat(report, w, tr, "C02")
    prove_from_tree(report, w, "C02")
    prove_unflatten(report, w, tr, "C02")
    case = Cases(report, "C02", w)

    def flatten(n, g):
        c = ctx()
        root = tr.any()
        k = SymStr.term(z3.String("k"))
        r = evaluate(n, w.cn.flatten, k, root)

        def h(x):
            m = tr.keymap(term(x[1]))
            return (x[0], SymType(typf(term(x[1])), w.cn.Node), x[1].value,
                    PyList.sym(VSeq([Tab(m.n, m.key)], "list")))
        same(n, VSeq(as_vseq(r, w.it).segs), VSeq([fl(tr, k, term(root))]).map(h))
        frame_clean(n + ".frame")
    case("flatten", flatten)

    def round_trip(n, g):
        c = ctx()
        root = tr.any()
        t = term(root)
        k = SymStr.term(z3.String("k"))
        rest = Abs("rest", (), elem=lambda i: Opaque(z3.Function("rest", I, Opaque.Sort)(zint(i))))
        s = evaluate(n, w.cn.flatten, k, root)
        arg = PyList.sym(VSeq(as_vseq(s, w.it).segs + [rest], "list"))
        r = list(as_vseq(evaluate(n, w.cn.unflatten, arg), w.it).concrete() or ())
        if len(r) != 2:
            return c.fail(n, "does not return a pair")
        same(n + ".rest", as_vseq(r[1], w.it), VSeq([rest]))
        b = r[0].__dict__.get("__pyvc_built__")
        if b is None:
            raise Unsupported("result of unflatten")
        c.prove(n + ".same-tree", b.t == t)
        x = tr.any("sub")
        m = tr.keymap(term(x))
        _, cls, value, keys = struct4(b.struct(term(x)))
        c.prove(n + ".types", SymType(typf(term(x))) == cls)
        same(n + ".values", value, x.value)
        same(n + ".keys", VSeq(as_vseq(keys, w.it).segs), VSeq([Tab(m.n, m.key)]))
    case("round-trip", round_trip)
    pytree(report, w, tr, case)


def pytree(report, w, tr, case):
    """jax: flatten(x) gives (children, aux); the children are flattened recursively (tuples
    and lists in order, dictionaries sorted by key); unflatten(aux, children') rebuilds."""
    classes = all_subclasses(w.cn.Node)

    abstract = {w.pr.Primitive, w.pr.StaticPrimitive, w.pr.PrimitiveNode}

    def registered(n, g):
        for cls in classes:
            # an instance of a class that is not registered would be a leaf
            if cls not in abstract:
                ctx().prove(n, cls in w.it.pytrees)
    case("pytree.registered", registered)

    def jax_rebuild(n, x):
        """What jax passes to unflatten for the children x."""
        c = ctx()
        if isinstance(x, (Opaque, str, int, float)) or x is None:
            return x
        if isinstance(x, dict):
            c.fail(n, "children are passed in a dict, which jax sorts by key")
            raise Infeasible()
        if getattr(x, "__dict__", {}).get("__pyvc_term__") is not None:
            o = object.__new__(w.cn.Node)
            o.__dict__.update(__pyvc_copy__=term(x))
            return o
        s = as_vseq(x, w.it)
        if s is None:
            raise Unsupported(f"pytree child {type(x).__name__}")
        return VSeq(s.segs, "tuple").map(lambda y: jax_rebuild(n, y)).kindly(s.kind)

    for cls in classes:
        if cls not in w.it.pytrees:
            continue

        def body(n, g, cls=cls):
            c = ctx()
            flat, unflat = w.it.pytrees[cls]
            trc = Trees(w, cls=cls)
            x = trc.any()
            r = as_vseq(evaluate(n, w.it.call, flat, [x], {}), w.it).concrete()
            if r is None or len(r) != 2:
                return c.fail(n, "flatten does not return (children, aux)")
            kids, aux = r
            ks = as_vseq(kids, w.it)
            if ks is None:
                raise Unsupported("children of a pytree node")
            back = ks.map(lambda y: jax_rebuild(n, y))
            back = tuple(back.concrete()) if back.concrete() is not None else VSeq(back.segs)
            mark = c.tick
            nd = evaluate(n, w.it.call, unflat, [aux, back], {})
            if type(nd) is not cls:
                return c.fail(n, f"rebuilt as {type(nd).__name__}")
            same(n + ".value", nd.value, x.value)
            d = to_content(nd.children)
            m = trc.keymap(term(x))
            same(n + ".keys", VSeq(d.keys().segs), VSeq([Tab(m.n, m.key)]))

            def one(y):
                t = getattr(y, "__dict__", {}).get("__pyvc_copy__")
                return Ref(t)
            same(n + ".children", VSeq(d.values().segs).map(one),
                 VSeq([Tab(m.n, lambda i: Ref(childf(term(x), zint(i))))]))
            frame_clean(n + ".frame", 0)
        case(f"pytree[{cls.__name__}]", body)
    report.assumed.add("jax pytrees: registered functions are applied as documented; tuples and "
                       "lists of children keep their order")


class Ref:
    """The rebuilt child of a term."""
    __pyvc_sym__ = True

    def __init__(self, t):
        self.t = t

    def __pyvc_same__(self, name, o):
        if self.t is None or o.t is None:
            return ctx().fail(name, "not the rebuilt child")
        ctx().prove(name, self.t == o.t)
