"""C03: map, copy, accumulate and height of trees; none of them changes its input."""
from .tree import *
from .c02 import prove_iter_flat, prove_from_tree, prove_unflatten, check_built, METHODS
from ..models import OpaqueFn, m_reduce, extremum, Opaque
from ..scal import mkint

H = z3.Function("height", N, I)
A = z3.Function("accumulated", N, Opaque.Sort)


def mapped(tr, f):
    """The structure of the mapped tree at (path, node)."""
    def h(x):
        m = tr.keymap(term(x[1]))
        return (x[0], tr.w.cn.Node, f(x[1].value), PyList.sym(VSeq([Tab(m.n, m.key)], "list")))
    return h


def check_mapped(n, w, tr, r, t, f, mark):
    """r is a new tree with the keys of t and, at every node, the value f(value)."""
    c = ctx()
    b = r.__dict__.get("__pyvc_built__") if isinstance(r, w.cn.Node) else None
    if b is not None:
        c.prove(n + ".same-tree", b.t == t)
        c.prove(n + ".fresh", c.is_fresh(r, mark))
        x = tr.any("sub")
        m = tr.keymap(term(x))
        _, cls, value, keys = struct4(b.struct(term(x)))
        same(n + ".values", value, f(x.value))
        same(n + ".keys", VSeq(as_vseq(keys, w.it).segs), VSeq([Tab(m.n, m.key)]))
        return
    check_node(n, w, tr, r, t, f(tr.node(t).value), mark,
               lambda u: built_node(tr, Built(tr, (mapped(tr, f),), u)))


def check_node(n, w, tr, r, t, value, mark, child):
    """r is a new node with the given value and the children child(...) under the keys of t."""
    c = ctx()
    if not isinstance(r, w.cn.Node) or r.__dict__.get("__pyvc_term__") is not None:
        return c.fail(n, "not a new node")
    c.prove(n + ".fresh", c.is_fresh(r, mark) and c.is_fresh(r.children, mark))
    same(n + ".values", r.value, value)
    m = tr.keymap(t)
    d = to_content(r.children)
    same(n + ".keys", VSeq(d.keys().segs), VSeq([Tab(m.n, m.key)]))
    same(n + ".children", VSeq(d.values().segs), VSeq([Tab(m.n, lambda i: child(childf(t, zint(i))))]))


def map_contract(w, tr):
    def spec(function, node):
        t = term(node)
        return built_node(tr, Built(tr, (mapped(tr, lambda v: w.it.call(function, [v], {})),), t))
    return Rec(w, "containers:map", spec)


def prove_map(report, w, tr, prop):
    case = Cases(report, prop, w)
    rec = map_contract(w, tr)

    def body(n, g):
        c = ctx()
        root = tr.any()
        mark = c.tick
        f = OpaqueFn("f")
        with rec:
            r = evaluate(n, w.cn.map, f, root)
        check_mapped(n, w, tr, r, term(root), f, mark)
        frame_clean(n + ".frame", mark)
    case("map", body)
    return rec


def prove_copy(report, w, tr, prop):
    case = Cases(report, prop, w)

    def body(n, g):
        c = ctx()
        root = tr.any()
        mark = c.tick
        r = evaluate(n, root.copy)
        check_mapped(n, w, tr, r, term(root), lambda v: v, mark)
        frame_clean(n + ".frame", mark)
        no_overrides(n + ".overrides", w, w.cn.Node, ("copy",))
    case("copy", body)


def accumulated(tr):
    def h(x):
        m = tr.keymap(term(x[1]))
        return (x[0], tr.w.cn.Node, Opaque(A(term(x[1]))), PyList.sym(VSeq([Tab(m.n, m.key)], "list")))
    return h


def prove_accumulate(report, w, tr, prop):
    case = Cases(report, prop, w)
    h = accumulated(tr)
    f, init = OpaqueFn("f"), Opaque(z3.Const("initial", Opaque.Sort))

    def spec(function, node, initial):
        # the same function and initial value in the whole recursion
        if function is not f or initial is not init:
            raise Unsupported("accumulate is called with another function or initial value")
        return built_node(tr, Built(tr, (h,), term(node)))
    rec = Rec(w, "containers:accumulate", spec)

    def body(n, g):
        c = ctx()
        root = tr.any()
        t = term(root)
        mark = c.tick
        with rec:
            r = evaluate(n, w.cn.accumulate, f, root, init)
        if c.branch(nch(t) == 0):
            want = f(root.value, init)
        else:
            kids = VSeq([Unit(root.value), Tab(SymInt(nch(t)), lambda i: Opaque(A(childf(t, zint(i)))))])
            want = m_reduce(w.it, [f, kids], {})
        check_node(n, w, tr, r, t, want, mark, lambda u: built_node(tr, Built(tr, (h,), u)))
        frame_clean(n + ".frame", mark)
    case("accumulate", body)
    return rec


def height_contract(w):
    def spec(node):
        ctx().assume(H(term(node)) >= 0)
        return SymInt(H(term(node)))
    return Rec(w, "containers:Node.node_height", spec)


def prove_height(report, w, tr, prop):
    case = Cases(report, prop, w)
    rec = height_contract(w)

    def body(n, g):
        c = ctx()
        root = tr.any()
        t = term(root)
        with rec:
            r = evaluate(n, root.node_height)
        if not isinstance(r, (int, SymInt)):
            return c.fail(n, f"{type(r).__name__} is not a number of edges")
        if c.branch(nch(t) == 0):
            c.prove(n + ".leaf", zint(r) == 0)
        else:
            m = extremum("max", VSeq([Tab(SymInt(nch(t)), lambda i: SymInt(H(childf(t, zint(i)))))]))
            for k in c.store.get("witnesses", []):
                c.inst(k)
            c.prove(n + ".above", zint(r) >= 1 + m.t)
            c.prove(n + ".below", zint(r) <= 1 + m.t)
        c.prove(n + ".non-negative", z3.Implies(_children_nonneg(t), zint(r) >= 0))
        frame_clean(n + ".frame", 0)
        no_overrides(n + ".overrides", w, w.cn.Node, ("node_height",))
    case("node_height", body)
    return rec


def _children_nonneg(t):
    j = z3.Int("j")
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nch(t)), H(childf(t, j)) >= 0))


def prove(report, tier):
    w = World("constraints")
    tr = Trees(w)
    prove_iter_flat(report, w, tr, "C03")
    prove_from_tree(report, w, "C03")
    prove_unflatten(report, w, tr, "C03")
    prove_map(report, w, tr, "C03")
    prove_copy(report, w, tr, "C03")
    prove_accumulate(report, w, tr, "C03")
    prove_height(report, w, tr, "C03")
