"""C04: generated keys are fresh and never reused."""
from .paths import *
from ..core import ctx
from ..strs import IntStr


class StrPred:
    """An arbitrary pure predicate on strings."""
    __pyvc_sym__ = True

    def __init__(self, name):
        self.f = z3.Function(name, S, B)

    def __call__(self, k):
        return SymBool(self.f(SymStr.of(k).t))


class Category:
    """An arbitrary pure function from items to strings."""
    __pyvc_sym__ = True
    f = z3.Function("category", Opaque.Sort, S)

    def __call__(self, x):
        return SymStr.term(self.f(x.t))


def counter(w, tag="counts"):
    """A counter in an arbitrary state: any number of categories with any counts."""
    c = ctx()
    o = w.cn.ItemCounter(Category())
    ds = [k for k, v in o.__dict__.items() if isinstance(v, PyDict) and not v]
    if len(ds) != 1:
        raise Unsupported("the counter does not keep its counts in one dictionary")
    n = z3.Int(tag + ".n")
    kf, vf = z3.Function(tag + ".key", I, S), z3.Function(tag + ".count", I, I)
    c.assume(n >= 0)

    def value(i):
        c = ctx()
        v = vf(zint(i))
        c.assume(v >= 0)
        return SymInt(v)
    m = KeyMap(SymInt(n), lambda i: SymStr.term(kf(zint(i))), value, tag,
               z3.Function(tag + ".has", S, B), z3.Function(tag + ".idx", S, I))
    d = PyDict.sym(DictContent([("map", m)]))
    c.born.pop(id(d), None)
    o.__dict__[ds[0]] = d
    c.born.pop(id(o), None)
    c.mutations.clear()
    return o


def item(name):
    return Opaque(z3.Const(name, Opaque.Sort))


def number(name, key, x):
    """The number that follows the category of item x in `key`."""
    if isinstance(key, SymStr) and len(key.ps) == 2 and isinstance(key.ps[1], IntStr) \
            and not isinstance(key.ps[0], (str, IntStr)):
        ctx().prove(name, key.ps[0].t == Category.f(x.t))
        return key.ps[1].n
    if isinstance(key, SymStr) and len(key.ps) == 2 and isinstance(key.ps[1], str) \
            and key.ps[1].isdigit():
        ctx().prove(name, key.ps[0].t == Category.f(x.t))
        return z3.IntVal(int(key.ps[1]))
    ctx().fail(name, f"the key {key!r} is not a category followed by a number")
    raise Infeasible()


def next_number(name, w, x):
    """The number the next key of item x's category gets in the arbitrary state."""
    c = ctx()
    twin = counter(w)
    r = evaluate(name, twin.add_item, x)
    n = number(name, r, x)
    c.mutations.clear()
    return n


def numbered(x, n):
    return SymStr([*SymStr.term(Category.f(x.t)).ps, IntStr(n)])


def only(name, o):
    """Only the counter's own dictionary (or the counter itself) was changed."""
    c = ctx()
    own = [o] + [v for v in o.__dict__.values()]
    for m in c.mutations:
        if not c.is_fresh(m.obj, 0) and not any(m.obj is a for a in own):
            return c.fail(name, f"changes an existing {type(m.obj).__name__}")
    c.prove(name, True)


def until_valid_contract(w):
    """Key number m >= a (a: the next number), valid at m, invalid at a..m-1; the counts of the
    counter are consumed up to and including m."""
    def spec(self, x, valid):
        c = ctx()
        if not isinstance(x, Opaque):
            return NotImplemented
        if c.store.get("used"):
            raise Unsupported("a second key from a counter under contract")
        c.store["used"] = True
        it = w.it
        nm = len(c.mutations)
        a = next_number("C04.until_valid.contract", w, x)
        m = z3.Int(c.fresh("m"))
        c.assume(m >= a)
        key = numbered(x, m)
        c.store["range"] = (a, m)

        def holds(k, want):
            if it.truth(it.call(valid, [k], {})) != want:
                raise Infeasible()
        holds(key, True)
        c.hyp(SymInt(m - a), lambda j: holds(numbered(x, z3.simplify(a + zint(j))), False))
        if len(c.mutations) != nm and any(not c.is_fresh(u.obj, 0) for u in c.mutations):
            c.fail("C04.add_item_to_nodes.frame", "the condition changes something")
        return key
    return Rec(w, "containers:ItemCounter.add_item_until_valid", spec)


def prove(report, tier):
    w = World("constraints")
    tr = Trees(w)
    case = Cases(report, "C04", w)
    prove_lemmas(report, w, "C04")
    get = prove_get_child(report, w, tr, "C04")

    def first(n, g):
        c = ctx()
        x = item("x")
        o = w.cn.ItemCounter(Category())
        k = evaluate(n, o.add_item, x)
        c.prove(n + ".starts-at-0", number(n, k, x) == 0)
    case("add_item.first", first)

    def step(n, g):
        c = ctx()
        x, y = item("x"), item("y")
        c.assume(Category.f(x.t) == Category.f(y.t))
        a = next_number(n, w, x)
        o = counter(w)
        k = evaluate(n, o.add_item, x)
        c.prove(n + ".deterministic", number(n, k, x) == a)
        k2 = evaluate(n, o.add_item, y)
        c.prove(n + ".counts-by-one", number(n, k2, y) == number(n, k, x) + 1)
        c.prove(n + ".non-negative", number(n, k, x) >= 0)
        # the keys differ, hence (by induction over additions) no key is ever repeated
        e = k == k2
        c.prove(n + ".fresh", z3.Not(e.t) if isinstance(e, SymBool) else z3.BoolVal(not e))
        only(n + ".frame", o)
    case("add_item.step", step)

    def other(n, g):
        c = ctx()
        x, y = item("x"), item("y")
        c.assume(Category.f(x.t) != Category.f(y.t))
        a = next_number(n, w, y)
        o = counter(w)
        evaluate(n, o.add_item, x)
        k = evaluate(n, o.add_item, y)
        c.prove(n + ".untouched", number(n, k, y) == a)
    case("add_item.other-category", other)

    def klass(n, g):
        c = ctx()
        f = w.cn.ItemCounter.categorize_by_classname
        for k in (w.cn.Node, w.pr.Point, w.cr.Box):
            r = evaluate(n, f, object.__new__(k))
            if r != k.__name__:
                c.fail(n, f"category of a {k.__name__} is {r!r}")
        t = tr.any("item")
        r = evaluate(n, f, t)
        same(n, r, pyvc_type(t).__name__)
        o = w.cn.ItemCounter()
        k = evaluate(n, o.add_item, object.__new__(w.cr.Box))
        if k != "Box0":
            c.fail(n, f"first key of a Box is {k!r}")
        c.prove(n, True)
    case("category", klass)

    rec = until_valid_contract(w)

    def until(n, g):
        c = ctx()
        x = item("x")
        a = next_number(n, w, x)
        o = counter(w)
        V = StrPred("valid")
        with rec:
            k = evaluate(n, o.add_item_until_valid, x, V)
        m = number(n + ".form", k, x)
        c.prove(n + ".valid", V.f(SymStr.of(k).t))
        c.under(n + ".progress", [m >= a + 2], lambda: c.cover("C04: a key after the second one tried"))
        c.prove(n + ".range", m >= a)
        only(n + ".frame", o)
        # everything before it in counting order is invalid
        t0 = z3.Int(c.fresh("before"))

        def earlier():
            i = z3.simplify(t0 - a)
            for d in (0, -1, 1):
                c.inst(SymInt(z3.simplify(i + d)), split=True)
            c.prove(n + ".first-valid", z3.Not(V.f(numbered(x, t0).t)))
        c.under(n + ".first-valid", [t0 >= a, t0 < m], earlier)
        y, u = item("y"), item("u")
        b = next_number(n, w, u)
        c.assume(Category.f(x.t) == Category.f(y.t))
        c.assume(Category.f(u.t) != Category.f(x.t))
        k3 = evaluate(n, o.add_item, u)
        c.prove(n + ".other-category", number(n, k3, u) == b)
        k2 = evaluate(n, o.add_item, y)
        c.prove(n + ".consumed", number(n, k2, y) == m + 1)
    case("add_item_until_valid", until)

    def nodes(n, g):
        c = ctx()
        x = item("x")
        a = next_number(n, w, x)
        o = counter(w)
        cnt = z3.Int("trees")
        c.assume(cnt >= 0)
        nf = z3.Function("tree", I, N)
        from ..interp import StarSeq
        vs = VSeq.tab(SymInt(cnt), lambda i: tr.node(nf(zint(i))))
        fn = type(o).add_item_to_nodes
        k = evaluate(n, lambda: w.it.call(fn, [o, x, StarSeq(vs)], {}))
        m = number(n + ".form", k, x)
        c.prove(n + ".range", m >= a)
        only(n + ".frame", o)
        q = z3.Int(c.fresh("q"))

        def unused():
            c.inst(SymInt(q))
            c.prove(n + ".unused", z3.Not(ok(nf(q), SymStr.of(k).t)))
        c.under(n + ".unused", [q >= 0, q < cnt], unused)
        t0 = z3.Int(c.fresh("before"))

        def earlier():
            i = z3.simplify(t0 - a)
            for d in (0, -1, 1):
                c.inst(SymInt(z3.simplify(i + d)), split=True)
            r = z3.Int(c.fresh("r"))
            c.prove(n + ".first-unused", z3.Exists(
                [r], z3.And(r >= 0, r < cnt, ok(nf(r), numbered(x, t0).t))))
        c.under(n + ".first-unused", [t0 >= a, t0 < m], earlier)
    case("add_item_to_nodes", nodes)
    report.assumed.add("the category function and the validity condition are pure functions of their argument")
