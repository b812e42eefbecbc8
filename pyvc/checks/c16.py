"""C16: a layout keeps constraints, primitives and parameters aligned.

The invariant: the constraint, primitive-key and parameter trees have one shape s (the same keys
in the same order at every level).  By the contract of add_child (C01) an addition at path p
succeeds exactly when addok(s, p), and then appends one entry; by C08 the key tree and the
parameter tree of a constraint have its shape.  So adding the same path, with a constraint and
its own two trees, to all three keeps the invariant, and anything else is not allowed.
"""
from __future__ import annotations

from .c10 import *
from ..core import Mut
from ..seq import map_abs

KINDS = (TypeError, KeyError, ValueError, RuntimeError, IndexError, AttributeError)


class Failure(Exception):
    """Any other exception."""


def may_raise(*kinds):
    """The callee may raise any of these."""
    i = ctx().choose(len(kinds) + 1)
    if i:
        failure = kinds[i - 1]("a callee fails")
        raise failure


class Changed:
    """The content of a node's children after an addition."""

    def __getattr__(self, name):
        raise Unsupported("a tree is used after it was changed")


class Layouts:
    """An arbitrary layout that satisfies the invariant."""

    def __init__(self, w):
        self.w = w
        self.K = Trees(w, None, w.con.PrimKeysNode, shp)
        self.P = Trees(w, None, w.con.ParamsNode, shp)
        self.cs = Cons(w, shp)
        self.tC, self.tK, self.tP, self.tR = (z3.Const(x, N) for x in ("rootC", "rootK", "rootP", "rootR"))
        self.s = z3.Const("s", N)
        it = w.it

        class Counter(w.cn.ItemCounter):
            def __getattr__(self, name):
                if name.startswith("__"):
                    raise AttributeError(name)
                raise Unsupported(f"{name} of the counter (known by its contract only)")
        self.Counter = Counter
        Rec(w, "containers:iter_flat", self.iter_flat)
        Rec(w, "containers:Node.get_child", self.get_child)
        Rec(w, "containers:Node.add_child", self.add_child)
        Rec(w, "containers:ItemCounter.add_item_to_nodes", self.new_key)
        CN = "constructions:ConstructionNode."

        def validate(o, v):
            term(o)
            may_raise(TypeError, Failure)
        Rec(w, CN + "validate_prims", validate)
        Rec(w, CN + "validate_params", validate)

        def tree(kind):
            def spec(o, X):
                may_raise(*KINDS, Failure)
                x = as_vseq(X, it)
                if x is None:
                    raise Unsupported("keys or parameters that are not a tuple")
                n = self.cs.spec_node(kind, term(o), VSeq(x.segs))
                n.__dict__["__pyvc_given__"] = X
                return ctx().made(n)
            return spec
        Rec(w, CN + "root_prim_keys", tree("K"))
        Rec(w, CN + "root_params", tree("P"))

    def trees(self):
        return ((self.tC, self.cs.tr), (self.tK, self.K), (self.tP, self.P), (self.tR, self.cs.prims))

    def owner(self, t):
        for u, tr in self.trees():
            if t.eq(u):
                return tr
        h = t
        while h.num_args():
            h = h.arg(0)
            for u, tr in self.trees():
                if h.eq(u):
                    return tr
        raise Unsupported("a node that is not part of the layout")

    def layout(self):
        c = ctx()
        for t in (self.tC, self.tK, self.tP):
            c.assume(shp(t) == self.s)
        c.assume(nch(self.s) >= 0)
        self.log = PyList()
        self.counter = object.__new__(self.Counter)
        roots = [tr.node(t) for t, tr in self.trees()]
        C, K, P, R = roots
        o = evaluate("C16.layout", self.w.it.call, self.w.layout.Layout, [R, C, K, P, self.counter], {})
        c.mutations.clear()
        c.born.clear()
        return o

    def shape(self, t):
        return t if t.eq(self.tR) else shp(t)

    def untouched(self, t):
        for u, _, _ in self.events():
            if u.eq(t):
                raise Unsupported("a tree is used after it was changed")

    def events(self):
        xs = self.log.state().concrete()
        if xs is None:
            raise Unsupported("a symbolic number of additions")
        return xs

    def add_child(self, node, key, child):
        c = ctx()
        t = term(node)
        p = SymStr.of(key).t
        if t.eq(self.tR) and c.store.get("primlog"):
            n = zint(self.log.state().length())
            if not c.branch(z3.Function("can_add", I, S, B)(n, p)):
                raise KeyError("cannot add")
            self.log.append((SymStr.of(key), child))
            return None
        self.owner(t)
        if not any(t.eq(u) for u, _ in self.trees()):
            raise Unsupported("an addition below a node of the layout")
        self.untouched(t)
        if not c.branch(addok(self.shape(t), p)):
            raise KeyError("cannot add")
        self.log.append((t, SymStr.of(key), child))
        # what the children are from now on is known by the contract only
        d = node.__dict__
        old = d["_children"]
        c.mutations.append(Mut(self.log, lambda: None, lambda _: d.__setitem__("_children", old)))
        d["_children"] = PyDict.sym(Changed())

    def get_child(self, node, key):
        c = ctx()
        t = term(node)
        if not isinstance(key, (str, SymStr)):
            raise Unsupported("get_child of a non-string")
        tr = self.owner(t)
        self.untouched(t)
        p = SymStr.of(key).t
        if not c.branch(ok(self.shape(t), p)):
            raise KeyError("path does not resolve")
        return tr.node(tgt(t, p))

    def new_key(self, counter, item, nodes):
        """C04: a path that resolves in none of the trees."""
        c = ctx()
        if counter is not self.counter:
            raise Unsupported("another counter")
        k = z3.String(c.fresh("generated"))
        c.store["generated"] = k
        for x in as_vseq(nodes, self.w.it).concrete():
            t = term(x)
            self.untouched(t)
            c.assume(z3.Not(ok(self.shape(t), k)))
        return SymStr.term(k)

    # ---- flattening
    def iter_flat(self, k, root):
        return VSeq([self.fl(k, term(root))], "iter")

    def fl(self, k, t):
        tr = self.owner(t)
        sh = self.shape(t)

        def unfold():
            m = tr.keymap(t)
            return VSeq([Unit((k, tr.node(t))), Join(SymInt(nch(sh)), lambda i: VSeq(
                [self.fl(SymStr.of(k) + "/" + m.key(i), tr.child(t, i))]))])

        def generic():
            # an arbitrary node of that tree
            if ctx().choose(2) == 0:
                return (k, tr.node(t))
            f = z3.Function("below", N, I, N)
            u = f(self.root_of(t), z3.Int(ctx().fresh("i")))
            return (SymStr.of(k) + "/" + SymStr.term(z3.String(ctx().fresh("path"))), tr.node(u))
        return Abs("fl", (k, t), unfold, nonempty=True, generic=generic)

    def root_of(self, t):
        return next(u for u, tr in self.trees() if tr is self.owner(t))


def prove(report, tier):
    w = World("layout")
    case = Cases(report, "C16", w)
    L = Layouts(w)
    cs = L.cs
    Layout = w.layout.Layout
    for x in ("add_constraint[key]", "add_constraint[empty key]", "add_constraint[no key]", "add_prim"):
        report.reach[f"C16.{x}.succeeds"] = False

    def roots(n, g):
        c = ctx()
        o = L.layout()
        for nm, (t, tr) in zip(("root_constraint", "root_prim_keys", "root_param", "root_prim"), L.trees()):
            c.prove(f"{n}.{nm}", getattr(o, nm) is tr.node(t))
        no_overrides(n, w, w.con.ConstructionNode, ("root_prim_keys", "root_params", "validate_prims",
                                                    "validate_params", "add_child", "get_child"))
    case("given-trees", roots)

    def empty(n, g):
        c = ctx()
        o = evaluate(n, Layout)
        p = evaluate(n, Layout)
        seen = []
        for x in (o, p):
            for nm, cls in (("root_constraint", w.con.ConstructionNode), ("root_prim_keys", w.con.PrimKeysNode),
                            ("root_param", w.con.ParamsNode), ("root_prim", w.pr.PrimitiveNode)):
                r = getattr(x, nm)
                c.prove(f"{n}.{nm}", isinstance(r, cls) and len(r.children) == 0
                        and not any(r is y or r.children is y.children for y in seen))
                seen.append(r)
    case("starts-empty-and-aligned", empty)

    def add(n, g, keyed):
        c = ctx()
        o = L.layout()
        con = cs.tr.node(z3.Const("added", N))
        m = z3.Int("number")
        c.assume(m >= 0)
        kf = z3.Function("prim_key", I, S)
        pk = VSeq([Tab(SymInt(m), lambda j: SymStr.term(kf(zint(j))))])
        P = cs.par()
        key = SymStr.term(z3.String("key")) if keyed == "key" else ""
        if keyed == "key":
            c.assume(key.t != "")
        args = [con, pk, P] + ([] if keyed == "default" else [key])
        r = attempt(o.add_constraint, *args)
        ev = L.events()
        roots = [tr.node(t) for t, tr in L.trees()]
        if isinstance(r, Raised):
            if ev:
                return c.fail(n + ".unchanged-on-error", f"{len(ev)} of 3 additions are made before {r.exc!r}"[:200])
            frame_clean(n + ".unchanged-on-error", 0, (L.counter, L.log))
            if keyed != "key" and isinstance(r.exc, KeyError) and "generated" in c.store:
                c.prove(n + ".unchanged-on-error", True)
            return
        c.cover(n + ".succeeds")
        frame_clean(n + ".nothing-else-changes", 0, (L.counter, L.log))
        c.prove(n + ".every-tree", len(ev) == 3)
        if len(ev) != 3:
            return
        by = {str(t): (k, x) for t, k, x in ev}
        if sorted(by) != sorted(map(str, (L.tC, L.tK, L.tP))):
            return c.fail(n + ".every-tree", f"additions to {sorted(by)}")
        want = key if keyed == "key" else SymStr.term(c.store["generated"]) if "generated" in c.store else None
        if want is None:
            return c.fail(n + ".generated-key", "no key is generated")
        for t in (L.tC, L.tK, L.tP):
            k, x = by[str(t)]
            same(n + (".key" if keyed == "key" else ".generated-key"), k, want)
        c.prove(n + ".constraint", by[str(L.tC)][1] is con)
        for nm, t, kind, X in (("primitive-keys", L.tK, "K", pk), ("parameters", L.tP, "P", P)):
            x = by[str(t)][1]
            h = getattr(x, "__dict__", {}).get("__pyvc_spec__")
            if h is None or h[0] != kind:
                return c.fail(f"{n}.{nm}", f"the tree added is a {type(x).__name__}")
            c.prove(f"{n}.{nm}", h[1] == term(con))
            same(f"{n}.{nm}", h[2], X)
            # same shape as the constraint: by construction of the key and parameter trees (C08)
            a = VSeq(to_content(x._children).keys().segs)
            same(f"{n}.{nm}.shape", a, VSeq([Tab(SymInt(cs.nch(term(con))), cs.tr.keymap(term(con)).key)]))
    for keyed in ("key", "", "default"):
        case({"key": "add_constraint[key]", "": "add_constraint[empty key]",
              "default": "add_constraint[no key]"}[keyed], lambda n, g, k=keyed: add(n, g, k))

    def add_prim(n, g):
        c = ctx()
        o = L.layout()
        p = cs.prims.node(z3.Const("new", N))
        key = SymStr.term(z3.String("key"))
        r = attempt(o.add_prim, p, key)
        ev = L.events()
        frame_clean(n + ".nothing-else-changes", 0, (L.log,))
        if isinstance(r, Raised):
            return c.prove(n + ".unchanged-on-error", len(ev) == 0)
        c.cover(n + ".succeeds")
        c.prove(n + ".added", len(ev) == 1 and ev[0][0].eq(L.tR) and ev[0][2] is p)
        for e in ev:
            same(n + ".key", e[1], key)
    case("add_prim", add_prim)

    def add_prims(n, g):
        c = ctx()
        c.store["primlog"] = True
        o = L.layout()
        d = z3.Const("prims", N)
        c.assume(nch(d) >= 0)
        tr = Trees(w, None, w.pr.PrimitiveNode)
        m = tr.keymap(d)
        D = PyDict.sym(DictContent([("map", m)]))
        c.born.clear()
        items = VSeq(DictContent([("map", m)]).items().segs)
        r = attempt(o.add_prims, D)
        log = L.log.state()
        k = log.length()
        can = z3.Function("can_add", I, S, B)
        frame_clean(n + ".nothing-else-changes", 0, (L.log,))
        c.prove(n + ".one-by-one", zint(k) <= nch(d))
        c.each(n + ".one-by-one", k if isinstance(k, SymInt) else SymInt(zint(k)), lambda i: same(
            n + ".one-by-one", log.at(i), items.at(i)))
        if isinstance(r, Raised):
            c.prove(n + ".up-to-the-first-failure", z3.And(
                zint(k) < nch(d), z3.Not(can(zint(k), keyf(d, zint(k))))))
        else:
            c.prove(n + ".all", zint(k) == nch(d))
    case("add_prims", add_prims)

    def flat(n, g):
        c = ctx()
        o = L.layout()
        r = as_vseq(evaluate(n, o.flat_constraints), w.it)
        xs = None if r is None else r.concrete()
        if xs is None or len(xs) != 3:
            return c.fail(n, "not three lists")

        def call(f):
            t = z3.Const("any", N)
            q = VSeq([cs.flat("K", "", t, cs.keys(t))])        # arbitrary primitives and parameters
            return w.it.call(f, [q, StarSeq(cs.par())], {})

        def want(t, f):
            u = L.fl("", t).unfold()
            return VSeq([Join(u.segs[1].n, lambda i: VSeq([map_abs(u.segs[1].f(i).segs[0], f)]))])

        def got(x):
            return VSeq(as_vseq(x, w.it).segs)
        probe_q = cs.pick(cs.prims.node(z3.Const("anyprim", N)), cs.keys(z3.Const("anycons", N)))
        probe_P = cs.par()

        def applied(f):
            return w.it.call(f, [probe_q, StarSeq(probe_P)], {})
        same(n + ".constraints", got(xs[0]).map(applied), want(
            L.tC, lambda x: Vec(term(x[1]), probe_q, probe_P, True)))
        same(n + ".primitive-keys", got(xs[1]), want(L.tK, lambda x: x[1].value))
        same(n + ".parameters", got(xs[2]), want(L.tP, lambda x: x[1].value))
        frame_clean(n + ".frame")
    w.it.models[jnp.atleast_1d] = lambda it, a, k: atleast_1d(a[0]) if len(a) == 1 else NotImplemented
    case("flat_constraints", flat)
