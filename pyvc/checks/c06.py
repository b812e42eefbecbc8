"""C06: unique parameter vectors of a primitive tree are extracted and rebuilt without loss.

Extraction walks the flattened tree, an opaque sequence of (path, node), and keeps a state.  Its
specification is the first-appearance numbering of the vectors: `rank(v)` is the number of
distinct vectors that appear before the first appearance of v, `U(m)` the vector of rank m and
`count` the number of distinct vectors; they are defined by recursion over the sequence.  The
loop invariant gives every list, dictionary and counter of the loop either as a function of the
numbering so far (`Numbered`) or as one that gains an entry per element.
"""
from __future__ import annotations

from .paths import *
from .c02 import prove_iter_flat, prove_from_tree, prove_unflatten
from ..loops import MapLoop, Stepped, flat_abs, apply_maps
from ..scal import mkbool

rank = z3.Function("rank", Opaque.Sort, I)
U = z3.Function("of_rank", I, Opaque.Sort)
count = z3.Int("count")


class Ident(Opaque):
    """An object known by its identity."""

    def __pyvc_id__(self):
        return IdOf(self.t)


class IdOf:
    """id() of an object that stays alive: equal exactly for the same object."""
    __pyvc_sym__ = True
    __pyvc_type__ = int
    __hash__ = None

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, IdOf):
            return mkbool(self.t == o.t)
        raise Unsupported("an id compared with something else")

    def __ne__(self, o):
        return ~(self == o) if isinstance(self == o, SymBool) else not self == o

    def __pyvc_same__(self, name, o):
        if not isinstance(o, IdOf):
            return ctx().fail(name, f"an id against {type(o).__name__}")
        ctx().prove(name, self.t == o.t)


class IdMap(KeyMap):
    """Entries m < cnt with key id(U(m)) and value form(m): the vectors `seen` so far."""

    def __init__(self, cnt, seen, form):
        self.n = SymInt(cnt)
        self.seen, self.form = seen, form
        self.name = "numbered"
        self.over = ()

    def key(self, i):
        return IdOf(U(zint(i)))
    _key = key

    def value(self, i):
        return self.form(zint(i))

    def find(self, k):
        if not isinstance(k, IdOf):
            raise Unsupported("an entry of a dictionary of ids is looked up by something else")
        c = ctx()
        if not c.branch(self.seen(k.t)):
            return None
        m = rank(k.t)
        c.assume(z3.And(m >= 0, m < zint(self.n), U(m) == k.t))
        return SymInt(m)

    def override(self, i, v):
        raise Unsupported("an entry of a dictionary of ids is replaced")


FORMS = {"id": lambda m: IdOf(U(m)), "vector": lambda m: Ident(U(m)), "rank": lambda m: SymInt(m)}


def form_of(x):
    """How an entry for the vector of rank 0 is written, in terms of the rank."""
    if isinstance(x, IdOf):
        return FORMS["id"]
    if isinstance(x, Ident):
        return FORMS["vector"]
    if isinstance(x, int) and not isinstance(x, bool) and x == 0:
        return FORMS["rank"]
    if isinstance(x, tuple):
        fs = [form_of(y) for y in x]
        if all(fs):
            return lambda m: tuple(f(m) for f in fs)
    return None


class Numbered(Stepped):
    """A list, dictionary or counter that gains an entry when a vector first appears."""

    def __init__(self, loop, kind, v0, form, obj):
        self.loop, self.kind, self.v0, self.form, self.obj = loop, kind, v0, form, obj

    def at(self, i):
        if isinstance(i, int) and i == 0:
            return self.v0
        return self.make(self.loop.cnt, self.loop.seen)

    def make(self, cnt, seen):
        if self.kind == "count":
            return SymInt(cnt)
        if self.kind == "dict":
            d = DictContent([("map", IdMap(cnt, seen, self.form))])
            return PyDict.sym(d) if self.obj == "value" else d
        v = VSeq([Tab(SymInt(cnt), lambda m: self.form(zint(m)))], "list")
        return PyList.sym(v) if self.obj == "value" else v

    def step(self, before, after):
        """`after` has one more entry exactly when the vector is new."""
        c = ctx()
        loop = self.loop
        new = not c.branch(loop.seen(loop.vec))
        m = SymInt(loop.cnt)
        if self.kind == "count":
            return same("invariant", after, m + 1 if new else m)
        parts, old = ((x.parts if isinstance(x, DictContent) else to_content(x).parts)
                      if self.kind == "dict" else (x if isinstance(x, VSeq) else as_vseq(x)).segs
                      for x in (after, before))
        if len(parts) != len(old) + new or not all(
                p is q or p == q for p, q in zip(parts, old)):
            return c.fail("invariant", "not one new entry for a new vector")
        if new:
            e = parts[-1]
            if self.kind == "dict":
                if e[0] != "kv":
                    return c.fail("invariant", "not one new entry for a new vector")
                same("invariant", e[1], FORMS["id"](loop.cnt))
                same("invariant", e[2], self.form(loop.cnt))
            else:
                if not isinstance(e, Unit):
                    return c.fail("invariant", "not one new entry for a new vector")
                same("invariant", e.x, self.form(loop.cnt))


class NumberingLoop(MapLoop):
    """Loop over the flattened tree whose state is a function of the numbering."""

    def __init__(self, interp, fr, s, g, vec_of, pick):
        self.base = g.info.get("base", g)
        self.view = g
        super().__init__(interp, fr, s, self.base)
        if self.root is not self.base:
            raise Unsupported("numbering of a nested sequence")
        self.vec_of, self.pick = vec_of, pick
        self.asked = 0
        self.before()

    def before(self):
        """The numbering before some element."""
        c = ctx()
        self.seen = z3.Function(c.fresh("seen"), Opaque.Sort, B)
        self.cnt = z3.Int(c.fresh("distinct_so_far"))

    def enter(self, x):
        hold = super().enter(x), self.seen, self.cnt, getattr(self, "vec", None)
        self.before()
        return hold

    def leave(self, hold):
        cur, self.seen, self.cnt, self.vec = hold
        super().leave(cur)

    def begin(self, i):
        x = self.draw() if self.cur is None else self.cur[0]
        c = ctx()
        v = self.vec = self.vec_of(x)
        # the definition of the numbering at this element
        r = rank(v)
        c.assume(self.cnt >= 0)
        c.assume(z3.If(self.seen(v), z3.And(r >= 0, r < self.cnt, U(r) == v),
                       z3.And(r == self.cnt, U(r) == v)))
        if not self.templates:
            # the first element: nothing appeared before
            c.assume(self.cnt == 0)
            c.assume(z3.Not(self.seen(v)))
        self.interp.assign(self.target, apply_maps(x, self.view), self.fr)

    def put(self, j):
        if self.cur is None and not (isinstance(j, int) and j == 0) and any(
                isinstance(t, Numbered) for t in self.templates):
            self.cur = (self.draw(),)
        super().put(j)

    def choose(self):
        """Numbered, or one entry per element: decided by the search over the choices."""
        k = self.asked
        self.asked += 1
        if k >= len(self.pick):
            self.pick.append(True)
        return self.pick[k]

    def guess(self, probes):
        self.asked = 0
        super().guess(probes)

    def template(self, k, cell, v0, v1s, obj):
        from ..loops import _unset, Poison
        if v0 is _unset or isinstance(v0, Poison):
            return super().template(k, cell, v0, v1s, obj)
        if isinstance(v0, int) and not isinstance(v0, bool):
            if v0 == 0 and all(isinstance(x, int) and x == 1 for x in v1s) and self.choose():
                return Numbered(self, "count", v0, FORMS["rank"], obj)
        elif isinstance(v0, (DictContent, PyDict)):
            ps = [(x if isinstance(x, DictContent) else to_content(x)).parts for x in [v0] + v1s]
            if not ps[0] and all(len(p) == 1 and p[0][0] == "kv" and isinstance(p[0][1], IdOf)
                                 for p in ps[1:]):
                fs = form_of(ps[1][0][2])
                if fs is not None:
                    return Numbered(self, "dict", v0, fs, obj)
        else:
            ss = [x if isinstance(x, VSeq) else as_vseq(x) for x in [v0] + v1s]
            if all(s is not None for s in ss) and not ss[0].segs and all(
                    len(s.segs) == 1 and isinstance(s.segs[0], Unit) for s in ss[1:]):
                fs = form_of(ss[1].segs[0].x)
                if fs is not None and self.choose():
                    return Numbered(self, "list", v0, fs, obj)
        return super().template(k, cell, v0, v1s, obj)

    def finish(self):
        super().finish()
        c = ctx()
        c.assume(count >= 0)
        seen = z3.Function("appears", Opaque.Sort, B)
        for cell, t in zip(self.cells, self.templates):
            if isinstance(t, Numbered):
                cell.set(t.make(count, seen))


def numbering(vec_of):
    """Handler of loops over an opaque sequence whose elements have the vector vec_of(x)."""
    def handler(interp, fr, s, g):
        pick = []
        first = None
        for _ in range(16):
            n0 = len(ctx().mutations)
            try:
                return NumberingLoop(interp, fr, s, g, vec_of, pick).run()
            except Unsupported as e:
                first = first or e
            # the next combination
            while pick and not pick[-1]:
                pick.pop()
            if not pick:
                raise first
            pick[-1] = False
        raise first
    return handler


def exact_fl(tr, t):
    """The flattened tree under the path "": the root, and every node at a path that resolves."""
    c = ctx()
    memo = c.store.setdefault("exact_fl", {})
    if t.sexpr() in memo:
        return memo[t.sexpr()]
    a = fl(tr, "", t)

    def generic():
        c = ctx()
        if c.choose(2) == 0:
            return ("", tr.node(t))
        rel = z3.String(c.fresh("rel"))
        c.assume(ok(t, rel))
        c.assume(rel != "")
        return ("/" + SymStr.term(rel), tr.node(tgt(t, rel)))

    def distinct(x, y):
        return SymStr.of(x[0]).t != SymStr.of(y[0]).t
    a.info.update(generic=generic, distinct=distinct, exact=True)
    memo = dict(memo)
    memo[t.sexpr()] = a
    c.store["exact_fl"] = memo
    return a


def vector_of(x):
    return valf(term(x[1]))


def prove_extract(report, w, tr, case):
    def body(n, g):
        c = ctx()
        root = tr.any("root")
        t = term(root)
        r = evaluate(n, w.pr.filter_unique_values_from_prim, root)
        r = as_vseq(r, w.it)
        r = None if r is None else r.concrete()
        if r is None or len(r) != 2:
            return c.fail(n, "does not return a pair")
        index, values = r
        if not isinstance(index, dict):
            return c.fail(n + ".index", f"returns {type(index).__name__}, not a dictionary")
        want = flat_abs(exact_fl(tr, t), lambda x: VSeq.unit((x[0], SymInt(rank(vector_of(x))))))
        same(n + ".index", VSeq(to_content(index).items().segs), VSeq([want]))
        vs = as_vseq(values, w.it)
        if vs is None:
            raise Unsupported("the list of vectors")
        same(n + ".vectors", VSeq(vs.segs), VSeq([Tab(SymInt(count), lambda m: Ident(U(zint(m))))]))
        frame_clean(n + ".frame")
    case("extract", body)


class Index(dict):
    """A mapping from every path to the index of its vector (kept symbolic)."""
    __pyvc_sym__ = True

    def __init__(self, n):
        self.n = n

    def _at(self, k):
        if not isinstance(k, (str, SymStr)):
            raise Unsupported("a vector index looked up by something that is not a path")
        m = z3.Function("index", S, I)(SymStr.of(k).t)
        ctx().assume(z3.And(m >= 0, m < zint(self.n)))
        return SymInt(m)

    def __getitem__(self, k):
        return self._at(k)

    def get(self, k, default=None):
        return self._at(k)

    def __contains__(self, k):
        raise Unsupported("membership in the mapping of vectors")

    def _no(self, *a):
        raise Unsupported("iteration over the mapping of vectors")
    __iter__ = __len__ = items = keys = values = pop = __setitem__ = __delitem__ = update = _no
    __pyvc_len__ = __pyvc_truth__ = setdefault = _no
    __hash__ = None


class Build:
    """Contract of build_prim_from_unique_values(flat, index, vectors) for flat = flatten(k, t):
    the tree of the same types, keys and order in which path p holds vectors[index[p]]."""

    def __init__(self, tr, t, index, vectors):
        self.tr, self.t, self.index, self.vectors = tr, t, index, vectors


def prove_build(report, w, tr, case):
    def body(n, g):
        c = ctx()
        root = tr.any("root")
        t = term(root)
        nv = z3.Int("number_of_vectors")
        c.assume(nv >= 0)
        new = z3.Function("new_vector", I, Opaque.Sort)
        values = PyList.sym(VSeq([Tab(SymInt(nv), lambda m: Ident(new(zint(m))))]))
        index = Index(SymInt(nv))
        flat = evaluate(n, w.cn.flatten, "", root)
        c.born.pop(id(values), None)
        mark = c.tick
        r = evaluate(n, w.pr.build_prim_from_unique_values, flat, index, values)
        b = getattr(r, "__dict__", {}).get("__pyvc_built__")
        if b is None:
            raise Unsupported(f"a {type(r).__name__} that is not rebuilt from the structures")
        c.prove(n + ".same-tree", b.t == t)
        # an arbitrary node of the tree
        path, x = exact_fl(tr, t).info["generic"]()
        u = term(x)
        p, cls, value, keys = struct4(b.struct(u, path))
        m = tr.keymap(u)
        c.prove(n + ".types", SymType(typf(u)) == cls)
        same(n + ".keys", VSeq(as_vseq(keys, w.it).segs), VSeq([Tab(m.n, m.key)]))
        same(n + ".vectors", value, Ident(new(zint(index._at(path)))))
        c.prove(n + ".new", c.is_fresh(r, mark))
        frame_clean(n + ".frame", mark)
    case("build", body)

    def round_trip(n, g):
        # with the extracted index and vectors
        c = ctx()
        root = tr.any("root")
        t = term(root)
        r = as_vseq(evaluate(n, w.pr.filter_unique_values_from_prim, root), w.it).concrete()
        if r is None or len(r) != 2:
            return c.fail(n, "does not return a pair")
        index, values = r
        flat = evaluate(n, w.cn.flatten, "", root)
        mark = c.tick
        r = evaluate(n, w.pr.build_prim_from_unique_values, flat, ByPath(tr, t), values)
        b = getattr(r, "__dict__", {}).get("__pyvc_built__")
        if b is None:
            raise Unsupported(f"a {type(r).__name__} that is not rebuilt from the structures")
        path, x = exact_fl(tr, t).info["generic"]()
        u = term(x)
        appears(u)
        value = struct4(b.struct(u, path))[2]
        same(n + ".values", value, x.value)
    case("rebuild-with-the-extracted", round_trip)


class ByPath(Index):
    """The extracted mapping, read at the path of a node of the tree (obligation extract.index)."""

    def __init__(self, tr, t):
        self.tr, self.t_ = tr, t
        self.n = SymInt(count)

    def _at(self, k):
        c = ctx()
        k = SymStr.of(k)
        if k.t.eq(z3.StringVal("")):
            appears(self.t_)
            return SymInt(rank(valf(self.t_)))
        cut = k.split_first()
        if cut is None or not c.entails(SymStr.of(cut[0]).t == ""):
            return super()._at(k)               # not the path of a node
        u = tgt(self.t_, SymStr.of(cut[1]).t)
        appears(u)
        return SymInt(rank(valf(u)))


def appears(u):
    """The facts of the lemma `numbering` for the vector of a node of the tree."""
    v = valf(u)
    ctx().assume(z3.And(rank(v) >= 0, rank(v) < count, U(rank(v)) == v))


def prove_numbering(report, w, case):
    """The numbering by first appearance, defined by recursion over the sequence v_0, v_1, ..."""
    V = Opaque.Sort
    seen, cnt = z3.Function("seen_before", I, V, B), z3.Function("distinct_before", I, I)
    v = z3.Function("v", I, V)
    j, m, j0 = z3.Ints("j m j0")
    x, y = z3.Const("x", V), z3.Const("y", V)

    def define(c, j, *zs):
        """seen_before, distinct_before, rank and of_rank at j + 1."""
        c.assume(cnt(0) == 0)
        for z in zs:
            c.assume(z3.Not(seen(0, z)))
            c.assume(seen(j + 1, z) == z3.Or(seen(j, z), z == v(j)))
        c.assume(z3.If(seen(j, v(j)), cnt(j + 1) == cnt(j),
                       z3.And(cnt(j + 1) == cnt(j) + 1, rank(v(j)) == cnt(j), U(cnt(j)) == v(j))))

    def inv(j, z):
        return z3.And(cnt(j) >= 0, z3.Implies(seen(j, z), z3.And(
            rank(z) >= 0, rank(z) < cnt(j), U(rank(z)) == z)))

    def used(j, m):
        return z3.Implies(z3.And(m >= 0, m < cnt(j)), z3.And(seen(j, U(m)), rank(U(m)) == m))

    def lemma(n, g):
        c = ctx()
        c.assume(j >= 0)
        define(c, j, x, y, v(j), U(m))
        for z in (x, y, v(j)):
            c.prove(n + ".start", inv(z3.IntVal(0), z))
            c.assume(inv(j, z))
        c.prove(n + ".index-is-valid.step", inv(j + 1, x))
        c.assume(used(j, m))
        c.prove(n + ".none-unused.start", used(z3.IntVal(0), m))
        c.prove(n + ".none-unused.step", used(j + 1, m))
        # same entry exactly for the same vector
        c.prove(n + ".shared-exactly", z3.Implies(z3.And(seen(j, x), seen(j, y)),
                                                  (rank(x) == rank(y)) == (x == y)))
    case("lemma.numbering", lemma)

    def order(n, g):
        # a vector that appears before another one has the smaller index: cnt does not decrease,
        # so a vector that is new after j0 elements gets an index of at least cnt(j0)
        c = ctx()
        c.assume(z3.And(0 <= j0, j0 <= j))
        define(c, j, x, y, v(j))
        c.assume(cnt(j0) <= cnt(j))
        c.prove(n + ".monotone.step", cnt(j0) <= cnt(j + 1))
        late = z3.Implies(z3.And(z3.Not(seen(j0, y)), seen(j, y)), rank(y) >= cnt(j0))
        c.assume(late)
        c.prove(n + ".late.start", z3.Implies(j == j0, z3.Not(z3.And(z3.Not(seen(j0, y)), seen(j, y)))))
        c.prove(n + ".late.step", z3.Implies(z3.And(z3.Not(seen(j0, y)), seen(j + 1, y)),
                                             rank(y) >= cnt(j0)))
        c.assume(inv(j0, x))
        c.prove(n + ".first-appearance", z3.Implies(
            z3.And(seen(j0, x), z3.Not(seen(j0, y)), seen(j, y)), rank(x) < rank(y)))
    case("lemma.order", order)


def prove_distinct_paths(report, w, case):
    """No path occurs twice in a flattened tree: the paths below two children differ, because
    their keys differ and contain no '/'."""
    def lemma(n, g):
        # p = a/x and q = b/y after the common prefix (x, y: what follows, perhaps nothing)
        c = ctx()
        k, a, b, x, y = (z3.String(s) for s in ("k", "a", "b", "x", "y"))
        la, lb = z3.Length(a), z3.Length(b)
        c.assume(a != b)
        p, q = z3.Concat(a, SL, x), z3.Concat(b, SL, y)
        c.assume(la <= lb)                   # without loss of generality

        def at(s, i):
            return z3.SubString(s, i, 1)
        c.assume(z3.Implies(z3.And(la >= 0, la < lb), at(b, la) != SL))    # b has no '/'
        c.prove(n + ".shorter-key", z3.Implies(la < lb, at(p, la) != at(q, la)))
        c.prove(n + ".prefix", z3.Implies(la == lb, z3.And(
            z3.SubString(p, 0, la) == a, z3.SubString(q, 0, la) == b)))
        c.prove(n + ".root", z3.Concat(k, SL, x) != k)
    case("lemma.distinct-paths", lemma)


def prove(report, tier):
    w = World("primitives")
    tr = Trees(w, value=lambda t: Ident(valf(t)))
    case = Cases(report, "C06", w)
    Rec(w, "containers:iter_flat",
        lambda k, root: VSeq([exact_fl(tr, term(root)) if isinstance(k, str) and k == ""
                              else fl(tr, k, term(root))], "iter"))
    unflatten_contract(w, tr, "C06")
    w.it.opaque_loop = numbering(vector_of)
    prove_extract(report, w, tr, case)
    prove_build(report, w, tr, case)
    prove_numbering(report, w, case)
    prove_distinct_paths(report, w, case)

    # the contracts used above
    w2 = World("primitives")
    tr2 = Trees(w2)
    prove_iter_flat(report, w2, tr2, "C06")
    prove_from_tree(report, w2, "C06")
    prove_unflatten(report, w2, tr2, "C06")
