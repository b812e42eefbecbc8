"""Path resolution: specification functions, contracts of get_child / add_child and lemmas.

ok(t, p): the path p resolves below tree t, tgt(t, p): the node it resolves to, defined by the
first '/' of p:   no '/':  ok = has(t, p), tgt = child(t, pos(t, p))
                  h / r :  ok = has(t, h) and ok(c, r), tgt = tgt(c, r) with c = child(t, pos(t, h))
addok(t, p): a child can be added at p:  no '/': not has(t, p);  h / r: has(t, h) and addok(c, r).
"""
from __future__ import annotations

from .tree import *
from ..core import Raised

ok = z3.Function("ok", N, S, B)
tgt = z3.Function("tgt", N, S, N)
addok = z3.Function("addok", N, S, B)
SL = z3.StringVal("/")


def noslash(p):
    return z3.Not(z3.Contains(p, SL))


def kid(t, k):
    return childf(t, posf(t, k))


def unfold_path(t, p):
    """The definition of ok, tgt and addok at (t, p) as facts (forks on '/' in p).
    Returns None, or the (head, tail) of p."""
    c = ctx()
    s = SymStr.of(p)
    pt = s.t
    cut = s.split_first()
    if cut is None:
        c.assume(ok(t, pt) == hasf(t, pt))
        c.assume(tgt(t, pt) == kid(t, pt))
        c.assume(addok(t, pt) == z3.Not(hasf(t, pt)))
        return None
    h, r = SymStr.of(cut[0]).t, SymStr.of(cut[1]).t
    d = kid(t, h)
    c.assume(ok(t, pt) == z3.And(hasf(t, h), ok(d, r)))
    c.assume(tgt(t, pt) == tgt(d, r))
    c.assume(addok(t, pt) == z3.And(hasf(t, h), addok(d, r)))
    return cut


def last_cut(t, p):
    """The lemma `last` at (t, p): resolution by the last '/' (None when p has none)."""
    c = ctx()
    s = SymStr.of(p)
    cut = s.split_last()
    if cut is None:
        return None
    pre, k = SymStr.of(cut[0]).t, SymStr.of(cut[1]).t
    c.assume(z3.Implies(noslash(k), last_lemma(t, pre, k, s.t)))
    return cut


def last_lemma(t, pre, k, p):
    q = tgt(t, pre)
    return z3.And(ok(t, p) == z3.And(ok(t, pre), hasf(q, k)),
                  z3.Implies(ok(t, pre), tgt(t, p) == kid(q, k)),
                  addok(t, p) == z3.And(ok(t, pre), z3.Not(hasf(q, k))))


def resolve(tr, t, p, unfold=False):
    """node(tgt(t, p)), or KeyError."""
    c = ctx()
    pt = SymStr.of(p).t
    if c.branch(ok(t, pt)):
        return tr.node(tgt(t, pt))
    raise KeyError("path does not resolve")


def unchanged_so_far():
    c = ctx()
    nodes = list(c.store.get("nodes", {}).values())
    if any(m.obj is o or m.obj is o.__dict__["_children"] for m in c.mutations for o in nodes):
        raise Unsupported("path resolution after a change of the tree")


def get_child_contract(w, tr):
    def spec(node, key):
        if not isinstance(key, (str, SymStr)):
            raise Unsupported("get_child of a non-string")
        unchanged_so_far()
        return resolve(tr, term(node), key)
    return Rec(w, "containers:Node.get_child", spec)


def add_child_contract(w, tr):
    """Adds one entry (last component, child) at the end of the children of the parent."""
    def spec(node, key, child):
        c = ctx()
        t, p = term(node), SymStr.of(key).t
        if not c.branch(addok(t, p)):
            raise KeyError("cannot add")
        c.store["added"] = c.store.get("added", ()) + ((t, SymStr.of(key), child),)
        return None
    return Rec(w, "containers:Node.add_child", spec)


def attempt(fn, *args):
    """The value, or Raised."""
    from .world import internal
    try:
        return fn(*args)
    except Exception as e:
        internal(e)
        return Raised(e)


def no_change(name):
    c = ctx()
    if c.store.get("added"):
        return c.fail(name, "changes the tree")
    frame_clean(name, 0)


def is_node(name, r, t):
    """r is the very node t."""
    u = getattr(r, "__dict__", {}).get("__pyvc_term__")
    if u is None:
        return ctx().fail(name, f"returns {type(r).__name__}, not a node of the tree")
    ctx().prove(name, u == t)


def prove_get_child(report, w, tr, prop):
    case = Cases(report, prop, w)
    rec = get_child_contract(w, tr)

    def body(n, g):
        c = ctx()
        root = tr.any()
        t = term(root)
        p = SymStr.term(z3.String("p"))
        with rec:
            r = attempt(root.get_child, p)
        cut = unfold_path(t, p)
        last_cut(t, p)
        if isinstance(r, Raised):
            if not isinstance(r.exc, KeyError):
                return c.fail(n + ".raises", f"raises {r!r}")
            c.prove(n + ".raises", z3.Not(ok(t, p.t)))
        else:
            c.prove(n + ".resolves", ok(t, p.t))
            is_node(n + ".target", r, tgt(t, p.t))
        no_change(n + ".frame")
    case("get_child", body)
    return rec


def prove_add_child(report, w, tr, prop):
    case = Cases(report, prop, w)
    rec = add_child_contract(w, tr)

    def body(n, g):
        c = ctx()
        root = tr.any()
        t = term(root)
        p = SymStr.term(z3.String("p"))
        new = tr.any("new")
        with rec:
            r = attempt(root.add_child, p, new)
        cut = unfold_path(t, p)
        lc = last_cut(t, p)
        if isinstance(r, Raised):
            if not isinstance(r.exc, KeyError):
                return c.fail(n + ".raises", f"raises {r!r}")
            c.prove(n + ".raises", z3.Not(addok(t, p.t)))
            no_change(n + ".unchanged")
            return
        c.prove(n + ".addable", addok(t, p.t))
        events = c.store.get("added", ())
        changed = changed_objects()
        if events:
            if cut is None or len(events) != 1 or changed:
                return c.fail(n + ".effect", "not exactly one child is added")
            u, q, child = events[0]
            # by the first '/', or at the parent by the last '/'
            h, rest = SymStr.of(cut[0]), SymStr.of(cut[1])
            pre, k = SymStr.of(lc[0]), SymStr.of(lc[1])
            c.prove(n + ".effect", z3.Or(
                z3.And(u == kid(t, h.t), q.t == rest.t),
                z3.And(u == tgt(t, pre.t), q.t == k.t)))
            same(n + ".child", child, new)
            return
        # direct: the entry is put at the parent
        par, k = (t, p) if lc is None else (tgt(t, SymStr.of(lc[0]).t), SymStr.of(lc[1]))
        if cut is not None:
            c.assume(ok(t, SymStr.of(lc[0]).t))
        if len(changed) != 1:
            return c.fail(n + ".effect", f"{len(changed)} objects are changed")
        appended(n, tr, changed[0], par, k, new)
    case("add_child", body)
    return rec


def changed_objects():
    c = ctx()
    out = []
    for m in c.mutations:
        if not c.is_fresh(m.obj, 0) and not any(m.obj is o for o in out):
            out.append(m.obj)
    return out


def owner(tr, d):
    """The node whose children dictionary d is."""
    for o in ctx().store.get("nodes", {}).values():
        if o.__dict__["_children"] is d:
            return o.__dict__["__pyvc_term__"]
    return None


def appended(n, tr, d, par, k, new):
    """d is the children dictionary of `par`, which gained (k, new) as its last entry."""
    c = ctx()
    u = owner(tr, d)
    if u is None:
        return c.fail(n + ".effect", f"changes a {type(d).__name__}")
    c.prove(n + ".effect", u == par)
    m = tr.keymap(u)
    st = d.state()
    same(n + ".keys", VSeq(st.keys().segs), VSeq([Tab(m.n, m.key), Unit(k)]))
    same(n + ".child", VSeq(st.values().segs),
         VSeq([Tab(m.n, lambda i: tr.node(childf(u, zint(i)))), Unit(new)]))


def replaced(n, tr, d, par, k, new):
    """d is the children dictionary of `par`, whose entry k now holds `new`."""
    c = ctx()
    u = owner(tr, d)
    if u is None:
        return c.fail(n + ".effect", f"changes a {type(d).__name__}")
    c.prove(n + ".effect", u == par)
    m = tr.keymap(u)
    st = d.state()
    same(n + ".keys", VSeq(st.keys().segs), VSeq([Tab(m.n, m.key)]))
    i = posf(par, k)

    def want(j):
        return new if ieq(SymInt(i), j) else tr.node(childf(u, zint(j)))
    c.prove(n + ".present", hasf(par, k))
    c.assume(z3.And(i >= 0, i < nch(par), keyf(par, i) == k))
    same(n + ".child", VSeq(st.values().segs), VSeq([Tab(m.n, want)]))


# ---- lemmas over the specification functions --------------------------------------------

def prove_lemmas(report, w, prop):
    case = Cases(report, prop, w)
    t, c0, q = z3.Const("t", N), z3.Const("c0", N), z3.Const("q", N)
    h, r, pre, k, p = (z3.String(x) for x in ("h", "r", "pre", "k", "p"))

    def cat(*xs):
        out = []
        for i, x in enumerate(xs):
            out += ([SL] if i else []) + [x]
        return z3.Concat(*out)

    def defn(u, path, head=None, tail=None):
        """The definition at a path that is `head/tail` or has no '/'."""
        if head is None:
            return z3.And(ok(u, path) == hasf(u, path), tgt(u, path) == kid(u, path),
                          addok(u, path) == z3.Not(hasf(u, path)))
        d = kid(u, head)
        return z3.And(ok(u, path) == z3.And(hasf(u, head), ok(d, tail)),
                      tgt(u, path) == tgt(d, tail),
                      addok(u, path) == z3.And(hasf(u, head), addok(d, tail)))

    def last(n, g):
        # resolution by the last '/', by induction over the number of '/' in pre
        c = ctx()
        c.assume(noslash(k))
        if c.choose(2) == 0:
            c.assume(noslash(pre))
            full = cat(pre, k)
            c.assume(defn(t, full, pre, k))
            c.assume(defn(t, pre))
            c.assume(defn(kid(t, pre), k))
            c.prove(n + ".base", last_lemma(t, pre, k, full))
        else:
            c.assume(noslash(h))
            d = kid(t, h)
            full, inner = cat(h, r, k), cat(r, k)
            c.assume(defn(t, full, h, inner))
            c.assume(defn(t, cat(h, r), h, r))
            c.assume(last_lemma(d, r, k, inner))           # induction hypothesis
            c.prove(n + ".step", last_lemma(t, cat(h, r), k, full))
    case("lemma.last", last)

    # the tree after one entry (key k0, node new) was appended below q (or replaced at q)
    ok2, tgt2 = z3.Function("ok'", N, S, B), z3.Function("tgt'", N, S, N)
    has2, kid2 = z3.Function("has'", N, S, B), z3.Function("kid'", N, S, N)
    below = z3.Function("below", N, N, B)
    k0, new = z3.String("k0"), z3.Const("new", N)

    def defn2(u, path, head=None, tail=None):
        if head is None:
            return z3.And(ok2(u, path) == has2(u, path), tgt2(u, path) == kid2(u, path))
        d = kid2(u, head)
        return z3.And(ok2(u, path) == z3.And(has2(u, head), ok2(d, tail)),
                      tgt2(u, path) == tgt2(d, tail))

    def put(u, key):
        """Effect of the put at (u, key): only the entry k0 of q is new."""
        here = z3.And(u == q, key == k0)
        return z3.And(has2(u, key) == z3.Or(hasf(u, key), here),
                      kid2(u, key) == z3.If(here, new, kid(u, key)))

    def added(n, g):
        # the added (or replaced) path resolves to the new node: induction over the path; par
        # is the node below which the last component is put
        c = ctx()
        par = z3.Function("par", N, S, N)
        lastk = z3.Function("lastk", S, S)
        if c.choose(2) == 0:
            c.assume(noslash(p))
            c.assume(z3.And(par(t, p) == t, lastk(p) == p, par(t, p) == q, lastk(p) == k0))
            c.assume(put(t, p))
            c.assume(defn2(t, p))
            c.prove(n + ".base", z3.And(ok2(t, p), tgt2(t, p) == new))
        else:
            c.assume(noslash(h))
            d = kid(t, h)
            full = cat(h, r)
            c.assume(hasf(t, h))
            c.assume(z3.And(par(t, full) == par(d, r), lastk(full) == lastk(r)))
            c.assume(z3.Implies(t == q, h != k0))
            c.assume(z3.And(par(t, full) == q, lastk(full) == k0))
            c.assume(put(t, h))
            c.assume(defn2(t, full, h, r))
            c.assume(z3.Implies(z3.And(par(d, r) == q, lastk(r) == k0),
                                z3.And(ok2(d, r), tgt2(d, r) == new)))     # induction
            c.prove(n + ".step", z3.And(ok2(t, full), tgt2(t, full) == new))
    case("lemma.added-path-resolves", added)

    def elsewhere(n, g):
        # in a subtree that does not contain q nothing changes: induction over the path
        c = ctx()
        c.assume(z3.Not(below(t, q)))
        c.assume(below(t, t))
        if c.choose(2) == 0:
            c.assume(noslash(p))
            c.assume(put(t, p))
            c.assume(defn(t, p))
            c.assume(defn2(t, p))
            c.prove(n + ".base", z3.And(ok2(t, p) == ok(t, p),
                                        z3.Implies(ok(t, p), tgt2(t, p) == tgt(t, p))))
        else:
            c.assume(noslash(h))
            d, full = kid(t, h), cat(h, r)
            c.assume(put(t, h))
            c.assume(defn(t, full, h, r))
            c.assume(defn2(t, full, h, r))
            c.assume(z3.Implies(z3.And(hasf(t, h), below(d, q)), below(t, q)))
            c.assume(z3.Implies(z3.Not(below(d, q)), z3.And(
                ok2(d, r) == ok(d, r), z3.Implies(ok(d, r), tgt2(d, r) == tgt(d, r)))))
            c.prove(n + ".step", z3.And(ok2(t, full) == ok(t, full),
                                        z3.Implies(ok(t, full), tgt2(t, full) == tgt(t, full))))
    case("lemma.other-subtrees-unchanged", elsewhere)

    def frame(n, g):
        # every path that is neither p nor below p resolves as before; q = par(t, p) occurs once
        c = ctx()
        hp, rp = z3.String("h'"), z3.String("r'")          # the other path is hp or hp/rp

        def unch(u, path):
            return z3.And(ok2(u, path) == ok(u, path),
                          z3.Implies(ok(u, path), tgt2(u, path) == tgt(u, path)))
        c.assume(noslash(hp))
        c.assume(put(t, hp))
        c.assume(below(t, t))
        simple = c.choose(2) == 0            # the other path has one component
        other = hp if simple else cat(hp, rp)
        d2 = kid(t, hp)
        if simple:
            c.assume(defn(t, hp))
            c.assume(defn2(t, hp))
        else:
            c.assume(defn(t, other, hp, rp))
            c.assume(defn2(t, other, hp, rp))
            # elsewhere-lemma at the child
            c.assume(z3.Implies(z3.Not(below(d2, q)), unch(d2, rp)))
            # trees are acyclic
            c.assume(z3.Implies(hasf(t, hp), z3.Not(below(d2, t))))
        if c.choose(2) == 0:
            # p = k0 at q = t
            c.assume(q == t)
            c.assume(hp != k0)               # other is neither k0 nor below k0
            c.prove(n + ".here", unch(t, other))
        else:
            # p = h/r with q below the child d: t is not q
            c.assume(noslash(h))
            d = kid(t, h)
            c.assume(z3.And(hasf(t, h), below(d, q), z3.Implies(below(d, q), t != q)))
            if simple:
                c.prove(n + ".below-simple", unch(t, other))
            else:
                # distinct children have disjoint subtrees
                c.assume(z3.Implies(z3.And(hasf(t, hp), hp != h), z3.Not(below(d2, q))))
                c.assume(z3.Implies(hp == h, unch(d, rp)))    # induction hypothesis at (d, r)
                c.prove(n + ".below", unch(t, other))
    case("lemma.other-paths-unchanged", frame)
