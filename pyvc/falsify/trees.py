"""Executable contracts of C01..C06."""
from __future__ import annotations

import numpy as np
import jax

from mpllayout import containers as cn
from mpllayout import primitives as pr
from mpllayout import constructions as con
from mpllayout import layout as lay
from mpllayout import constraints as cr

from . import gen
from .base import Case, Fail, need, raises


# ---- C01 ------------------------------------------------------------------------------

def model_of(node):
    """[node, {key: model}] without using Node's own access methods."""
    return [node, {k: model_of(c) for k, c in node._children.items()}]


def model_get(m, path):
    """Model at a slash path or None."""
    for k in path.split("/"):
        m = m[1].get(k)
        if m is None:
            return None
    return m


def same(node, m, where="root"):
    need(node is m[0], f"tree changed: another node object at {where}")
    need(list(node._children) == list(m[1]), f"tree changed: child keys at {where}",
         got=list(node._children), want=list(m[1]))
    for k, sub in m[1].items():
        same(node._children[k], sub, where + "/" + k)


def some_paths(rng, root):
    ps = ["/".join(p) for p in gen.paths(root)]
    out = [rng.choice(ps) for _ in range(4)] if ps else []
    out += ["/".join(gen.keys(rng, rng.randrange(1, 4))) for _ in range(3)]
    out += [p + "/" + rng.choice(gen.KEYS) for p in out[:3]]
    out += [rng.choice(["", "/", "//", "a/", "/a", "nope", "a//b", "A0/"])]
    return out


def c01_history(rng):
    root = gen.tree(rng, depth=rng.randrange(0, 4), types=gen.NODE_TYPES)
    m = model_of(root)
    vals = {id(n): n._value for n in gen.all_nodes(root)}
    keep = gen.all_nodes(root)
    for step in range(rng.randrange(1, 9)):
        path = rng.choice(some_paths(rng, root))
        op = rng.choice(["add", "add", "set", "get", "in", "int", "slice"])
        info = dict(op=op, path=path, tree=root, step=step)
        if op in ("get", "in"):
            t = model_get(m, path)
            r = path in root
            need(r is (t is not None), f"`{path!r} in tree` is {r!r}", **info)
            if t is None:
                bad = raises(KeyError, lambda: root[path])
                need(bad is None, f"reading absent path {path!r}: {bad}", **info)
            else:
                need(root[path] is t[0], f"tree[{path!r}] is another node", **info)
        elif op == "add":
            new = gen.tree(rng, depth=rng.randrange(0, 2), types=gen.NODE_TYPES)
            head, _, last = path.rpartition("/")
            parent = m if "/" not in path else model_get(m, head)
            if parent is not None and last in parent[1] and rng.random() < 0.3:
                new = parent[1][last][0]          # the very child that is there
            if parent is None or last in parent[1]:
                bad = raises(KeyError, root.add_child, path, new)
                need(bad is None, f"adding at {path!r} should raise KeyError: {bad}", **info)
            else:
                root.add_child(path, new)
                parent[1][last] = model_of(new)
                need(root[path] is new, f"after adding, tree[{path!r}] is another node", **info)
                keep.append(new)
        elif op == "set":
            new = gen.tree(rng, depth=rng.randrange(0, 2), types=gen.NODE_TYPES)
            t = model_get(m, path)
            if t is not None and rng.random() < 0.2:
                new = t[0]

            def put():
                root[path] = new
            if t is None:
                bad = raises(KeyError, put)
                need(bad is None, f"replacing absent {path!r} should raise KeyError: {bad}", **info)
            else:
                put()
                head, _, last = path.rpartition("/")
                parent = m if "/" not in path else model_get(m, head)
                parent[1][last] = model_of(new)
                need(root[path] is new, f"after replacing, tree[{path!r}] is another node", **info)
        else:
            kids = [c[0] for c in m[1].values()]
            if op == "int":
                i = rng.randrange(-len(kids) - 1, len(kids) + 1)
                if -len(kids) <= i < len(kids):
                    need(root[i] is kids[i], f"tree[{i}] is another child", **info)
                else:
                    bad = raises(IndexError, lambda: root[i])
                    need(bad is None, f"tree[{i}] out of range: {bad}", **info)
            else:
                b = [rng.choice([None, *range(-3, 4)]) for _ in range(3)]
                s = slice(b[0], b[1], b[2] or None)
                got = list(root[s])
                need(len(got) == len(kids[s]) and all(x is y for x, y in zip(got, kids[s])),
                     f"tree[{s}] does not follow child order", **info)
        same(root, m)
        need(all(n._value is vals.get(id(n), n._value) for n in keep), "a value changed", **info)
        need(root.keys() == list(m[1]) and len(root) == len(m[1]) and list(root) == list(m[1])
             and [n for n in root.values()] == [c[0] for c in m[1].values()]
             and [k for k, _ in root.items()] == list(m[1]), "keys/values/items disagree", **info)


def c01_contains_total(rng):
    root = gen.tree(rng, depth=3)
    s = "".join(rng.choice("ab/A0. ") for _ in range(rng.randrange(0, 7)))
    m = model_of(root)
    r = s in root
    need(r is (model_get(m, s) is not None), f"{s!r} in tree is {r!r}", tree=root)
    bad = None
    try:
        root[s]
        ok = True
    except KeyError:
        ok = False
    need(ok == r, f"`in` says {r} but reading {'succeeds' if ok else 'fails'}", path=s, tree=root)


def c01_all_paths(rng):
    root = gen.tree(rng, depth=4, types=gen.NODE_TYPES)
    for p in gen.paths(root):
        s = "/".join(p)
        need(s in root, f"path {s!r} not in tree", tree=root)
        need(root[s] is gen.walk(root, p), f"tree[{s!r}] is another node", tree=root)
        need(root.get_child(s) is gen.walk(root, p), f"get_child({s!r}) is another node", tree=root)
        bad = raises(KeyError, root.add_child, s, cn.Node(0, {}))
        need(bad is None, f"adding at occupied {s!r}: {bad}", tree=root)
        need(s + "/nope" not in root, "absent path reported present", path=s)
        before = gen.snap(root)
        bad = raises(KeyError, root.add_child, s + "/nope/x", cn.Node(0, {}))
        need(bad is None and gen.snap(root) == before, f"adding below an absent path: {bad}", path=s)


C01 = [Case("history", c01_history, 400, 6000), Case("contains", c01_contains_total, 200, 4000),
       Case("all_paths", c01_all_paths, 60, 1000)]


# ---- C02 ------------------------------------------------------------------------------

def flat_spec(key, node):
    out = [(key, type(node), node._value, list(node._children))]
    for k, c in node._children.items():
        out.extend(flat_spec(f"{key}/{k}", c))
    return out


def eq_flat(got, want):
    return len(got) == len(want) and all(
        g[0] == w[0] and g[1] is w[1] and g[2] is w[2] and list(g[3]) == w[3]
        for g, w in zip(got, want))


def tree_or_prim(rng):
    if rng.random() < 0.4:
        return gen.prim_tree(rng)
    return gen.tree(rng, depth=rng.randrange(0, 5), types=gen.NODE_TYPES)


def same_tree(a, b, check_value=lambda x, y: x is y, where="root", types=True):
    need(not types or type(a) is type(b), f"type at {where}: {type(a).__name__} instead of {type(b).__name__}")
    need(check_value(a._value, b._value), f"value at {where}: {a._value!r} instead of {b._value!r}")
    need(list(a._children) == list(b._children), f"child keys at {where}",
         got=list(a._children), want=list(b._children))
    for k in b._children:
        same_tree(a._children[k], b._children[k], check_value, f"{where}/{k}", types)


def c02_flatten(rng):
    root = tree_or_prim(rng)
    key = rng.choice(["", "r", "x/y"])
    before = gen.snap(root)
    flat = cn.flatten(key, root)
    need(eq_flat(list(flat), flat_spec(key, root)), "flatten is not the pre-order listing",
         tree=root, got=[f[0] for f in flat])
    it = list(cn.iter_flat(key, root))
    want = flat_spec(key, root)
    need([k for k, _ in it] == [w[0] for w in want]
         and [id(n) for _, n in it] == [id(n) for n in gen.all_nodes(root)],
         "iter_flat does not list every node once in pre-order", tree=root)
    rest = [(rng.choice(["k", key, f"{key}/x", f"{key}/{next(iter(root.keys()), 'y')}", ""]), cn.Node, 1, [])
            for _ in range(rng.randrange(0, 3))]
    given = list(flat) + rest
    copy = list(given)
    back, left = cn.unflatten(given)
    same_tree(back, root)
    need(list(left) == rest, "leftover entries are not returned untouched", got=left, want=rest)
    need(given == copy, "unflatten changed its input")
    need(gen.snap(root) == before, "flatten changed the tree")
    same_tree(root, back)


def c02_two(rng):
    a, b = tree_or_prim(rng), tree_or_prim(rng)
    x, rest = cn.unflatten(list(cn.flatten("a", a)) + list(cn.flatten("b", b)))
    y, rest = cn.unflatten(rest)
    same_tree(x, a)
    same_tree(y, b)
    need(list(rest) == [], "entries left over", got=rest)


def c02_pytree(rng):
    if rng.random() < 0.5:
        root = gen.tree(rng, depth=4, value=lambda r: np.array([r.random(), 1.]))
    else:
        root = gen.prim_tree(rng)
    leaves, treedef = jax.tree_util.tree_flatten(root)
    want = [n._value for n in gen.all_nodes(root)]
    need(len(leaves) == len(want) and {id(x) for x in leaves} == {id(x) for x in want},
         "pytree leaves are not the tree's values", tree=root)
    eq = lambda x, y: np.array_equal(x, y)
    same_tree(jax.tree_util.tree_unflatten(treedef, leaves), root, eq)
    same_tree(jax.tree_util.tree_map(lambda x: x, root), root, eq)
    same_tree(jax.tree_util.tree_map(lambda x: x + 1, root), root,
              lambda x, y: np.array_equal(x, y + 1))


def c02_jit(rng):
    root = gen.prim_tree(rng) if rng.random() < .5 else gen.tree(
        rng, depth=3, value=lambda r: np.array([r.random()]))
    out = jax.jit(lambda t: t)(root)
    same_tree(out, root, lambda x, y: np.array_equal(np.asarray(x), np.asarray(y)))


C02 = [Case("flatten", c02_flatten, 200, 3000), Case("two trees", c02_two, 60, 600),
       Case("pytree", c02_pytree, 80, 1000), Case("jit", c02_jit, 3, 20)]


# ---- C03 ------------------------------------------------------------------------------

def map_spec(f, node, got, where="root"):
    need(got._value == f(node._value), f"value at {where}", got=got._value, want=f(node._value))
    need(list(got._children) == list(node._children), f"child keys at {where}",
         got=list(got._children), want=list(node._children))
    for k in node._children:
        map_spec(f, node._children[k], got._children[k], f"{where}/{k}")


def c03_map(rng):
    f, val = rng.choice([(lambda v: 3 * v + 1, lambda r: r.randrange(-5, 6)),
                         (lambda v: (v, "x"), None), (str, None), (lambda v: None, None),
                         (lambda v: v is None, None)])
    root = gen.tree(rng, depth=rng.randrange(0, 5), value=val, types=gen.NODE_TYPES)
    before, old = gen.snap(root), gen.deep(root)
    got = cn.map(f, root)
    map_spec(f, root, got)
    need(gen.snap(root) == before and gen.deep(root) == old, "map modified its input")


def c03_copy(rng):
    root = tree_or_prim(rng)
    before = gen.snap(root)
    c = root.copy()
    same_tree(c, root, lambda x, y: x is y or np.array_equal(x, y), types=False)
    ids = {id(n) for n in gen.all_nodes(root)} | {id(n._children) for n in gen.all_nodes(root)}
    need(not any(id(n) in ids or id(n._children) in ids for n in gen.all_nodes(c)),
         "the copy shares a node with the original", tree=root)
    for a, b in ((c, root), (root, c)):
        snap = gen.deep(b)
        ps = gen.paths(a)
        for _ in range(3):
            p = rng.choice(ps + [()])
            a_n = gen.walk(a, p)
            a_n.add_child("new%d" % rng.randrange(10 ** 9), cn.Node(7, {}))
            if p:
                a["/".join(p)] = cn.Node(9, {})
                ps = gen.paths(a)
        need(gen.deep(b) == snap, "changing one of original and copy shows in the other", tree=b)
        if a is c:
            need(gen.snap(root) == before, "copy changed by mutation of the copy")


def acc_spec(f, node, init, got, where="root"):
    need(list(got._children) == list(node._children), f"child keys at {where}",
         got=list(got._children), want=list(node._children))
    if node._children:
        v = node._value
        for k in node._children:
            v = f(v, acc_spec(f, node._children[k], init, got._children[k], f"{where}/{k}"))
    else:
        v = f(node._value, init)
    need(got._value == v, f"accumulated value at {where}", got=got._value, want=v, tree=node)
    return v


def c03_accumulate(rng):
    f, init, val = rng.choice([
        (lambda x, y: x + y, "!", lambda r: r.choice("abcdef")),
        (lambda x, y: x + y, rng.randrange(-2, 3), lambda r: r.randrange(-5, 6)),
        (lambda x, y: x - y, 1, lambda r: r.randrange(-5, 6)),
        (lambda x, y: (x, y), (), None), (lambda x, y: (x, y), None, None),
        (lambda x, y: x * 2 + y, 1, lambda r: r.randrange(5))])
    root = gen.tree(rng, depth=rng.randrange(0, 5), value=val, types=gen.NODE_TYPES)
    before, old = gen.snap(root), gen.deep(root)
    acc_spec(f, root, init, cn.accumulate(f, root, init))
    need(gen.snap(root) == before and gen.deep(root) == old, "accumulate modified its input")


def height(n):
    return 1 + max(height(c) for c in n._children.values()) if n._children else 0


def c03_height(rng):
    root = tree_or_prim(rng)
    before = gen.snap(root)
    h = root.node_height()
    need(h == height(root), f"node_height is {h}, not {height(root)}", tree=root)
    need(gen.snap(root) == before, "node_height modified its input")


C03 = [Case("map", c03_map, 200, 2000), Case("copy", c03_copy, 200, 2000),
       Case("accumulate", c03_accumulate, 250, 3000), Case("height", c03_height, 100, 1000)]


# ---- C04 ------------------------------------------------------------------------------

def c04_counter(rng):
    cats = rng.sample(["A", "B", "A1", "", "Point", "x y", "Fix", "0", "A10"], 4)
    counters = [cn.ItemCounter(lambda item: item), cn.ItemCounter(categorize=lambda item: item)]
    counts = [{}, {}]
    got = [[], []]
    for _ in range(rng.randrange(1, 25)):
        i = rng.randrange(2)
        c = rng.choice(cats)
        key = counters[i].add_item(c)
        n = counts[i].get(c, 0)
        need(key == f"{c}{n}", f"key {key!r}, expected {c}{n}", history=got[i], category=c)
        counts[i][c] = n + 1
        need(dict(counters[i].category_counts) == counts[i], "counts", got=counters[i].category_counts,
             want=counts[i])
        need((c, key) not in got[i], f"key {key!r} generated twice for {c!r}")
        got[i].append((c, key))


class Foo:
    pass


class Bar(Foo):
    pass


def c04_classname(rng):
    c = cn.ItemCounter()
    n = {}
    for _ in range(rng.randrange(1, 15)):
        item = rng.choice([Foo, Bar, dict, lambda: 3])()
        t = type(item).__name__
        need(c.add_item(item) == f"{t}{n.get(t, 0)}", "key by class name", history=n)
        n[t] = n.get(t, 0) + 1


def c04_nodes(rng):
    cat = rng.choice(["A", "Line", "x"])
    c = cn.ItemCounter(lambda item: item)
    start = rng.randrange(0, 4)
    for _ in range(start):
        c.add_item(cat)
    other = rng.randrange(0, 3)
    for _ in range(other):
        c.add_item("other")
    nodes = []
    for _ in range(rng.randrange(0, 4)):
        dense = rng.random() < .1            # many keys in use in a row
        ks = [f"{cat}{i}" for i in range(140 if dense else 14) if dense or rng.random() < 0.45] + gen.keys(rng, 2)
        rng.shuffle(ks)
        nodes.append(cn.Node(0, {k: gen.tree(rng, 1) for k in dict.fromkeys(ks)}))
    snaps = [gen.snap(n) for n in nodes]
    for rep in range(rng.randrange(1, 4)):
        before = dict(c.category_counts).get(cat, 0)
        key = c.add_item_to_nodes(cat, *nodes)
        want = next(i for i in range(before, 10 ** 6)
                    if not any(f"{cat}{i}" in n._children for n in nodes))
        need(key == f"{cat}{want}", f"key {key!r} instead of the first unused {cat}{want}",
             nodes=[list(n._children) for n in nodes], before=before)
        need(dict(c.category_counts).get(cat) == want + 1
             and dict(c.category_counts).get("other", 0) == other, "counts after generation",
             counts=c.category_counts)
        need([gen.snap(n) for n in nodes] == snaps, "the trees were changed")
        if nodes and rng.random() < 0.6:
            rng.choice(nodes).add_child(key, cn.Node(1, {}))
            snaps = [gen.snap(n) for n in nodes]


def c04_until(rng):
    c = cn.ItemCounter(lambda i: i)
    bad = {f"k{i}" for i in range(20) if rng.random() < 0.5}
    asked = []

    def valid(k):
        asked.append(k)
        return k not in bad
    for _ in range(3):
        before = dict(c.category_counts).get("k", 0)
        key = c.add_item_until_valid("k", valid)
        want = next(i for i in range(before, 1000) if f"k{i}" not in bad)
        need(key == f"k{want}", f"{key!r} is not the first valid key k{want}", invalid=bad)
        need(c.category_counts["k"] == want + 1, "count", counts=c.category_counts)


def c04_layout(rng):
    l = lay.Layout()
    for k in ("p", "q"):
        l.add_prim(gen.point(rng), k)
    seen = []
    for _ in range(rng.randrange(1, 10)):
        ks = list(l.root_constraint._children)
        objs = {k: l.root_constraint._children[k] for k in ks}
        c = rng.choice([cr.Coincident, cr.Fix, cr.XDistance])()
        par = {0: (), 1: (0.0,)}[len(c.signature.param_types)] if not isinstance(c.signature, type) else ()
        pk = ("p", "q")[:len(c.signature.prim_types)]
        if rng.random() < 0.3:
            key = f"{type(c).__name__}{rng.randrange(0, 5)}"
            try:
                l.add_constraint(c, pk, par, key)
            except KeyError:
                need(key in ks, "explicit free key rejected", key=key, keys=ks)
                continue
        else:
            l.add_constraint(c, pk, par)
        new = list(l.root_constraint._children)
        need(new[:-1] == ks and len(new) == len(ks) + 1, "keys after an addition", before=ks, after=new)
        need(all(l.root_constraint._children[k] is objs[k] for k in ks),
             "an addition displaced a constraint", before=ks, after=new)


C04 = [Case("counter", c04_counter, 200, 2000), Case("class names", c04_classname, 50, 500),
       Case("nodes", c04_nodes, 250, 3000), Case("until", c04_until, 60, 600),
       Case("layout", c04_layout, 40, 400)]


# ---- C05 ------------------------------------------------------------------------------

class P2(pr.Point):
    pass


class L2(pr.Line):
    pass


def make(t):
    if t in (pr.Point, P2):
        return t(np.array([1., 2.]))
    if t is pr.PrimitiveNode:
        return pr.PrimitiveNode(np.array([]), {})
    return t()


def sig_match(types, sig):
    """Whether a list of types matches a tuple signature."""
    sig = [pr.PrimitiveNode if s is None else s for s in sig]
    if sig and sig[-1] is Ellipsis:
        unit = sig[:-1]
        if len(types) % len(unit):
            return False
        sig = unit * (len(types) // len(unit))
    return len(types) == len(sig) and all(issubclass(t, s) for t, s in zip(types, sig))


TYPES = [pr.Point, P2, pr.Line, L2, pr.Quadrilateral, pr.Polygon, pr.PrimitiveNode]


def c05_signature(rng):
    def one():
        s = [rng.choice([pr.Point, pr.Line, pr.Polygon, pr.Quadrilateral, None])
             for _ in range(rng.randrange(0, 4))]
        if s and rng.random() < 0.5:
            s = s[:2] + [Ellipsis]
        return tuple(s)
    psize = rng.randrange(0, 4)
    sig = one() if rng.random() < 0.6 else {one() for _ in range(rng.randrange(1, 4))}
    cls = type("C", (pr.PrimitiveNode,), {"signature": (psize, sig)})
    if rng.random() < 0.6:       # near the signature
        s = rng.choice(sorted(sig, key=repr)) if isinstance(sig, set) else sig
        u = [pr.PrimitiveNode if x is None else x for x in s if x is not Ellipsis]
        ts = u * (rng.randrange(0, 4) if s and s[-1] is Ellipsis else 1)
        ts = [rng.choice([x for x in TYPES if issubclass(x, t)]) if rng.random() < .5 else t for t in ts]
        if ts and rng.random() < 0.4:
            i = rng.randrange(len(ts))
            ts = rng.choice([ts[:-1], ts[1:], ts + [rng.choice(TYPES)],
                             ts[:i] + [rng.choice(TYPES)] + ts[i + 1:]])
    else:
        ts = [rng.choice(TYPES) for _ in range(rng.randrange(0, 5))]
    shape = rng.choice([(psize,)] * 6 + [(psize + 1,), (max(psize - 1, 0),), (psize, 1), (1, psize), ()])
    value = np.zeros(shape)
    ok = value.shape == (psize,) and any(
        sig_match(ts, s) for s in (sig if isinstance(sig, set) else [sig]))
    prims = {f"c{i}": make(t) for i, t in enumerate(ts)}
    try:
        p = cls(value, dict(prims))
    except Exception as e:
        need(not ok, f"a well-formed primitive is rejected: {type(e).__name__}: {e}",
             signature=(psize, sig), types=ts, shape=shape)
        return
    need(ok, "an ill-formed primitive is accepted", signature=(psize, sig), types=ts, shape=shape)
    need(p.value is value and list(p.children) == list(prims)
         and all(p.children[k] is prims[k] for k in prims), "value or children of the primitive")


def c05_not_prims(rng):
    bad = rng.choice([cn.Node(0, {}), 3, None, "x"])
    for f in (lambda: pr.PrimitiveNode(np.array([]), {"a": bad}),
              lambda: pr.PrimitiveNode([], {}), lambda: pr.PrimitiveNode(None, {}),
              lambda: pr.Line(np.array([]), (gen.point(rng), bad))):
        r = raises(Exception, f)
        need(r is None, f"non-primitive accepted: {r}", bad=bad)


def c05_shipped(rng):
    t = rng.choice([pr.Point, pr.Line, pr.Quadrilateral])
    want = {pr.Point: 0, pr.Line: 2, pr.Quadrilateral: 4}[t]
    size = {pr.Point: 2, pr.Line: 0, pr.Quadrilateral: 0}[t]
    # (a point has no children: what is given as its parameterizing prims is not used)
    n = 0 if t is pr.Point else rng.randrange(0, 6)
    ps = [rng.choice([gen.point, lambda r: P2(np.array([1., 1.]))])(rng) for _ in range(n)]
    wrong = None
    if ps and rng.random() < 0.3:
        wrong = rng.randrange(n)
        ps[wrong] = gen.line(rng)
    m = rng.choice([size] * 4 + [0, 1, 2, 3])
    value = np.arange(float(m))
    if rng.random() < 0.5:
        value = rng.choice([list, tuple])(value)
    ok = n == want and wrong is None and m == size
    try:
        p = t(value, rng.choice([list, tuple])(ps))
    except Exception as e:
        need(not ok, f"{t.__name__} rejected: {type(e).__name__}: {e}", n=n, m=m)
        return
    need(ok, f"ill-formed {t.__name__} accepted", n=n, m=m, wrong=wrong)
    need(np.array_equal(p.value, np.arange(float(m))), "value", got=p.value)
    if t is pr.Line:
        need(list(p.children) == ["Point0", "Point1"] and p["Point0"] is ps[0] and p["Point1"] is ps[1],
             "children of a line")


def c05_polygon(rng):
    n = rng.choice([1, 2, 3, 3, 4, 5, 7, 11, 12])
    cls = rng.choice([pr.Polygon, pr.Polygon, pr.Quadrilateral])
    if cls is pr.Quadrilateral:
        n = 4
    pts = [gen.point(rng) for _ in range(n)]
    if rng.random() < 0.2:
        pts[-1] = pts[0]
    pts0 = list(pts)
    arg = rng.choice([list, tuple])(pts)
    p = cls(None, arg) if cls is pr.Quadrilateral else cls(None, arg, **rng.choice([{}, {"size": n}, {"size": 3}]))
    need(len(p) == n, f"{len(p)} edges for {n} points")
    edges = list(p.children.items())
    for i, (k, e) in enumerate(edges):
        need(k == f"Line{i}", "edge keys", got=[k for k, _ in edges])
        need(isinstance(e, pr.Line) and list(e.children) == ["Point0", "Point1"], "edge is a line")
        need(e.children["Point0"] is pts0[i] and e.children["Point1"] is pts0[(i + 1) % n],
             f"edge {i} does not run from point {i} to point {(i + 1) % n}", n=n)
    need(list(arg) == pts0, "the list of points was changed")


def c05_default(rng):
    n = rng.randrange(1, 13)
    p = pr.Polygon(size=n)
    need(len(p) == n, f"default polygon of size {n} has {len(p)} edges")
    ks = list(p.children)
    for i in range(n):
        need(p.children[ks[i]].children["Point1"] is p.children[ks[(i + 1) % n]].children["Point0"],
             "vertices of a default polygon are not shared", n=n)
    q = pr.Quadrilateral()
    need(len(q) == 4 and gen.deep(pr.Point()) == gen.deep(pr.Point(np.array([0, 0]))), "defaults")
    a, b = pr.Line(), pr.Line()
    need(a["Point0"] is not b["Point0"] and a["Point0"].value is not b["Point0"].value,
         "two default lines share a point")


def c05_axes(rng):
    x, y, tx, ty = [(rng.k >> i) & 1 == 1 for i in range(4)]
    keys = ["Frame"] + (["XAxis", "XAxisLabel"] if x else []) + (["YAxis", "YAxisLabel"] if y else [])
    keys += (["TwinXAxis", "TwinXAxisLabel"] if x and tx else [])
    keys += (["TwinYAxis", "TwinYAxisLabel"] if y and ty else [])
    kw = dict(xaxis=x, yaxis=y, twinx=tx, twiny=ty)
    a = pr.Axes(**kw)
    types = lambda k: pr.Point if k.endswith("Label") else pr.Quadrilateral
    need(list(a.children) == keys, "children of an axes", flags=kw, got=list(a.children), want=keys)
    need(all(type(a[k]) is types(k) for k in keys), "types of axes children", flags=kw)
    mine = [gen.quad(rng) if types(k) is pr.Quadrilateral else gen.point(rng) for k in keys]
    b = pr.Axes(None, rng.choice([list, tuple])(mine), **kw)
    need(list(b.children) == keys and all(b[k] is m for k, m in zip(keys, mine)),
         "axes children given explicitly", flags=kw)
    for bad in (mine + [gen.quad(rng), gen.point(rng)], mine[:-1], mine[:-2] if len(mine) > 2 else [],
                mine[:-1] + [gen.line(rng)], mine[::-1] if len(mine) > 1 else [gen.point(rng)],
                mine + [gen.point(rng)]):
        r = raises(Exception, pr.Axes, None, bad, **kw)
        need(r is None, f"axes with wrong children accepted: {r}", flags=kw, types=[type(t) for t in bad])


C05 = [Case("signature", c05_signature, 500, 6000), Case("not prims", c05_not_prims, 4, 8),
       Case("shipped", c05_shipped, 200, 2000), Case("polygon", c05_polygon, 80, 500),
       Case("defaults", c05_default, 12, 12), Case("axes", c05_axes, 16, 32)]


# ---- C06 ------------------------------------------------------------------------------

def shared_tree(rng):
    root = gen.prim_tree(rng, 2, 4)
    nodes = [n for n in gen.all_nodes(root) if isinstance(n, pr.Point)]
    for _ in range(rng.randrange(0, 4)):       # share vectors between distinct points
        if len(nodes) > 1:
            a, b = rng.sample(nodes, 2)
            if rng.random() < 0.5:
                b._value = a._value
            elif rng.random() < 0.3:
                b._value = a._value[:]              # another vector on the same memory
            else:
                b._value = np.array(a._value)      # equal, but another vector
    empty = [n for n in gen.all_nodes(root) if n._value.size == 0]
    if len(empty) > 1 and rng.random() < .3:   # an empty vector shared by different types
        for n in rng.sample(empty, 2):
            n._value = empty[0]._value
    if rng.random() < .02:                     # very many vectors
        root._children["many"] = pr.Polygon(None, [gen.point(rng) for _ in range(rng.randrange(90, 160))])
    return root


def c06_unique(rng):
    root = shared_tree(rng)
    before, old = gen.snap(root), gen.deep(root)
    idx, values = pr.filter_unique_values_from_prim(root)
    flat = [("" if not p else "/" + "/".join(p), gen.walk(root, p)) for p in [()] + gen.paths(root)]
    order, first = [], {}
    for key, node in flat:
        if id(node._value) not in first:
            first[id(node._value)] = len(order)
            order.append(node._value)
    need(dict(idx) == {k: first[id(n._value)] for k, n in flat},
         "path -> index map", tree=root, got=idx)
    need(len(values) == len(order) and all(a is b for a, b in zip(values, order)),
         "unique vectors in order of first appearance", tree=root)
    need(gen.snap(root) == before and gen.deep(root) == old, "the tree was modified")
    fl = cn.flatten("", root)
    new = [np.array(v) + 1 + i for i, v in enumerate(values)]
    flc, idxc, newc = list(fl), dict(idx), list(new)
    t = pr.build_prim_from_unique_values(fl, idx, new)
    same_tree(t, root, lambda a, b: a is new[first[id(b)]])
    need(list(fl) == flc and dict(idx) == idxc and len(new) == len(newc)
         and all(a is b for a, b in zip(new, newc)), "rebuilding changed its arguments")
    t2 = pr.build_prim_from_unique_values(fl, idx, values)
    same_tree(t2, root)
    need(gen.snap(root) == before and gen.deep(root) == old, "the tree was modified by rebuilding")


C06 = [Case("unique", c06_unique, 250, 3000)]
