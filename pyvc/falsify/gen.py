"""Random inputs: trees, primitives, constructions."""
from __future__ import annotations

import numpy as np

from mpllayout import containers as cn
from mpllayout import primitives as pr
from mpllayout import constructions as con

KEYS = ["a", "b", "c", "A0", "A1", "Line0", "Line1", "Line10", "arg0", "arg1", "1", "10",
        "x y", "é", ".", ".a", "aa", "ab", "", "0", "a.b", "Frame", "Z", "B"]


def keys(rng, n, empty=True):
    pool = KEYS if empty else [k for k in KEYS if k]
    return rng.sample(pool, n)


class SubNode(cn.Node):
    pass


class SubSub(SubNode):
    pass


NODE_TYPES = [cn.Node, SubNode, SubSub]


def plain_value(rng):
    return rng.choice([None, "", (), "a/b"]) if rng.random() < 0.1 else rng.randrange(-5, 6)


def tree(rng, depth=3, width=3, value=None, types=(cn.Node,), empty=True, leafy=0.25):
    """A random tree without shared nodes; keys in random (unsorted) order."""
    value = value or plain_value
    kids = {}
    if depth > 0 and rng.random() < 0.04:          # more than ten children
        for k in keys(rng, rng.randrange(11, 16), empty):
            kids[k] = tree(rng, 0, width, value, types, empty, leafy)
        return rng.choice(list(types)).from_tree(value(rng), kids)
    if depth > 0 and rng.random() > leafy:
        for k in keys(rng, rng.randrange(0, width + 1), empty):
            kids[k] = tree(rng, depth - 1, width, value, types, empty, leafy)
    return rng.choice(list(types)).from_tree(value(rng), kids)


def paths(node, prefix=()):
    """All non-root paths, as tuples, in flat order."""
    out = []
    for k, c in node.children.items():
        out.append(prefix + (k,))
        out.extend(paths(c, prefix + (k,)))
    return out


def walk(node, path):
    for k in path:
        node = node.children[k]
    return node


def snap(node):
    """Identity snapshot of a whole tree."""
    return (id(node), type(node), id(node._value), id(node._children),
            tuple((k, snap(c)) for k, c in node._children.items()))


def deep(node):
    """Identity-free snapshot (type, value, ordered children)."""
    v = node.value
    if isinstance(v, np.ndarray):
        v = ("array", v.shape, tuple(v.ravel().tolist()))
    return (type(node).__name__, v, tuple((k, deep(c)) for k, c in node.children.items()))


def num(rng, zero=True):
    c = rng.random()
    if c < 0.25:
        v = rng.randrange(-4, 5)
    elif c < 0.5:
        v = rng.randrange(-20, 21) / 4
    else:
        v = rng.uniform(-10, 10)
    if not zero and abs(v) < 0.05:
        return 1.5
    return float(v)


def point(rng):
    return pr.Point(np.array([num(rng), num(rng)]))


def line(rng, p0=None, degenerate=False):
    p0 = p0 or point(rng)
    if degenerate:
        return pr.Line(prims=(p0, pr.Point(np.array(p0.value))))
    while True:
        c = rng.random()
        d = np.array([num(rng), num(rng)])
        if c < 0.15:
            d[0] = 0.
        elif c < 0.3:
            d[1] = 0.
        if np.hypot(*d) > 0.05:
            break
    return pr.Line(prims=(p0, pr.Point(np.array(p0.value) + d)))


def mkline(x0, y0, x1, y1):
    return pr.Line(prims=(pr.Point(np.array([x0, y0], float)), pr.Point(np.array([x1, y1], float))))


def quad(rng):
    """A quadrilateral with sides of non-zero length (any shape)."""
    while True:
        p = [np.array([num(rng), num(rng)]) for _ in range(4)]
        if all(np.hypot(*(p[i] - p[(i + 1) % 4])) > 0.05 for i in range(4)):
            return pr.Quadrilateral(None, [pr.Point(x) for x in p])


def mkquad(pts):
    return pr.Quadrilateral(None, [pr.Point(np.array(p, float)) for p in pts])


def box(x0, y0, w, h):
    return mkquad([(x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0, y0 + h)])


def verts(q):
    """The four vertices (bottom left, bottom right, top right, top left)."""
    return [np.array(q[f"Line{i}"]["Point0"].value, float) for i in range(4)]


def side(q, i):
    l = q[f"Line{i}"]
    return np.array(l["Point0"].value, float), np.array(l["Point1"].value, float)


def prim(rng, depth=2):
    c = rng.random()
    if depth == 0 or c < 0.2:
        return point(rng)
    if c < 0.4:
        return line(rng)
    if c < 0.55:
        return quad(rng)
    if c < 0.65:
        return pr.Polygon(None, [point(rng) for _ in range(rng.randrange(1, 6))])
    if c < 0.75:
        return pr.Axes(None, None, rng.random() < .7, rng.random() < .7,
                       rng.random() < .5, rng.random() < .5)
    return prim_tree(rng, depth - 1)


def prim_tree(rng, depth=2, width=3):
    return pr.PrimitiveNode(
        np.array([]), {k: prim(rng, depth) for k in keys(rng, rng.randrange(0, width + 1), False)})


def all_nodes(node):
    out = [node]
    for c in node.children.values():
        out.extend(all_nodes(c))
    return out


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


# ---- constructions with a recorded, recognisable value -------------------------------

def node_value(uid, size, prims, params):
    """The local value of a test construction: distinguishes node, arguments and order."""
    out = []
    flat = [float(x) for p in prims for n in all_nodes(p) for x in np.asarray(n.value).ravel()]
    for i in range(size):
        v = uid * 1.25 + i
        for j, x in enumerate(flat):
            v += x * (0.5 + 0.25 * j + i)
        for j, x in enumerate(params):
            v += x * (3 + j)
        out.append(v)
    return np.array(out)


class Named(pr.PrimitiveNode):
    """A primitive whose children have the names of arguments."""


PRIM_TYPES = (pr.Point, pr.Line, pr.Quadrilateral, Named)


def make_prim(rng, t):
    if t is Named:
        return Named(np.array([]), {
            "arg1": point(rng),
            "arg0": pr.PrimitiveNode(np.array([]), {"arg1": line(rng), "arg10": point(rng), "1": point(rng)})})
    if t is pr.Point:
        return point(rng)
    if t is pr.Line:
        return line(rng)
    if t is pr.Quadrilateral:
        return quad(rng)
    if t is pr.PrimitiveNode:
        return prim_tree(rng)
    return t()


SUBPATHS = {
    pr.Point: [("", pr.Point)],
    pr.Line: [("", pr.Line), ("/Point0", pr.Point), ("/Point1", pr.Point)],
    pr.Quadrilateral: [("", pr.Quadrilateral)]
    + [(f"/Line{i}", pr.Line) for i in range(4)]
    + [(f"/Line{i}/Point{j}", pr.Point) for i in range(4) for j in range(2)],
    Named: [("", Named), ("/arg1", pr.Point), ("/arg0/arg1", pr.Line), ("/arg0/arg1/Point1", pr.Point),
            ("/arg0/arg10", pr.Point), ("/arg0/1", pr.Point)],
}

_uid = [0]


def construction(rng, prim_types=None, nparams=None, depth=2, width=3, shape=None, size=None,
                 log=None, positive=False, max_params=2, gen_params=True):
    """A random construction tree.

    shape: [(key, shape)] fixes the child keys, sizes come from `size(path)`.
    Attributes _uid, _derive on the node let the oracle recompute everything.
    """
    if prim_types is None:
        n = rng.randrange(0, 4) if rng.random() < 0.8 else rng.randrange(10, 13)
        prim_types = tuple(rng.choice(PRIM_TYPES) for _ in range(n))
    if nparams is None:
        nparams = rng.randrange(0, max_params + 1)
    if shape is None:
        shape = rand_shape(rng, depth, width)
    sz, kids = shape
    _uid[0] += 1
    uid = _uid[0] % 97 + 1
    child_keys, children, child_pk, derive = [], [], [], []
    for k, sub in kids:
        avail = [(f"arg{i}{s}", t) for i, pt in enumerate(prim_types) for s, t in SUBPATHS[pt]]
        m = rng.randrange(0, 4) if avail else 0
        picks = [rng.choice(avail) for _ in range(m)]
        cp = rng.randrange(0, max_params + 1)
        c = construction(rng, tuple(t for _, t in picks), cp, depth - 1, width, sub, log=log,
                         positive=positive, max_params=max_params, gen_params=gen_params)
        child_keys.append(k)
        children.append(c)
        child_pk.append(tuple(p for p, _ in picks))
        # each child parameter is an affine function of the parent's parameters
        derive.append([(rng.randrange(-3, 4) / 2 if not positive else 1.0,
                        [rng.randrange(-2, 3) if not positive else 1 for _ in range(nparams)])
                       for _ in range(cp)])

    kind = rng.randrange(3) if gen_params else 0

    def child_params(params):
        out = [tuple(b + sum(c * p for c, p in zip(cs, params)) for b, cs in d) for d in derive]
        if kind == 1:
            return tuple(out) + ((), ())      # trailing extras are allowed
        if kind == 2:
            return iter(out)
        return tuple(out)

    class Test(con.ConstructionNode):
        @classmethod
        def assem(cls, prims, *params):
            if log is not None:
                log.append(uid)
            v = node_value(uid, sz, prims, params)
            if positive:
                v = np.abs(v) + 0.5
            if sz == 1 and uid % 2:
                return v[0]
            return v
    sig = con.ConstructionSignature(prim_types, nparams * (float,), sz)
    node = Test(con.ConstructionValue(tuple(child_pk), child_params, sig),
                dict(zip(child_keys, children)))
    node._t = (uid, sz, child_pk, derive, positive)
    return node


def rand_shape(rng, depth, width):
    kids = []
    if depth > 0 and rng.random() > 0.3:
        kids = [(k, rand_shape(rng, depth - 1, width))
                for k in keys(rng, rng.randrange(0, width + 1))]
    return rng.randrange(0, 3), kids


def eval_construction(node, prims, params):
    """The specification: local value, then children at selected prims / derived params."""
    uid, sz, child_pk, derive, positive = node._t
    v = node_value(uid, sz, prims, params)
    if positive:
        v = np.abs(v) + 0.5
    out = [v]
    for (k, c), pk, d in zip(node.children.items(), child_pk, derive):
        cps = tuple(b + sum(x * p for x, p in zip(cs, params)) for b, cs in d)
        cprims = []
        for path in pk:
            head, *rest = path.split("/")
            p = prims[int(head[3:])]
            for r in rest:
                p = p.children[r]
            cprims.append(p)
        out.append(eval_construction(c, tuple(cprims), cps))
    return np.concatenate(out)


def total_size(node):
    return node.signature.value_size + sum(total_size(c) for c in node.children.values())
