"""Executable contracts of C07..C15."""
from __future__ import annotations

import math

import numpy as np
import jax.numpy as jnp

from mpllayout import containers as cn
from mpllayout import primitives as pr
from mpllayout import constructions as con
from mpllayout import constraints as cr

from . import gen
from .gen import close, side, verts
from .base import Case, Fail, need, raises

SIDES = ["bottom", "right", "top", "left"]
SIDX = {s: i for i, s in enumerate(SIDES)}


def xy(p):
    return np.array(p.value, float)


def ends(l):
    return np.array(l["Point0"].value, float), np.array(l["Point1"].value, float)


def vec(l):
    a, b = ends(l)
    return b - a


def cross(u, v):
    return u[0] * v[1] - u[1] * v[0]


def mid(seg):
    return (seg[0] + seg[1]) / 2


def value(c, prims, *params):
    before = [gen.deep(p) for p in prims]
    r = np.asarray(c(tuple(prims), *params), float)
    need([gen.deep(p) for p in prims] == before, "evaluation changed a primitive")
    need(r.ndim == 1, "the value is not one vector", shape=r.shape)
    return r


def expect(c, prims, params, want, what):
    got = value(c, prims, *params)
    want = np.atleast_1d(np.asarray(want, float))
    need(close(got, want), f"{what}: {got} instead of {want}", prims=prims, params=params)


# ---- C07 ------------------------------------------------------------------------------

def c07_points(rng):
    p, q = gen.point(rng), gen.point(rng)
    d = np.array([gen.num(rng), gen.num(rng)])
    expect(con.Coordinate(), [p], (), xy(p), "Coordinate")
    e = xy(q) - xy(p)
    expect(con.DirectedDistance(), [p, q], (d,), e @ d, "DirectedDistance")
    expect(con.XDistance(), [p, q], (), e[0], "XDistance")
    expect(con.YDistance(), [p, q], (), e[1], "YDistance")


def c07_lines(rng):
    l, m = gen.line(rng), gen.line(rng)
    d = np.array([gen.num(rng), gen.num(rng)])
    v = vec(l)
    expect(con.LineVector(), [l], (), v, "LineVector")
    expect(con.Length(), [l], (), math.hypot(*v), "Length")
    expect(con.UnitLineVector(), [l], (), v / math.hypot(*v), "UnitLineVector")
    expect(con.DirectedLength(), [l], (d,), v @ d, "DirectedLength")
    expect(con.XLength(), [l], (), v[0], "XLength")
    expect(con.YLength(), [l], (), v[1], "YLength")
    expect(con.Midpoint(), [l], (), mid(ends(l)), "Midpoint")
    e = mid(ends(m)) - mid(ends(l))
    expect(con.MidpointDirectedDistance(), [l, m], (d,), e @ d, "MidpointDirectedDistance")
    expect(con.MidpointXDistance(), [l, m], (), e[0], "MidpointXDistance")
    expect(con.MidpointYDistance(), [l, m], (), e[1], "MidpointYDistance")


def true_angle(u, v):
    return math.atan2(cross(u, v), u @ v)


def c07_angle(rng):
    l = gen.line(rng)
    if rng.random() < 0.5:
        m = gen.line(rng)
    else:                      # exact quarter turns and nearly so
        r = {0: [[1, 0], [0, 1]], 1: [[0, -1], [1, 0]], 2: [[-1, 0], [0, -1]], 3: [[0, 1], [-1, 0]]}
        w = np.array(r[rng.randrange(4)]) @ vec(l) * rng.choice([1, 2, 0.5])
        p = gen.point(rng)
        m = pr.Line(prims=(p, pr.Point(xy(p) + w)))
    got = value(con.Angle(), [l, m])
    need(got.shape == (1,), "shape of an angle")
    a, w = float(got[0]), true_angle(vec(l), vec(m))
    need(-math.pi - 1e-9 <= a <= math.pi + 1e-9, f"angle {a} outside [-pi, pi]", lines=(l, m))
    d = abs(a - w)
    need(min(d, abs(d - 2 * math.pi)) < 1e-6, f"angle {a} instead of {w}", lines=(l, m))


def c07_point_line(rng):
    p, l = gen.point(rng), gen.line(rng)
    a, b = ends(l)
    u = (b - a) / math.hypot(*(b - a))
    n = np.array([-u[1], u[0]])
    for rev in (False, True):
        along = (xy(p) - b) @ -u if rev else (xy(p) - a) @ u
        off = (xy(p) - a) @ n * (-1 if rev else 1)
        expect(con.PointOnLineDistance(), [p, l], (rev,), along, f"PointOnLineDistance reverse={rev}")
        expect(con.RelativePointOnLineDistance(), [p, l], (rev,), along / math.hypot(*(b - a)),
               f"RelativePointOnLineDistance reverse={rev}")
        expect(con.PointToLineDistance(), [p, l], (rev,), off, f"PointToLineDistance reverse={rev}")


def margin(qa, qb, outer, s):
    """Distance from/to side s of the first quadrilateral, measured between side midpoints."""
    i = SIDX[s]
    o = (i + 2) % 4 if outer else i
    a, b = mid(side(qa, i)), mid(side(qb, o))
    ax = 0 if s in ("left", "right") else 1
    d = b[ax] - a[ax]
    # positive: the other quadrilateral outside (outer) / the sides ordered inwards (inner)
    return d if s in ("right", "top") else -d


def c07_quads(rng):
    q, r = gen.quad(rng), gen.quad(rng)
    vb, vr = side(q, 0), side(q, 1)
    expect(con.Width(), [q], (), (vb[1] - vb[0])[0], "Width")
    expect(con.Height(), [q], (), (vr[1] - vr[0])[1], "Height")
    expect(con.RectangleDim(dim="width"), [q], (), (vb[1] - vb[0])[0], "RectangleDim width")
    expect(con.RectangleDim(dim="height"), [q], (), (vr[1] - vr[0])[1], "RectangleDim height")
    expect(con.AspectRatio(), [q], (), math.hypot(*(vb[1] - vb[0])) / math.hypot(*(vr[1] - vr[0])),
           "AspectRatio")
    for s in SIDES:
        for outer in (True, False):
            w = margin(q, r, outer, s)
            expect((con.OuterMargin if outer else con.InnerMargin)(side=s), [q, r], (), w,
                   f"{'Outer' if outer else 'Inner'}Margin {s}")
            expect(con.Margin(outer=outer, side=s), [q, r], (), w, f"Margin {s} outer={outer}")


C07 = [Case("points", c07_points, 25, 300), Case("lines", c07_lines, 25, 300),
       Case("angle", c07_angle, 60, 900), Case("point/line", c07_point_line, 30, 400),
       Case("quads", c07_quads, 6, 60)]


# ---- C08 ------------------------------------------------------------------------------

def c08_call(rng):
    log = []
    c = gen.construction(rng, depth=rng.randrange(0, 4), log=log)
    sig = c.signature
    prims = tuple(gen.make_prim(rng, t) for t in sig.prim_types)
    params = tuple(gen.num(rng) for _ in sig.param_types)
    psnap, csnap = [(gen.snap(p), gen.deep(p)) for p in prims], gen.snap(c)
    want = gen.eval_construction(c, prims, params)
    got = np.asarray(c(prims, *params), float)
    need(close(got, want), "value of a construction tree", got=got, want=want,
         keys=[(n.value.child_prim_keys) for n in gen.all_nodes(c)])
    uids = [n._t[0] for n in gen.all_nodes(c)]
    need(log == uids, "nodes evaluated", got=log, want=uids)
    names = tuple(rng.sample(["arg0", "arg1", "P", "Q/x".replace("/", "-"), "Frame", "arg10", "Z", "1", "b c",
                              "A", "B", "C", "D", "E", "F", "G"], len(prims)))
    tree = c.root_prim(names, prims)
    need(list(tree.children) == list(names) and all(a is b for a, b in zip(tree.children.values(), prims)),
         "root_prim")
    keys, pars = c.root_prim_keys(names), c.root_params(params)
    got = np.asarray(c.assem_from_tree(tree, keys, pars), float)
    need(close(got, want), "value from stored key and parameter trees", got=got, want=want)

    def shape(n):
        return tuple((k, shape(x)) for k, x in n.children.items())
    need(shape(keys) == shape(c) == shape(pars), "shape of key/parameter trees")
    need([(gen.snap(p), gen.deep(p)) for p in prims] == psnap and gen.snap(c) == csnap,
         "evaluation changed a primitive or the construction")


def c08_shared_prim(rng):
    """The same primitive object at several argument positions, paths below arguments."""
    c = gen.construction(rng, (pr.Quadrilateral, pr.Quadrilateral, pr.Point), depth=2)
    q = gen.quad(rng)
    prims = (q, q, q["Line0"]["Point1"])
    params = tuple(gen.num(rng) for _ in c.signature.param_types)
    got = np.asarray(c(prims, *params), float)
    want = gen.eval_construction(c, prims, params)
    need(close(got, want), "value with repeated primitives", got=got, want=want)


def c08_bad_prefix(rng):
    sig = con.ConstructionSignature((pr.Point,), (), 0)
    leaf = con.Coordinate()

    class T(con.ConstructionNode):
        @classmethod
        def assem(cls, prims):
            return np.array([])
    t = T(con.ConstructionValue((("p0",),), lambda p: ((),), sig), {"a": leaf})
    r = raises(Exception, t, (gen.point(rng),))
    need(r is None, f"argument path without 'arg' prefix accepted: {r}")


C08 = [Case("call", c08_call, 80, 900), Case("shared", c08_shared_prim, 20, 200),
       Case("bad prefix", c08_bad_prefix, 1, 1)]


# ---- C09 ------------------------------------------------------------------------------

class SubPoint(pr.Point):
    pass


class SubLine(pr.Line):
    pass


def inst(rng, t):
    if t in (pr.Point, SubPoint):
        return t(np.array([gen.num(rng), gen.num(rng)]))
    if t in (pr.Line, SubLine):
        return t(None, (gen.point(rng), gen.point(rng)))
    return gen.make_prim(rng, t)


ALLT = [pr.Point, SubPoint, pr.Line, SubLine, pr.Quadrilateral, pr.PrimitiveNode]


def c09_calls(rng):
    log = []
    types = tuple(rng.choice([pr.Point, pr.Line, pr.Quadrilateral, pr.Polygon, pr.PrimitiveNode])
                  for _ in range(rng.randrange(0, 4)))
    nparam = rng.randrange(0, 3)

    class Sub(con.ConstructionNode):
        @classmethod
        def assem(cls, prims, *params):
            log.append("child")
            return np.array([1.])
    child = Sub(con.ConstructionValue((), lambda p: (), con.ConstructionSignature((), (), 1)), {})

    class T(con.ConstructionNode):
        @classmethod
        def assem(cls, prims, *params):
            log.append((prims, params))
            return np.array([1.])
    t = T(con.ConstructionValue(((),), lambda p: ((),),
                                con.ConstructionSignature(types, nparam * (float,), 1)), {"c": child})
    given = [rng.choice([x for x in ALLT if issubclass(x, ty)] or [ty]) for ty in types]
    if rng.random() < 0.5 and given:
        i = rng.randrange(len(given))
        given[i] = rng.choice(ALLT)
    if rng.random() < 0.3:
        given = rng.choice([given + [rng.choice(ALLT)], given[:-1]])
    prims = tuple(inst(rng, g) for g in given)
    np_given = rng.choice([nparam] * 4 + [nparam + 1, max(nparam - 1, 0)])
    params = tuple(range(np_given))
    ok = (len(prims) == len(types) and all(isinstance(p, x) for p, x in zip(prims, types))
          and np_given == nparam)
    call = prims
    shape = rng.choice(["tuple"] * 5 + ["list", "node", "dict", "gen"])
    if shape != "tuple":
        ok = False
        call = {"list": list(prims), "node": prims[0] if prims else None,
                "dict": {i: p for i, p in enumerate(prims)}, "gen": (p for p in prims)}[shape]
    info = dict(types=types, given=given, nparam=nparam, params=params, shape=shape)
    if ok:
        r = np.asarray(t(call, *params))
        need(r.shape == (2,) and len(log) == 2, "well-typed call", **info)
        need(log[0][1] == params and all(a is b for a, b in zip(log[0][0], prims)), "arguments", **info)
    else:
        bad = raises(TypeError, t, call, *params)
        need(bad is None, f"ill-typed call should raise TypeError: {bad}", **info)
        need(log == [], "an ill-typed call evaluated something", **info)


def c09_create(rng):
    kinds = []
    kids, pk = {}, []
    n = rng.randrange(0, 5)
    for i in range(n):
        m = rng.randrange(0, 3)
        kids[f"k{i}"] = gen.construction(rng, tuple(pr.Point for _ in range(m)), 0, 0)
        pk.append(tuple(f"arg{rng.randrange(2)}" for _ in range(m)))
    ok = True
    mode = rng.choice(["ok", "len+", "len-", "more", "less", "swap"])
    if mode == "len+":
        pk.append(())
        ok = False
    elif mode == "len-" and n:
        pk.pop()
        ok = False
    elif mode in ("more", "less") and n:
        i = rng.randrange(n)
        if mode == "more":
            pk[i] = pk[i] + ("arg0",)
            ok = False
        elif pk[i]:
            pk[i] = pk[i][:-1]
            ok = False
    elif mode == "swap" and n > 1:
        i, j = rng.sample(range(n), 2)
        if len(pk[i]) != len(pk[j]):
            ok = False
        pk[i], pk[j] = pk[j], pk[i]
    pk = rng.choice([tuple, list])(pk)
    val = con.ConstructionValue(pk, lambda p: tuple(() for _ in kids),
                                con.ConstructionSignature((pr.Point, pr.Point), (), 0))
    if ok:
        c = con.ConstructionNode(val, dict(kids))
        need(c.value is val and list(c.children) == list(kids), "value and children")
    else:
        bad = raises(ValueError, con.ConstructionNode, val, dict(kids))
        need(bad is None, f"mismatched construction should raise ValueError: {bad}", mode=mode, pk=pk)


def c09_shipped(rng):
    """The shipped constructions and constraints reject and accept by their own signatures."""
    made = [con.Coordinate(), con.XDistance(), con.Length(), con.Angle(), con.Width(), con.OuterMargin(),
            con.AspectRatio(), cr.Fix(), cr.Coincident(), cr.Box(), cr.AlignRow(),
            cr.OuterMargin(side="left"), cr.RelativeLength(), cr.Collinear(), cr.Vertical(),
            cr.MidpointXDistance(), cr.CoincidentOutwardFaces(side="left"), cr.Grid(shape=(1, 2)),
            cr.RectilinearGrid(shape=(2, 1)), cr.PositionXAxis(), cr.OuterMarginArray(shape=3, side="left")]
    c = made[rng.k % len(made)]
    types = c.signature.prim_types
    npar = len(c.signature.param_types)
    pars = (np.zeros(2),) * npar
    prims = tuple(gen.make_prim(rng, t) for t in types)
    for bad in (list(prims), prims[:-1], prims + (gen.point(rng),),
                prims[:-1] + (pr.PrimitiveNode(np.array([]), {}),)):
        r = raises(TypeError, c, bad, *pars)
        need(r is None, f"{type(c).__name__}: ill-typed call should raise TypeError: {r}",
             given=[type(p) for p in bad], as_type=type(bad))
    for p in (pars + (0.,), pars[:-1] if npar else (1, 2)):
        r = raises(TypeError, c, prims, *p)
        need(r is None, f"{type(c).__name__}: wrong parameter count should raise TypeError: {r}", n=len(p))


C09 = [Case("calls", c09_calls, 150, 1500), Case("create", c09_create, 300, 3000),
       Case("shipped", c09_shipped, 21, 42)]


# ---- C10 ------------------------------------------------------------------------------

def args_for(rng, c):
    prims = tuple(gen.make_prim(rng, t) for t in c.signature.prim_types)
    params = tuple(gen.num(rng) for _ in c.signature.param_types)
    return prims, params


def pair(rng, depth=None, **kw):
    shape = gen.rand_shape(rng, rng.randrange(0, 4) if depth is None else depth, 3)
    return [gen.construction(rng, tuple(rng.choice(gen.PRIM_TYPES) for _ in range(rng.randrange(0, 3))),
                             shape=shape, gen_params=False, **kw) for _ in range(2)]


def val(c, prims, params):
    return np.asarray(c(prims, *params), float)


def check_val(c, prims, params, want, what, **info):
    got = val(c, prims, params)
    need(close(got, want, 1e-7), f"{what}: {got} instead of {want}", params=params, **info)


def c10_sum(rng):
    a, b = pair(rng)
    (pa, qa), (pb, qb) = args_for(rng, a), args_for(rng, b)
    want = val(a, pa, qa) + val(b, pb, qb)
    s = rng.choice([lambda: a + b, lambda: con.transform_sum(a, b)])()
    check_val(s, pa + pb, qa + qb, want, "sum",
              keys=[n.value.child_prim_keys for n in gen.all_nodes(s)])
    need(s.signature.prim_types == a.signature.prim_types + b.signature.prim_types
         and len(s.signature.param_types) == len(qa) + len(qb), "signature of a sum")
    check_val(a, pa, qa, want - val(b, pb, qb), "first term after summing")


def c10_sum3(rng):
    a, b = pair(rng, 2)
    (pa, qa), (pb, qb) = args_for(rng, a), args_for(rng, b)
    check_val((a + b) + a, pa + pb + pa, qa + qb + qa, 2 * val(a, pa, qa) + val(b, pb, qb), "sum of three")
    check_val(a + (b + a), pa + pb + pa, qa + qb + qa, 2 * val(a, pa, qa) + val(b, pb, qb), "sum of three")
    check_val((a * 2.0) + (-b), pa + pb, qa + qb, 2 * val(a, pa, qa) - val(b, pb, qb), "2a - b")


def c10_scale(rng):
    a, _ = pair(rng)
    pa, qa = args_for(rng, a)
    v = val(a, pa, qa)
    x = rng.choice([2, -3, 0.5, -1.25, 4.0, 1, np.float64(1.5), 0])
    check_val(a * x, pa, qa, v * x, f"construction * {x!r}")
    check_val(x * a if not isinstance(x, np.floating) else a * x, pa, qa, v * x, f"{x!r} * construction")
    check_val(-a, pa, qa, -v, "negation")
    if x != 0:
        check_val(a / x, pa, qa, v / x, f"construction / {x!r}")
    y = gen.num(rng, zero=False)
    check_val(a * con.Scalar(), pa, qa + (y,), v * y, "construction * Scalar")
    check_val(con.Scalar() * a, pa, qa + (y,), v * y, "Scalar * construction")
    check_val(a / con.Scalar(), pa, qa + (y,), v / y, "construction / Scalar")
    check_val((a * con.Scalar()) * con.Scalar(), pa, qa + (y, 3.), v * y * 3, "two scalars")


def c10_pow(rng):
    a, _ = pair(rng, positive=True)
    prims = tuple(gen.make_prim(rng, t) for t in a.signature.prim_types)
    params = tuple(abs(gen.num(rng)) for _ in a.signature.param_types)
    v = val(a, prims, params)
    x = rng.choice([2, 3, 0.5, -1, 1.0, 0, -0.5])
    check_val(a ** x, prims, params, v ** x, f"construction ** {x!r}")
    y = rng.choice([2.0, 0.5, -1.0])
    check_val(a ** con.Scalar(), prims, params + (y,), v ** y, "construction ** Scalar")


def c10_scalar(rng):
    x, y = gen.num(rng, zero=False), rng.choice([2, 0.5, -1.5, 3.0])
    s = con.Scalar()
    check_val(s * y, (), (x,), [x * y], "Scalar * number")
    check_val(y * s, (), (x,), [x * y], "number * Scalar")
    check_val(s / y, (), (x,), [x / y], "Scalar / number")
    check_val(-s, (), (x,), [-x], "-Scalar")
    check_val(s ** 2, (), (x,), [x ** 2], "Scalar ** 2")
    check_val(s + s, (), (x, y), [x + y], "Scalar + Scalar")


def c10_partial(rng):
    a = gen.construction(rng, nparams=rng.randrange(0, 4), depth=rng.randrange(0, 4))
    pa, qa = args_for(rng, a)
    n = rng.randrange(0, len(qa) + 1)
    p = con.transform_partial(a, *qa[len(qa) - n:])
    need(len(p.signature.param_types) == len(qa) - n, "parameters of a partial", n=n)
    check_val(p, pa, qa[:len(qa) - n], val(a, pa, qa), f"freezing {n} of {len(qa)} parameters")
    if n < len(qa):
        m = rng.randrange(0, len(qa) - n + 1)
        rest = qa[:len(qa) - n]
        p2 = con.transform_partial(p, *rest[len(rest) - m:])
        check_val(p2, pa, rest[:len(rest) - m], val(a, pa, qa), "freezing twice")


def c10_shipped(rng):
    q, r = gen.quad(rng), gen.quad(rng)
    w, m = con.Width(), con.OuterMargin(side="right")
    check_val(w + con.Width(), (q, r), (), val(w, (q,), ()) + val(w, (r,), ()), "Width + Width")
    check_val(con.Length() + con.YLength(), (q["Line0"], r["Line1"]), (),
              val(con.Length(), (q["Line0"],), ()) + val(con.YLength(), (r["Line1"],), ()), "Length + YLength")
    check_val(3 * m, (q, r), (), 3 * val(m, (q, r), ()), "3 * OuterMargin")
    f = cr.Fix()
    p = gen.point(rng)
    t = np.array([gen.num(rng), gen.num(rng)])
    check_val(con.transform_partial(f, t), (p,), (), xy(p) - t, "Fix with frozen target")
    d = con.DirectedLength()
    check_val(d * con.Scalar(), (q["Line0"],), (t, 2.), 2 * val(d, (q["Line0"],), (t,)), "directed * Scalar")
    check_val(con.transform_partial(cr.Box(), ), (q,), (), val(cr.Box(), (q,), ()), "Box partial")


def c10_chunk(rng):
    n = rng.randrange(0, 6)
    sizes = [rng.randrange(0, 4) for _ in range(n)]
    arr = list(range(sum(sizes) + rng.randrange(0, 3)))
    arr = rng.choice([list, tuple, np.array])(arr)
    got = [list(x) for x in con.chunk(arr, sizes)]
    out, s = [], 0
    for z in sizes:
        out.append(list(arr[s:s + z]))
        s += z
    need(got == out, "chunk", array=arr, sizes=sizes, got=got, want=out)


C10 = [Case("sum", c10_sum, 60, 600), Case("sum3", c10_sum3, 15, 150), Case("scale", c10_scale, 25, 250),
       Case("pow", c10_pow, 25, 250), Case("scalar", c10_scalar, 8, 40), Case("partial", c10_partial, 60, 600),
       Case("shipped", c10_shipped, 6, 40), Case("chunk", c10_chunk, 60, 600)]


# ---- C11 ------------------------------------------------------------------------------

def c11_map(rng):
    m = rng.choice([0, 1, 1, 2, 2, 3])
    types = tuple(rng.choice(gen.PRIM_TYPES) for _ in range(m + 1))
    npar = rng.randrange(0, 3)
    c = gen.construction(rng, types, npar, depth=rng.randrange(0, 3), gen_params=True)
    n = rng.choice([m, m + 1, m + 2, m + 3, m + 5, 10, 11, 12, 12])
    cnt = n - m
    ptypes = tuple([types[0]] * cnt) + types[1:]
    t = con.transform_map(c, ptypes if rng.random() < .5 else list(ptypes))
    prims = tuple(gen.make_prim(rng, x) for x in ptypes)
    pars = tuple(gen.num(rng) for _ in range(cnt * npar))
    want = [val(c, (prims[i],) + prims[n - m:], pars[i * npar:(i + 1) * npar]) for i in range(cnt)]
    want = np.concatenate(want) if want else np.array([])
    need(tuple(t.signature.prim_types) == ptypes and len(t.signature.param_types) == cnt * npar,
         "signature of a map", got=t.signature)
    check_val(t, prims, pars, want, f"map over {n} primitives with {m} fixed", M=m, N=n)


def c11_target(rng):
    c = gen.construction(rng, depth=rng.randrange(0, 4), gen_params=rng.random() < .5)
    pa, qa = args_for(rng, c)
    v = val(c, pa, qa)
    k = con.transform_constraint(c)
    size = gen.total_size(c)
    need(v.shape == (size,), "oracle")
    target = np.array([gen.num(rng) for _ in range(size)])
    check_val(k, pa, qa + (target,), v - target, "constraint with a vector target")
    if rng.random() < 0.4:
        check_val(k, pa, qa + (jnp.array(target),), v - target, "constraint with a jax vector target")
    x = rng.choice([2, -1.5, 0, np.float64(2.5), np.int64(3), np.array(1.5), np.float32(0.5),
                    jnp.array(2.0), jnp.array(3)])
    check_val(k, pa, qa + (x,), v - float(x), f"constraint with the number {x!r} ({type(x).__name__})")
    need(len(k.signature.param_types) == len(qa) + 1, "parameters of a constraint")
    check_val(c, pa, qa, v, "the construction itself, afterwards")


def c11_shipped(rng):
    p, q = gen.quad(rng), gen.quad(rng)
    l, m = p["Line0"], q["Line1"]
    t = gen.num(rng)
    tv = np.array([gen.num(rng), gen.num(rng)])
    for c, prims, pars, target in [
            (con.Coordinate(), (gen.point(rng),), (), tv), (con.Width(), (p,), (), t),
            (con.Length(), (l,), (), t), (con.LineVector(), (l,), (), tv), (con.Angle(), (l, m), (), t),
            (con.OuterMargin(side="top"), (p, q), (), t), (con.DirectedLength(), (l,), (tv,), t),
            (con.PointOnLineDistance(), (gen.point(rng), l), (True,), t)]:
        want = val(c, prims, pars) - target
        check_val(con.transform_constraint(c), prims, pars + (target,), want, type(c).__name__)
    # constraints made from constraints: every shipped construction is as large as it declares
    for c, prims, pars in [
            (cr.CoincidentLines(), (l, m), (rng.random() < .5,)), (cr.CoincidentOutwardFaces(side="left"), (p, q), ()),
            (cr.Box(), (p,), ()), (cr.Parallel(), (l, m), ()), (cr.Collinear(), (l, m), ()), (cr.Fix(), (gen.point(rng),), (tv,)),
            (cr.AlignColumn(), (p, q), ()), (cr.Coincident(), (gen.point(rng), gen.point(rng)), ()),
            (cr.RectilinearGrid((1, 2)), (p, q), ())]:
        w = val(c, prims, pars)
        need(w.size == gen.total_size(c), "declared size of a shipped construction", kind=type(c).__name__,
             declared=gen.total_size(c), got=w.size)
        tg = np.array([gen.num(rng) for _ in range(w.size)])
        check_val(con.transform_constraint(c), prims, pars + (t,), w - t, type(c).__name__ + " (number target)")
        if w.size > 1:
            check_val(con.transform_constraint(c), prims, pars + (tg,), w - tg, type(c).__name__ + " (vector target)")
    n = rng.randrange(2, 5)
    quads = tuple(gen.quad(rng) for _ in range(n))
    mp = con.transform_map(cr.AlignRow(), n * (pr.Quadrilateral,))
    want = np.concatenate([val(cr.AlignRow(), (a, quads[-1]), ()) for a in quads[:-1]])
    check_val(mp, quads, (), want, "map of AlignRow")
    mp = con.transform_map(cr.RelativeLength(), n * (pr.Line,))
    ls = tuple(x["Line0"] for x in quads)
    ps = tuple(gen.num(rng) for _ in range(n - 1))
    want = np.concatenate([val(cr.RelativeLength(), (a, ls[-1]), (x,)) for a, x in zip(ls[:-1], ps)])
    check_val(mp, ls, ps, want, "map of RelativeLength")
    mw = con.transform_constraint(con.transform_map(con.Width(), n * (pr.Quadrilateral,)))
    tg = np.array([gen.num(rng) for _ in range(n)])
    check_val(mw, quads, (tg,), np.array([(side(x, 0)[1] - side(x, 0)[0])[0] for x in quads]) - tg,
              "constraint on mapped widths")


def c11_vector(rng):
    """`Vector` gives each node its chunk's tree, whose leaves add up to the vector."""
    n = rng.randrange(1, 5)
    sizes = [rng.randrange(0, 3) for _ in range(n)]
    node = cn.Node(0, {f"k{i}": cn.Node(s, {}) for i, s in enumerate(sizes)})
    v = con.Vector(size_node=node)
    x = np.array([gen.num(rng) for _ in range(sum(sizes))])
    ps = v.child_params((x,))
    got = [np.asarray(p[0]) for p in ps]
    out, s = [], 0
    for z in sizes:
        out.append(x[s:s + z])
        s += z
    need(len(got) == n and all(np.array_equal(a, b) for a, b in zip(got, out)), "chunks of a vector",
         sizes=sizes, got=got, want=out)


C11 = [Case("map", c11_map, 50, 500), Case("target", c11_target, 60, 600),
       Case("shipped", c11_shipped, 4, 40), Case("vector", c11_vector, 30, 200)]
