"""Executable contracts of C16..C19: layouts and the solver."""
from __future__ import annotations

import math
import warnings

import numpy as np
import jax
from matplotlib.figure import Figure

from mpllayout import containers as cn
from mpllayout import primitives as pr
from mpllayout import constructions as con
from mpllayout import constraints as cr
from mpllayout import layout as lay
from mpllayout import solver as so

from . import gen
from .gen import close
from .mpl import real_axis, measured
from .base import Case, Fail, need, raises


# ---- helpers --------------------------------------------------------------------------

def aligned(L, what):
    def go(a, b, c, path):
        ka, kb, kc = list(a.children), list(b.children), list(c.children)
        need(ka == kb == kc, f"{what}: trees differ below {path!r}: {ka} / {kb} / {kc}")
        for k in ka:
            go(a.children[k], b.children[k], c.children[k], path + "/" + k)
    go(L.root_constraint, L.root_prim_keys, L.root_param, "")


def val(v):
    if isinstance(v, tuple):
        return tuple(val(x) for x in v)
    return id(v) if isinstance(v, np.ndarray) else v


def state(L, values=True):
    def go(n):
        return (id(n), type(n), id(n._value), tuple((k, go(c)) for k, c in n.children.items()))
    return tuple(go(t) for t in (L.root_prim, L.root_constraint, L.root_prim_keys, L.root_param))


def flat(n):
    out = [n]
    for c in n.children.values():
        out += flat(c)
    return out


def same_function(L, f, node, prim_keys, params, what):
    """f is the node's residual, on the layout's own arguments at least."""
    try:
        prims = tuple(L.root_prim[k] for k in prim_keys)
        v = np.atleast_1d(np.asarray(node.assem(prims, *params), float))
    except Exception:
        return
    try:
        r = np.asarray(f(prims, *params), float)
    except Exception as e:
        raise Fail(f"{what}: {type(e).__name__}: {e}")
    need(r.shape == v.shape and np.allclose(r, v, equal_nan=True), what, got=r, want=v)


def check_flat(L, what):
    cs, pk, pa = L.flat_constraints()
    want = [flat(t)[1:] for t in (L.root_constraint, L.root_prim_keys, L.root_param)]
    need(len(cs) == len(pk) == len(pa) == len(want[0]), f"{what}: lengths of the flat lists")
    for i, (c, k, p) in enumerate(zip(cs, pk, pa)):
        if hasattr(c, "__self__"):
            need(c.__self__ is want[0][i], f"{what}: flat constraint {i}")
        else:
            same_function(L, c, want[0][i], k, p, f"{what}: flat constraint {i}")
        need(k is want[1][i].value and p is want[2][i].value, f"{what}: flat keys/params {i}", k=k, p=p)


def expect_trees(c, prim_keys, params):
    """Reference: list of (path, prim keys, params) of a constraint and its children."""
    out = []

    def go(c, pk, pa, path):
        out.append((path, pk, pa))
        kids = list(c.value.child_params(pa))
        for (k, ch), cpk, cpa in zip(c.children.items(), c.value.child_prim_keys, kids):
            sel = []
            for s in cpk:
                h, *r = s.split("/", 1)
                sel.append("/".join([pk[int(h[3:])]] + r))
            go(ch, tuple(sel), cpa, path + (k,))
    go(c, prim_keys, params, ())
    return out


POINT_KEYS = ["P0", "P1", "L0/Point0", "L1/Point1", "Q0/Line0/Point0", "Q1/Line2/Point1", "T/L/Point1"]
LINE_KEYS = ["L0", "L1", "Q0/Line0", "Q0/Line1", "Q1/Line3", "T/L"]
QUAD_KEYS = ["Q0", "Q1", "T/Q"]


def base_prims(rng):
    p0, p1 = gen.point(rng), gen.point(rng)
    l0 = gen.line(rng, p0)
    return {"P0": p0, "P1": p1, "L0": l0, "L1": gen.line(rng), "Q0": gen.quad(rng), "Q1": gen.quad(rng),
            "T": pr.PrimitiveNode(np.array([]), {"L": gen.line(rng), "Q": gen.quad(rng)})}


def keys_for(rng, types):
    return tuple(rng.choice({pr.Point: POINT_KEYS, pr.Line: LINE_KEYS, pr.Quadrilateral: QUAD_KEYS}[t])
                 for t in types)


class Compound(con.CompoundConstruction):
    """A two-level test constraint."""
    def __init__(self, depth=1):
        super().__init__(depth=depth)

    @classmethod
    def init_children(cls, depth=1):
        inner = (cr.XLength(), cr.Box(), cr.Fix()) if depth <= 1 else (cr.XLength(), Compound(depth - 1), cr.Fix())
        pk = (("arg1",), ("arg0",) if depth <= 1 else ("arg0", "arg1"), ("arg1/Point0",))

        def child_params(params):
            a, b = params
            return ((a,), () if depth <= 1 else (a, b), (np.array([b, a]),))
        return ("z", "A", "m"), inner, pk, child_params

    @classmethod
    def init_signature(cls, depth=1):
        return con.ConstructionSignature((pr.Quadrilateral, pr.Line), (float, float), 0)


def some_constraint(rng):
    """constraint, parameters"""
    x = lambda: gen.num(rng)
    return rng.choice([
        lambda: (cr.Fix(), (np.array([x(), x()]),)), lambda: (cr.XDistance(), (x(),)),
        lambda: (cr.Coincident(), ()), lambda: (cr.Length(), (abs(x()) + .1,)),
        lambda: (cr.Horizontal(), ()), lambda: (cr.Box(), ()), lambda: (cr.Width(), (x(),)),
        lambda: (cr.Grid((1, 1)), ([], [], [], [])), lambda: (cr.AlignRow(), ()),
        lambda: (cr.OuterMargin(side="left"), (x(),)), lambda: (cr.CoincidentLines(), (True,)),
        lambda: (cr.RectilinearGrid((2, 2)), ()), lambda: (Compound(), (x(), x())),
        lambda: (Compound(2), (x(), x())), lambda: (cr.XAxisThickness(), (None,)),
        lambda: (con.transform_sum(con.XLength(), con.Scalar()), (x(),)),
    ])()


# ---- C16 ------------------------------------------------------------------------------

class Boom(con.CompoundConstruction):
    """Fails when its (grand)child parameters are made."""
    def __init__(self, exc=ValueError, deep=False):
        super().__init__(exc=exc, deep=deep)

    @classmethod
    def init_children(cls, exc=ValueError, deep=False):
        def child_params(params):
            if not deep:
                raise exc("child_params")
            return ((),)
        return ("c",), (Boom(exc) if deep else cr.Fix(),), (("arg0",),), child_params

    @classmethod
    def init_signature(cls, exc=ValueError, deep=False):
        return con.ConstructionSignature((pr.Point,), (), 0)


def bad_addition(rng, L):
    """A call that must fail (any exception)."""
    used = list(L.root_constraint.children)
    some = [k for k, c in L.root_constraint.children.items() if len(c)]
    opts = [
        lambda: L.add_constraint(cr.Fix(), ("nope",), ((0, 0),), "fresh"),
        lambda: L.add_constraint(cr.Fix(), ("L0/nope",), ((0, 0),)),
        lambda: L.add_constraint(cr.Fix(), ("L0",), ((0, 0),), "fresh"),
        lambda: L.add_constraint(cr.Length(), ("Q0",), (1.,)),
        lambda: L.add_constraint(cr.Coincident(), ("P0",), ()),
        lambda: L.add_constraint(cr.Coincident(), ("P0", "P1", "P1"), (), "fresh"),
        lambda: L.add_constraint(cr.Fix(), ("P0",), (), "fresh"),
        lambda: L.add_constraint(cr.Box(), ("Q0",), (1,)),
        lambda: L.add_constraint(cr.Grid((1, 2)), ("Q0", "Q1"), (1, 2, 3, 4), "fresh"),
        lambda: L.add_constraint(Boom(rng.choice([ValueError, TypeError, KeyError, ZeroDivisionError])),
                                 ("P0",), (), rng.choice(["fresh", ""])),
        lambda: L.add_constraint(Boom(rng.choice([ValueError, RuntimeError]), True), ("P1",), (), "fresh"),
        lambda: L.add_constraint(cr.Horizontal(), ("L0",), (), "no/such/path"),
        lambda: L.add_constraint(cr.Horizontal(), ("L0",), (), "a/"),
        lambda: L.add_prim(gen.point(rng), rng.choice(["P0", "Q0", "L0/Point0", "no/way", "T/Q"])),
    ]
    if used:
        k = rng.choice(used)
        opts.append(lambda: L.add_constraint(cr.Horizontal(), ("L0",), (), k))
        opts.append(lambda: L.add_constraint(cr.Horizontal(), ("L0",), (), k + "/x/y"))
        opts.append(lambda: L.add_constraint(Compound(), ("Q0", "L0"), (1., 2.), k))
    if some:
        k = rng.choice(some)
        opts.append(lambda: L.add_constraint(cr.Horizontal(), ("L0",), (), k + "/" + list(L.root_constraint[k].children)[-1]))
    i = rng.randrange(len(opts))
    return i, opts[i]


def c16_history(rng):
    L = lay.Layout()
    b = base_prims(rng)
    if rng.random() < 0.5:
        L.add_prims(b)
    else:
        for k, p in b.items():
            L.add_prim(p, k)
    need(list(L.root_prim.children.items()) == list(b.items()) or
         all(x is y for (_, x), (_, y) in zip(L.root_prim.children.items(), b.items())), "primitives added in order")
    want = []                                    # (key, constraint, prim_keys, params)
    log = []
    for step in range(rng.randrange(2, 14)):
        c = rng.random()
        before = state(L)
        if c < 0.3:
            i, call = bad_addition(rng, L)
            try:
                call()
            except Exception as e:
                log.append(f"bad {i}: {type(e).__name__}")
                need(state(L) == before, f"a failed addition (kind {i}, {type(e).__name__}: {e}) changed the layout",
                     log=log)
            else:
                raise Fail(f"addition of kind {i} should fail", log=log)
        elif c < 0.4:
            d = {}
            for j in range(rng.randrange(1, 5)):
                d[rng.choice([f"new{step}_{j}", "P0", "T/new", "x/y", f"n{step}/"])] = gen.point(rng)
            prims0 = list(L.root_prim.children.items())
            t0 = list(L.root_prim["T"].children.items())
            done = []
            bad = None
            for k in d:
                if k in ("P0", "x/y", f"n{step}/") or (k == "T/new" and any(q == "new" for q, _ in t0)):
                    bad = k
                    break
                done.append(k)
            try:
                L.add_prims(d)
            except KeyError:
                need(bad is not None, "add_prims failed on addable primitives", d=list(d), log=log)
            else:
                need(bad is None, "add_prims accepted an occupied or unreachable key", d=list(d), log=log)
            top = prims0 + [(k, d[k]) for k in done if "/" not in k]
            low = t0 + [("new", d[k]) for k in done if k == "T/new"]
            got = list(L.root_prim.children.items())
            need([k for k, _ in got] == [k for k, _ in top] and all(a is b for (_, a), (_, b) in zip(got, top)),
                 "primitives after add_prims", got=[k for k, _ in got], want=[k for k, _ in top], log=log)
            got = list(L.root_prim["T"].children.items())
            need([k for k, _ in got] == [k for k, _ in low] and all(a is b for (_, a), (_, b) in zip(got, low)),
                 "nested primitives after add_prims", log=log)
            need(state(L)[1:] == before[1:], "add_prims touched the constraints", log=log)
            log.append(f"add_prims {list(d)}")
        else:
            con_, params = some_constraint(rng)
            pk = keys_for(rng, con_.signature.prim_types)
            old = {k: L.root_constraint.children[k] for k in L.root_constraint.children}
            kind = rng.random()
            nested = None
            if kind < 0.45:
                key = ""
            elif kind < 0.85 or not old:
                key = rng.choice([f"k{step}", f"{type(con_).__name__}{rng.randrange(3)}", f"a{step}", f"Z{step}"])
                if key in old:
                    continue
            else:
                nested = rng.choice(list(old))
                key = f"{nested}/sub{step}"
            L.add_constraint(con_, pk, params, *([key] if key or rng.random() < .3 else []))
            log.append(f"add {type(con_).__name__} {key!r}")
            now = list(L.root_constraint.children)
            if nested is not None:
                need(now == list(old), "nested addition changed the top level", log=log)
                need(list(L.root_constraint[nested].children)[-1] == f"sub{step}"
                     and L.root_constraint[key] is con_, "nested addition", log=log)
            else:
                need(now[:-1] == list(old) and L.root_constraint.children[now[-1]] is con_,
                     "the constraint was not appended last", now=now, old=list(old), log=log)
                if key:
                    need(now[-1] == key, "key", log=log)
                key = now[-1]
            for k, c_ in old.items():
                need(L.root_constraint.children[k] is c_, f"existing constraint {k!r} displaced", log=log)
            ref = expect_trees(con_, pk, params)
            for path, rpk, rpa in ref:
                full = "/".join((key,) + path)
                need(L.root_prim_keys[full].value == rpk, f"primitive keys at {full}", log=log,
                     got=L.root_prim_keys[full].value, want=rpk)
                g = L.root_param[full].value
                need(len(g) == len(rpa) and all(np.array_equal(a, b) for a, b in zip(g, rpa)),
                     f"parameters at {full}", got=g, want=rpa, log=log)
            need(state(L)[0] == before[0], "adding a constraint touched the primitives", log=log)
        aligned(L, f"step {step} {log[-1] if log else ''}")
        check_flat(L, f"step {step}")


def c16_unkeyed(rng):
    """Automatic keys against user-chosen keys that look automatic."""
    L = lay.Layout()
    L.add_prims(base_prims(rng))
    given = {}
    names = [f"{n}{i}" for n in ("Horizontal", "Vertical", "Box") for i in range(4)]
    for k in rng.sample(names, rng.randrange(0, 7)):
        c = rng.choice([cr.Horizontal, cr.Vertical])()
        L.add_constraint(c, ("L0",), (), k)
        given[k] = c
    for _ in range(rng.randrange(1, 6)):
        c = rng.choice([cr.Horizontal, cr.Vertical])()
        L.add_constraint(c, ("L1",), ())
        new = [k for k in L.root_constraint.children if k not in given]
        need(len(new) == 1 and L.root_constraint.children[new[0]] is c, "unkeyed addition", new=new)
        n, cls = new[0], type(c).__name__
        need(n.startswith(cls) and n[len(cls):].isdigit(), "automatic key form", key=n)
        given[n] = c
        for k, c_ in given.items():
            need(L.root_constraint.children[k] is c_, f"constraint {k!r} displaced")
        aligned(L, "unkeyed")


def c16_known_shared(rng):
    L = lay.Layout()
    L.add_prims(base_prims(rng))
    c = cr.Box()
    L.add_constraint(c, ("Q0",), (), "A")
    L.add_constraint(c, ("Q1",), (), "B")
    L.add_constraint(cr.Fix(), ("P0",), ((0, 0),), "A/x")
    aligned(L, "one constraint object added under keys A and B, then a constraint added at A/x")


def c16_known_update(rng):
    L = lay.Layout()
    L.add_prims(base_prims(rng))
    M = lay.update_layout_constraints(L, {})
    M.add_constraint(cr.Fix(), ("P0",), ((0, 0),), "A")
    aligned(L, "a constraint added to the result of update_layout_constraints: the original layout")


C16 = [Case("history", c16_history, 60, 800), Case("unkeyed", c16_unkeyed, 30, 300),
       Case("shared constraint object", c16_known_shared, 1, 1, known="C16-K1"),
       Case("layout shared by update", c16_known_update, 1, 1, known="C16-K2")]


# ---- C17 ------------------------------------------------------------------------------

class Nest(con.CompoundConstruction):
    """Thickness constraints at a chosen depth below an Axes constraint."""
    def __init__(self, depth=1, xkey="XAxis", ykey="YAxis"):
        super().__init__(depth=depth, xkey=xkey, ykey=ykey)

    @classmethod
    def init_children(cls, depth=1, xkey="XAxis", ykey="YAxis"):
        if depth == 0:
            def child_params(params):
                return ((params[0],), (None,), (None,), (params[1],))
            return (("a", "x", "y", "b"), (cr.Width(), cr.XAxisThickness(), cr.YAxisThickness(), cr.Height()),
                    (("arg0/Frame",), (f"arg0/{xkey}",), (f"arg0/{ykey}",), ("arg0/Frame",)), child_params)

        def child_params(params):
            return (params, ())
        return (("n", "o"), (Nest(depth - 1, xkey, ykey), cr.PositionXAxis()), (("arg0",), ("arg0",)), child_params)

    @classmethod
    def init_signature(cls, depth=1, xkey="XAxis", ykey="YAxis"):
        return con.ConstructionSignature((pr.Axes,), (float, float), 0)


class Opaque(con.LeafConstruction):
    """Not a thickness constraint, although its parameter is None too."""
    @classmethod
    def init_signature(cls):
        return con.ConstructionSignature((pr.Quadrilateral,), (object,), 1)

    @classmethod
    def assem(cls, prims, x):
        return np.zeros(1)


def c17_update(rng):
    L = lay.Layout()
    n = rng.randrange(1, 4)
    names = rng.sample(["Axes0", "AxesMain", "A", "Zed", "Axes10", "Axes1"], n)
    axs, meas = {}, {}
    for nm in names:
        L.add_prim(pr.Axes(None, None, True, True), nm)
        ax, mx, my = real_axis(rng, rng.choice(["bottom", "top"]), rng.choice(["left", "right"]))
        axs[nm] = ax
        meas[nm] = (mx, my)
    deep = "Deep"                                    # named like an axes, quadrilaterals below
    mk = lambda: pr.PrimitiveNode(np.array([]), {"Axes0": gen.quad(rng), "Q": gen.quad(rng)})
    L.add_prim(pr.PrimitiveNode(np.array([]), {"M": pr.PrimitiveNode(np.array([]), {"N": mk()}), "A": mk()}), deep)
    ax, mx, my = real_axis(rng, "top", "right")
    axs[deep], meas[deep] = ax, (mx, my)
    L.add_prims({"Q": gen.quad(rng), "P": gen.point(rng), "L": gen.line(rng)})
    want = {}                                        # path -> (name, axis) of thickness constraints
    order = rng.sample(range(10), rng.randrange(1, 10))
    for i in order:
        nm = rng.choice(names)
        if i == 0:
            L.add_constraint(cr.XAxisThickness(), (f"{nm}/XAxis",), (None,), "t")
            want["t"] = (nm, 0)
        elif i == 1:
            L.add_constraint(cr.YAxisThickness(), (f"{nm}/YAxis",), (None,), "ty")
            want["ty"] = (nm, 1)
        elif i == 2:
            d = rng.randrange(0, 3)
            L.add_constraint(Nest(d), (nm,), (1.5, 2.5), "nest")
            p = "nest" + "/n" * d
            want[p + "/x"] = (nm, 0)
            want[p + "/y"] = (nm, 1)
        elif i == 3:
            L.add_constraint(cr.Fix(), ("P",), (np.array([1., 2.]),))
        elif i == 4:
            L.add_constraint(cr.Width(), (f"{nm}/XAxis",), (2.,), "w")
        elif i == 5:
            L.add_constraint(Opaque(), (f"{nm}/XAxis",), (None,), "none")
        elif i == 6:
            L.add_constraint(cr.PositionYAxis(), (nm,), ())
        elif i in (8, 9):
            q = rng.choice(["M/N/Q", "M/N/Axes0", "A/Axes0", "A/Q"])
            L.add_constraint((cr.XAxisThickness, cr.YAxisThickness)[i - 8](), (f"{deep}/{q}",), (None,), f"deep{i}")
            want[f"deep{i}"] = (deep, i - 8)
        else:
            # the axis thickness of another part of the axes: still the named matplotlib axis
            L.add_constraint(cr.XAxisThickness(), (f"{nm}/Frame",), (None,), "tf")
            want["tf"] = (nm, 0)
    extra = real_axis(rng)[0]
    if rng.random() < 0.3:
        axs["unused"] = extra
    already = rng.random() < 0.25 and want
    if already:
        L = lay.update_layout_constraints(L, {**axs, **{k: extra for k in names}})
    st = state(L)
    M = lay.update_layout_constraints(L, axs)
    need(state(L) == st, "the original layout was modified")
    need(M is not L and M.root_param is not L.root_param, "a new layout is returned")
    aligned(M, "updated layout")

    def go(a, b, path, under):
        need(list(a.children) == list(b.children), f"parameter keys changed below {path}", a=list(a.children), b=list(b.children))
        here = "/".join(path)
        if here in want:
            nm, i = want[here]
            got = b.value
            need(isinstance(got, tuple) and len(got) == 1 and got[0] is (axs[nm].xaxis, axs[nm].yaxis)[i],
                 f"thickness parameter at {here}", got=got, axes=nm)
            k, = b.children.values()
            need(close(float(k.value[0]), meas[nm][i], 1e-6), f"measured thickness below {here}", got=k.value, want=meas[nm][i])
        elif not under:
            need(a.value is b.value or a.value == b.value, f"parameters at {here} changed", was=a.value, now=b.value)
        for k in a.children:
            go(a.children[k], b.children[k], path + (k,), under or here in want)
    go(L.root_param, M.root_param, (), False)

    def same(a, b, path):
        need(list(a.children) == list(b.children) and type(a) is type(b), f"keys/types changed below {path}")
        need(a.value is b.value or np.array_equal(a.value, b.value), f"value at {path} changed")
        for k in a.children:
            same(a.children[k], b.children[k], path + "/" + k)
    same(L.root_prim, M.root_prim, "prims")
    same(L.root_prim_keys, M.root_prim_keys, "prim keys")
    for x, y in zip(flat(L.root_constraint), flat(M.root_constraint)):
        need(x is y or (type(x) is type(y) and x.value is y.value), "constraints changed")
    # the residual sees the measured thickness
    cs, pk, pa = M.flat_constraints()
    res = so.assem_constraint_residual(M.root_prim, cs, pk, pa)
    keys = [k[1:] for k, _ in cn.iter_flat("", M.root_constraint)][1:]
    for p, (nm, i) in want.items():
        j = keys.index(p + "/Height")
        t = M.root_prim[L.root_prim_keys[p].value[0]]
        l = t["Line1" if i == 0 else "Line0"]
        v = np.array(l["Point1"].value) - np.array(l["Point0"].value)
        need(close(np.asarray(res[j]), [v[1 - i] - meas[nm][i]], 1e-6), f"residual at {p}", got=res[j], want=v[1 - i] - meas[nm][i])


def c17_missing(rng):
    """Axes that are not given: the lookup fails, the layout stays as it is."""
    L = lay.Layout()
    L.add_prim(pr.Axes(None, None, True, True), "A")
    L.add_constraint(cr.XAxisThickness(), ("A/XAxis",), (None,))
    st = state(L)
    m = raises(KeyError, lay.update_layout_constraints, L, {"B": real_axis(rng)[0]})
    need(m is None, f"axes without a matching matplotlib axes: {m}")
    need(state(L) == st, "the original layout was modified")


C17 = [Case("update", c17_update, 14, 150), Case("missing", c17_missing, 1, 3)]


# ---- C18 / C19 ------------------------------------------------------------------------

class Ref:
    """The solver's contract computed independently from the layout."""

    def __init__(self, L):
        self.L = L
        self.nodes = flat(L.root_prim)
        self.slots, self.idx = [], []
        ids = {}
        for n in self.nodes:
            i = ids.setdefault(id(n.value), len(self.slots))
            if i == len(self.slots):
                self.slots.append(n.value)
            self.idx.append(i)
        self.off = np.cumsum([0] + [v.size for v in self.slots])
        self.x0 = np.concatenate([np.asarray(v, float) for v in self.slots])

    def build(self, x):
        it = iter(range(len(self.nodes)))

        def go(n):
            i = self.idx[next(it)]
            v = x[self.off[i]:self.off[i + 1]]
            kids = {k: go(c) for k, c in n.children.items()}
            return type(n).from_tree(v, kids)
        return go(self.L.root_prim)

    def residual(self, x):
        root = self.build(x)
        out = []
        for k, c in self.L.root_constraint.children.items():
            out += self._res(root, c, self.L.root_prim_keys.children[k], self.L.root_param.children[k])
        return jax.numpy.concatenate(out)

    def _res(self, root, c, pk, pa):
        prims = []
        for p in pk.value:
            n = root
            for q in p.split("/"):
                n = n.children[q]
            prims.append(n)
        out = [jax.numpy.atleast_1d(c.assem(tuple(prims), *pa.value))]
        for k, ch in c.children.items():
            out += self._res(root, ch, pk.children[k], pa.children[k])
        return out

    def newton(self, abs_tol, rel_tol, max_iter):
        f = jax.jit(self.residual)
        J = jax.jacfwd(self.residual)
        x, xs, errs, rels = self.x0, [self.x0], [], []
        a = r = np.inf
        while a > abs_tol and r > rel_tol and len(errs) < max_iter:
            res, jac = np.asarray(f(x)), np.asarray(J(x))
            x = x + np.linalg.lstsq(jac, -res, rcond=None)[0]
            a = float(np.linalg.norm(res))
            errs.append(a)
            r = a / errs[0] if errs[0] else math.nan
            rels.append(r)
            xs.append(x)
        return x, errs, rels, xs

    def vector(self, root):
        """Parameter vector of a returned tree; checks that shared slots agree and are shared."""
        got = flat(root)
        need(len(got) == len(self.nodes), "number of primitives")
        x = np.full(int(self.off[-1]), np.nan)
        seen = {}
        for n, m, i in zip(self.nodes, got, self.idx):
            need(type(n) is type(m) and list(n.children) == list(m.children), "types, keys or order of the returned tree",
                 was=(type(n), list(n.children)), now=(type(m), list(m.children)))
            need(np.shape(m.value) == np.shape(n.value), "shape of a returned value")
            need(isinstance(m.value, np.ndarray), "returned values are numpy arrays", got=type(m.value))
            if i in seen:
                need(m.value is seen[i], "primitives that shared a parameter vector no longer share it")
            else:
                need(not any(m.value is v for v in seen.values()), "unrelated primitives share a parameter vector")
            seen[i] = m.value
            x[self.off[i]:self.off[i + 1]] = m.value
        return x


def frozen(L):
    return state(L), [np.array(n.value) for n in flat(L.root_prim)], \
        [n.value for n in flat(L.root_param)], [n.value for n in flat(L.root_prim_keys)]


def thawed(L, fr):
    s, v, a, b = fr
    need(state(L) == s, "the layout was modified")
    for n, w in zip(flat(L.root_prim), v):
        need(np.array_equal(np.asarray(n.value), w), "a primitive's parameters were modified", was=w, now=n.value)
    need([n.value for n in flat(L.root_param)] == a if all(not isinstance(q, np.ndarray) for t in a if t for q in t) else True,
         "parameters modified")
    need([n.value for n in flat(L.root_prim_keys)] == b, "primitive keys modified")


def solver_layout(rng, affine=False):
    """A layout with shared points, shared primitives, nested primitives, nested constraints."""
    L = lay.Layout()
    p = [gen.point(rng) for _ in range(4)]
    l = gen.line(rng, p[0])
    q = gen.quad(rng)
    d = {"Z": p[1], "P0": p[0], "P1": p[2], "L0": l, "Line": pr.Line(prims=(p[2], p[1])), "Q0": q, "Q1": gen.quad(rng),
         "T": pr.PrimitiveNode(np.array([]), {"L": gen.line(rng), "Q": gen.quad(rng), "P": p[3]}), "again": p[3],
         "Poly": pr.Polygon(None, [p[0], p[1], p[2]])}
    ks = list(d)
    rng.shuffle(ks)
    keep = [k for k in ks if k in ("P0", "L0", "Q0") or rng.random() < .6]
    for k in keep:
        L.add_prim(d[k], k)
    pts = [k for k in ("P0", "P1", "Z", "again") if k in keep] + ["L0/Point0", "L0/Point1", "Q0/Line1/Point1"] \
        + (["T/P", "T/L/Point0"] if "T" in keep else []) + (["Poly/Line1/Point0"] if "Poly" in keep else [])
    lines = ["L0", "Q0/Line0", "Q0/Line3"] + (["T/L", "T/Q/Line2"] if "T" in keep else []) \
        + (["Line"] if "Line" in keep else [])
    quads = ["Q0"] + (["Q1"] if "Q1" in keep else []) + (["T/Q"] if "T" in keep else [])
    pool = {pr.Point: pts, pr.Line: lines, pr.Quadrilateral: quads}
    x = lambda: gen.num(rng)
    opts = [lambda: (cr.Fix(), (np.array([x(), x()]),)), lambda: (cr.XDistance(), (x(),)), lambda: (cr.YDistance(), (x(),)),
            lambda: (cr.Coincident(), ()), lambda: (cr.XLength(), (x(),)), lambda: (cr.Horizontal(), ()),
            lambda: (cr.Vertical(), ()), lambda: (cr.Box(), ()), lambda: (cr.MidpointXDistance(), (x(),)),
            lambda: (cr.DirectedLength(), (np.array([1., .5]), x())), lambda: (cr.CoincidentLines(), (rng.random() < .5,)),
            lambda: (cr.AlignRow(), ()), lambda: (cr.XAxisThickness(), (None,)), lambda: (Compound(), (x(), x()))]
    if not affine:
        opts += [lambda: (cr.Length(), (abs(x()) + .5,)), lambda: (cr.Angle(), (rng.uniform(-2, 2),)),
                 lambda: (cr.Orthogonal(), ()), lambda: (cr.RelativeLength(), (abs(x()),)), lambda: (cr.Parallel(), ()),
                 lambda: (cr.PointOnLineDistance(), (rng.random() < .5, x()))]
    n = rng.randrange(1, 6)
    for _ in range(n):
        c, pa = rng.choice(opts)()
        L.add_constraint(c, tuple(rng.choice(pool[t]) for t in c.signature.prim_types), pa,
                         *([] if rng.random() < .6 else [f"c{rng.random()}"]))
    return L


def same_list(a, b, what, **kw):
    need(len(a) == len(b), f"{what}: {len(a)} entries, expected {len(b)}", got=a, want=b, **kw)
    for x, y in zip(a, b):
        x, y = float(x), float(y)
        need((math.isnan(x) and math.isnan(y)) or abs(x - y) <= 1e-6 * (1 + abs(y)), what, got=a, want=b, **kw)


def c18_newton(rng):
    L = solver_layout(rng)
    ref = Ref(L)
    at, rt = rng.choice([(1e-10, 1e-7), (1e-3, 1e-12), (0.0, 0.0), (1e-12, 0.3), (5.0, 0.01), (1e3, 1e-9), (1e-10, 2.0)])
    it = rng.choice([0, 1, 2, 3, 10])
    fr = frozen(L)
    with warnings.catch_warnings():
        warnings.simplefilter("error" if rng.random() < .0 else "ignore")
        got, info = so.solve(L, at, rt, it) if rng.random() < .5 else \
            so.solve(L, abs_tol=at, rel_tol=rt, max_iter=it, method="newton")
        thawed(L, fr)
        x, errs, rels, xs = ref.newton(at, rt, it)
    need(set(info) == {"abs_errs", "rel_errs"}, "solver info", info=info)
    y = ref.vector(got)
    for n in flat(got):
        for m in flat(L.root_prim):
            need(n is not m, "the returned tree shares a node with the layout")
            if m.value.size:
                need(not np.shares_memory(n.value, np.asarray(m.value)), "the returned tree shares memory with the layout")
    # near rank-deficient or diverging iterations amplify rounding: compare while it is stable
    stable = all(np.all(np.isfinite(v)) and np.max(np.abs(v), initial=0) < 1e4 for v in xs) and \
        stable_steps(ref, xs)
    if stable:
        # a residual near the tolerance (rounding) can shift the stopping point
        if not any(at / 10 < e < at * 10 for e in errs) and not any(rt / 10 < r < rt * 10 for r in rels) and \
                not any(0 < e < 1e-13 for e in errs[1:]) and (at > 0 or it <= 3):
            same_list(info["abs_errs"], errs, "abs_errs") if max(errs, default=0) < 1e6 else None
            m = [i for i, e in enumerate(errs) if e > 1e-12]
            if errs and errs[0] > 1e-9:
                same_list(info["rel_errs"], rels, "rel_errs")
            need(close(y, x, 1e-5), "returned parameters", got=y, want=x, keys=L.root_constraint.keys())
    else:
        need(len(info["abs_errs"]) <= it and len(info["rel_errs"]) == len(info["abs_errs"]), "number of iterations")
        if it:
            need(abs(info["abs_errs"][0] - errs[0]) <= 1e-6 * (1 + errs[0]), "first residual norm", got=info["abs_errs"], want=errs)
    if it == 0:
        need(np.array_equal(y, ref.x0), "no iterations: the parameters stay", got=y, want=ref.x0)


def stable_steps(ref, xs):
    """True when no step's least-squares problem is close to a rank change."""
    J = jax.jacfwd(ref.residual)
    for x in xs[:-1]:
        s = np.linalg.svd(np.asarray(J(x)), compute_uv=False)
        if not np.all(np.isfinite(s)) or s.size == 0 or s[0] == 0:
            continue
        if np.any((s / s[0] > 1e-17 * 0 + 1e-18) & (s / s[0] < 1e-4) & (s / s[0] > 1e-14)):
            return False
        if np.any((s / s[0] <= 1e-14) & (s / s[0] > 1e-16 * 0 + 3e-15)):
            return False
    return True


def c18_residual(rng):
    """assem_constraint_residual and flat_constraints: depth-first, each at its own primitives."""
    L = solver_layout(rng)
    ref = Ref(L)
    x = ref.x0 + np.array([gen.num(rng) for _ in ref.x0])
    root = ref.build(x)
    r = so.assem_constraint_residual(root, *L.flat_constraints())
    need(len(r) == len(flat(L.root_constraint)) - 1, "number of residuals")
    need(close(np.concatenate([np.asarray(q) for q in r]), np.asarray(ref.residual(x)), 1e-9), "residual")
    for q, c in zip(r, flat(L.root_constraint)[1:]):
        need(np.shape(q) == (c.signature.value_size,), "residual shape", got=np.shape(q))


def c18_stop(rng):
    """The stopping rule on a scalar-like problem with a known, slow iteration."""
    L = lay.Layout()
    L.add_prim(pr.Line(prims=(pr.Point(np.array([0., 0.])), pr.Point(np.array([rng.uniform(2, 9), 0.])))), "L")
    L.add_constraint(cr.Fix(), ("L/Point0",), (np.array([0., 0.]),))
    L.add_constraint(cr.Horizontal(), ("L",), ())
    L.add_constraint(sq(), ("L",), (rng.choice([0.0, 1.0, 4.0]),))
    at = rng.choice([1e-10, 1e-2, 0.5, 3.0, 100.0])
    rt = rng.choice([1e-7, 1e-2, 0.3, 0.9, 1.0])
    it = rng.choice([1, 2, 5, 10, 40])
    ref = Ref(L)
    got, info = so.solve(L, at, rt, it)
    x, errs, rels, _ = ref.newton(at, rt, it)
    same_list(info["abs_errs"], errs, "abs_errs", tol=(at, rt, it))
    same_list(info["rel_errs"], rels, "rel_errs", tol=(at, rt, it))
    need(close(ref.vector(got), x, 1e-7), "returned parameters")


def sq():
    """Squared x-length: Newton on a double root converges linearly."""
    return con.transform_sum(con.transform_scalar_pow(con.XLength(), 2.0), con.transform_scalar_mul(con.Scalar(), -1.0))


def c18_minimize(rng):
    L = solver_layout(rng)
    ref = Ref(L)
    at, rt = rng.choice([(1e-10, 1e-7), (1e-2, 1e-9), (1e-12, 0.3)])
    it = rng.choice([1, 3, 25])
    fr = frozen(L)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got, info = so.solve(L, at, rt, it, method="minimize")
    thawed(L, fr)
    y = ref.vector(got)
    f = lambda z: float(np.sum(np.asarray(ref.residual(z)) ** 2))
    a, r = info["abs_errs"], info["rel_errs"]
    need(len(a) == len(r) and len(a) <= it, "number of iterations", info=info)
    if all(np.isfinite(a)) and a:
        same_list(r, [v / a[0] if a[0] else math.nan for v in a], "rel_errs")
        need(abs(f(y) - a[-1]) <= 1e-5 * (1 + abs(a[-1])) or f(y) <= a[-1] + 1e-7, "objective of the returned tree",
             got=f(y), info=info)
        for k, v in enumerate(a[:-1]):
            need(not (v < at or r[k] < rt), "iteration continued past the tolerance", info=info, tol=(at, rt))
    need(f(y) <= f(ref.x0) + 1e-9 + 1e-9 * f(ref.x0), "the objective increased", f0=f(ref.x0), f=f(y))
    if 2 <= len(a) < it and all(np.isfinite(a)) and not (a[-1] < at or r[-1] < rt):
        h = 1e-6
        g = [(f(y + h * e) - f(y - h * e)) / (2 * h) for e in np.eye(len(y))]
        need(a[-2] - a[-1] <= 1e-5 * max(a[-2], 1) or max(map(abs, g)) < 1e-2,
             "minimisation stopped while the objective was falling", info=info)


def c18_method(rng):
    L = solver_layout(rng)
    m = raises(ValueError, so.solve, L, method="other")
    need(m is None, f"unknown method: {m}")


def c18_grow(rng):
    """Iterations whose residual grows before it falls: ratios stay relative to the first."""
    L = lay.Layout()
    x0 = rng.choice([0.05, 0.2, -0.3, 0.01])
    L.add_prim(pr.Line(prims=(pr.Point(np.array([0., 0.])), pr.Point(np.array([x0, 0.])))), "L")
    L.add_constraint(cr.Fix(), ("L/Point0",), (np.array([0., 0.]),))
    L.add_constraint(cr.Horizontal(), ("L",), ())
    L.add_constraint(sq(), ("L",), (rng.choice([1.0, 4.0]),))
    at, rt = rng.choice([(1e-10, 1e-7), (1e-9, 0.5), (1e-3, 1e-2), (1e-12, 0.9)])
    it = rng.choice([3, 6, 40])
    ref = Ref(L)
    got, info = so.solve(L, at, rt, it)
    x, errs, rels, _ = ref.newton(at, rt, it)
    need(max(rels) > 1, "oracle: the residual grows")
    same_list(info["abs_errs"], errs, "abs_errs", tol=(at, rt, it))
    same_list(info["rel_errs"], rels, "rel_errs", tol=(at, rt, it))
    need(close(ref.vector(got), x, 1e-7), "returned parameters")


C18 = [Case("newton", c18_newton, 12, 150), Case("residual", c18_residual, 10, 100), Case("stop", c18_stop, 6, 60),
       Case("grow", c18_grow, 4, 40),
       Case("minimize", c18_minimize, 8, 60), Case("method", c18_method, 1, 1)]


# ---- C19 ------------------------------------------------------------------------------

def solvable_affine(rng):
    """An affine layout with a known solution (targets measured at a second configuration)."""
    L = solver_layout(rng, affine=True)
    ref = Ref(L)
    return L, ref


def c19_affine(rng):
    L = lay.Layout()
    q, r = gen.quad(rng), gen.quad(rng)
    p = gen.point(rng)
    l = gen.line(rng, p)
    for k, v in rng.sample([("Q", q), ("R", r), ("P", p), ("L", l), ("F", gen.point(rng)),
                            ("T", pr.PrimitiveNode(np.array([]), {"L": gen.line(rng)}))], 6):
        L.add_prim(v, k)
    # targets measured on a random satisfying configuration
    w = {k: [gen.num(rng) for _ in range(4)] for k in "QR"}
    sol = {k: gen.box(*v) for k, v in w.items()}
    tp, tl = gen.point(rng), [gen.num(rng), gen.num(rng)]
    wq, hq, wr, hr = sol["Q"], 0, sol["R"], 0
    x = lambda k, i: np.array(sol[k][f"Line{i // 2}"][f"Point{i % 2}"].value)
    both = [
        (cr.Box(), ("Q",), ()), (cr.Box(), ("R",), ()),
        (cr.Width(), ("Q",), (w["Q"][2],)), (cr.Height(), ("R",), (w["R"][3],)),
        (cr.Fix(), ("Q/Line0/Point0",), (np.array(w["Q"][:2]),)),
        (cr.Fix(), ("R/Line1/Point1",), (np.array([w["R"][0] + w["R"][2], w["R"][1] + w["R"][3]]),)),
        (cr.OuterMargin(side="right"), ("Q", "R"), (w["R"][0] - w["Q"][0] - w["Q"][2],)),
        (cr.XDistance(), ("Q/Line0/Point0", "R/Line0/Point0"), (w["R"][0] - w["Q"][0],)),
        (cr.Fix(), ("P",), (np.array(tp.value),)), (cr.XLength(), ("L",), (tl[0],)), (cr.YLength(), ("L",), (tl[1],)),
        (cr.DirectedLength(), ("L",), (np.array([2., -1.]), 2 * tl[0] - tl[1])),
        (cr.YDistance(), ("L/Point0", "L/Point1"), (tl[1],)),
        (cr.Vertical(), ("T/L",), ()), (cr.XLength(), ("Q/Line2",), (-w["Q"][2],)),
        (cr.MidpointYDistance(), ("Q/Line1", "R/Line1"), (w["R"][1] + w["R"][3] / 2 - w["Q"][1] - w["Q"][3] / 2,)),
        (cr.XAxisThickness(), ("Q",), (None,)) if False else (cr.Horizontal(), ("Q/Line0",), ()),
    ]
    cs = rng.sample(both, rng.randrange(1, 9))
    for c, pk, pa in cs:
        L.add_constraint(c, pk, pa)
    ref = Ref(L)
    got, info = so.solve(L, max_iter=1)
    y = ref.vector(got)
    res = np.asarray(ref.residual(y))
    need(bool(np.all(np.abs(res) < 1e-7)), "an affine solvable layout is not solved by one Newton step",
         residual=res, constraints=[(type(c).__name__, pk, pa) for c, pk, pa in cs])
    # minimal motion: the least-squares step moves nothing outside the row space
    J = np.asarray(jax.jacfwd(ref.residual)(ref.x0))
    step = y - ref.x0
    need(close(J @ step, -np.asarray(ref.residual(ref.x0)), 1e-7), "step does not solve the linear system")
    free = np.all(J == 0, axis=0)
    need(bool(np.all(np.abs(step[free]) < 1e-12)), "an unconstrained coordinate moved", step=step)
    # a satisfied layout stays
    M = lay.Layout(got, L.root_constraint, L.root_prim_keys, L.root_param)
    for kw in ({}, {"max_iter": 1}, {"max_iter": 3}):
        again, info = so.solve(M, **kw)
        need(close(Ref(M).vector(again), Ref(M).x0, 1e-9), "a satisfied layout moved", was=y, now=Ref(M).vector(again))


def c19_exact(rng):
    """A layout that satisfies its constraints exactly is returned unchanged, bit for bit."""
    L = lay.Layout()
    L.add_prim(gen.box(rng.randrange(-4, 5), rng.randrange(-4, 5), rng.randrange(1, 5), rng.randrange(1, 5)), "Q")
    L.add_prim(gen.quad(rng), "Free")
    a = np.array(L.root_prim["Q/Line0/Point0"].value)
    b = np.array(L.root_prim["Q/Line1/Point1"].value)
    L.add_constraint(cr.Box(), ("Q",), ())
    L.add_constraint(cr.Fix(), ("Q/Line0/Point0",), (a,))
    L.add_constraint(cr.Width(), ("Q",), (b[0] - a[0],))
    if rng.random() < .5:
        L.add_constraint(cr.Length(), ("Q/Line1",), (b[1] - a[1],))
    ref = Ref(L)
    got, info = so.solve(L, max_iter=rng.choice([0, 1, 5]))
    need(np.array_equal(ref.vector(got), ref.x0), "a satisfied layout changed", was=ref.x0, now=ref.vector(got))


def c19_step(rng):
    """Every iteration moves by a least-squares solution at the current point."""
    L = solver_layout(rng)
    ref = Ref(L)
    J = jax.jacfwd(ref.residual)
    prev = ref.x0
    for it in range(1, rng.choice([2, 4])):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got, info = so.solve(L, 0.0, 0.0, it)
        x = ref.vector(got)
        A, b = np.asarray(J(prev)), -np.asarray(ref.residual(prev))
        if not (np.all(np.isfinite(A)) and np.all(np.isfinite(b))) or len(info["abs_errs"]) < it:
            return
        s = np.linalg.svd(A, compute_uv=False)
        if s.size and s[0] > 0 and np.any((s / s[0] < 1e-6) & (s / s[0] > 1e-15)):
            return
        step = x - prev
        g = A.T @ (A @ step - b)
        scale = 1 + np.linalg.norm(A.T) * (np.linalg.norm(b) + np.linalg.norm(A) * np.linalg.norm(step))
        need(float(np.linalg.norm(g)) <= 1e-6 * scale, "the step is not a least-squares solution", step=step, it=it)
        if np.max(np.abs(x), initial=0) > 1e5:
            return
        prev = x


def c19_weights(rng):
    """Affine constraints of very different weights and at very different scales."""
    L = lay.Layout()
    n = rng.randrange(2, 5)
    dirs = {}
    for i in range(n):
        L.add_prim(gen.line(rng), f"L{i}")
        w = rng.choice([1e-4, 1e-3, 1.0, 1e3, 1e5])
        a, b = rng.uniform(.5, 2), rng.uniform(-2, 2)
        dirs[f"L{i}"] = np.array([w * a, w * b])
        L.add_constraint(cr.DirectedLength(), (f"L{i}",), (dirs[f"L{i}"], w * gen.num(rng)))
        if rng.random() < .5:
            L.add_constraint(cr.XLength(), (f"L{i}",), (gen.num(rng),))
    ref = Ref(L)
    got, info = so.solve(L, max_iter=1)
    y = ref.vector(got)
    J = np.asarray(jax.jacfwd(ref.residual)(ref.x0))
    res = np.asarray(ref.residual(y))
    scale = np.linalg.norm(J, axis=1) * (1 + np.max(np.abs(y)))
    need(bool(np.all(np.abs(res) <= 1e-7 * scale)), "an affine solvable layout is not solved by one Newton step",
         residual=res, rows=J, directions=dirs)


C19 = [Case("affine", c19_affine, 10, 120), Case("exact", c19_exact, 5, 50), Case("step", c19_step, 5, 60),
       Case("weights", c19_weights, 4, 40)]
