SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = '''
import sys
import numpy as np
import mpllayout
from mpllayout import containers as cn, primitives as pr, constructions as con
from mpllayout import constraints as cr, layout as lay, solver

'''

seed("b01-arg-number-one-digit", "C08",
     [("constructions.py", "arg_num = int(arg_prefix[3:])", "arg_num = int(arg_prefix[3:4])")],
     "a construction with more than ten primitive arguments",
     "a child selecting 'arg10' or above is evaluated at 'arg1'",
     PRE + '''
n = 12
pts = [pr.Point(value=np.array([float(i * i), 0.0])) for i in range(n)]
quads = [pr.Quadrilateral(None, tuple(pr.Point(value=np.array(v, float)) for v in
         ((x, 0), (x + 1, 0), (x + 1, 1), (x, 1)))) for x in [i * i for i in range(n)]]
c = cr.OuterMarginArray((n,), "right")
r = np.asarray(c(tuple(quads), *np.zeros(n - 1)))
want = [((i + 1) ** 2 - i * i) - 1 for i in range(n - 1)]
sys.exit(0 if np.allclose(r, want) else 1)
''')

seed("b02-tree-contains-strip", "C01",
     [("containers.py", '''        split_key = key.split("/", 1)
        parent_key, child_keys = split_key[0], split_key[1:]

        try:
            if len(child_keys) == 0:
                return self._get_child_nonrecursive(parent_key)''',
       '''        split_key = key.rstrip("/").split("/", 1)
        parent_key, child_keys = split_key[0], split_key[1:]

        try:
            if len(child_keys) == 0:
                return self._get_child_nonrecursive(parent_key)''')],
     "a path with a trailing slash, below which nothing exists",
     "a path that names no node resolves (to the node without the slash)",
     PRE + '''
leaf = cn.Node(1, {})
root = cn.Node(0, {"a": leaf})
sys.exit(1 if "a/" in root else 0)
''')

seed("b03-key-fresh-in-first-tree-only", "C04",
     [("containers.py", "return all(key_notin_nodes)", "return next(key_notin_nodes, True)")],
     "two trees that do not have the same keys",
     "the generated key is only checked against the first tree",
     PRE + '''
a = cn.Node(0, {})
b = cn.Node(0, {"Node0": cn.Node(1, {}), "Node1": cn.Node(1, {})})
k = cn.ItemCounter().add_item_to_nodes(cn.Node(3, {}), a, b)
sys.exit(0 if k == "Node2" else 1)
''')

seed("b04-axes-origin-after-scaling", "C20",
     [("matplotlibutils.py", "xmax, ymax = (coord_topright-fig_origin) / fig_size",
       "xmax, ymax = coord_topright / fig_size - fig_origin")],
     "a figure quadrilateral away from the origin, with a size that is not 1",
     "the axes rectangle gets a wrong width and height",
     PRE + '''
from mpllayout import matplotlibutils as mu
def quad(x, y, w, h):
    return pr.Quadrilateral(None, tuple(pr.Point(value=np.array(v, float)) for v in
                            ((x, y), (x + w, y), (x + w, y + h), (x, y + h))))
r = mu.rect_from_box(quad(3, 4, 1, 1), np.array([1.0, 2.0]), np.array([4.0, 8.0]))
sys.exit(0 if np.allclose(r, (0.5, 0.25, 0.25, 0.125)) else 1)
''')

seed("b05-thickness-nested-key", "C17",
     [("layout.py", '''            if isinstance(constraint, cr.YAxisThickness):
                axis_key, = prim_keys.value
                axes_key = axis_key.split("/", 1)[0]''',
       '''            if isinstance(constraint, cr.YAxisThickness):
                axis_key, = prim_keys.value
                axes_key = axis_key.rsplit("/", 2)[-2]''')],
     "a y-axis thickness constraint on a primitive nested more than two levels deep",
     "the parameter is looked up by the wrong component of the primitive's key",
     PRE + '''
import matplotlib; matplotlib.use("Agg")
from matplotlib import pyplot as plt
fig = plt.figure()
axs = {"Axes1": fig.add_axes((0, 0, 1, 1)), "Inner": fig.add_axes((0, 0, .5, .5))}
l = lay.Layout()
l.add_prim(pr.PrimitiveNode(np.array([]), {"Inner": pr.Axes(yaxis=True)}), "Axes1")
l.add_constraint(cr.YAxisThickness(), ("Axes1/Inner/YAxis",), (None,), "T")
n = lay.update_layout_constraints(l, axs)
sys.exit(0 if n.root_param["T"].value[0] is axs["Axes1"].yaxis else 1)
''')

seed("b06-relative-error-to-worst", "C18",
     [("solver.py", "rel_err = abs_errs[-1] / abs_errs[0]\n        rel_errs.append(rel_err)\n\n    non",
       "rel_err = abs_errs[-1] / max(abs_errs)\n        rel_errs.append(rel_err)\n\n    non")],
     "a nonlinear layout whose residual grows in some iteration",
     "the relative error is not the ratio to the first residual norm",
     PRE + '''
l = lay.Layout()
l.add_prim(pr.Line(prims=(pr.Point(value=np.array([0.0, 0.0])),
                          pr.Point(value=np.array([0.01, 0.0])))), "L")
l.add_constraint(cr.Length(), ("L",), (1.0,), "len")
l.add_constraint(cr.Fix(), ("L/Point0",), (np.array([0.0, 0.0]),), "fix")
l.add_prim(pr.Line(prims=(pr.Point(value=np.array([0.0, 0.0])),
                          pr.Point(value=np.array([1.0, 0.3])))), "K")
l.add_constraint(cr.Orthogonal(), ("K", "L"), (), "o")
l.add_constraint(cr.Parallel(), ("K", "K"), (), "p")
l.add_constraint(cr.RelativePointOnLineDistance(), ("K/Point0", "L"), (False, 2.0), "q")
_, info = solver.solve(l, max_iter=8)
a, r = np.array(info["abs_errs"]), np.array(info["rel_errs"])
ok = np.allclose(r, a / a[0])
assert a.max() > a[0]
sys.exit(0 if ok else 1)
''')

seed("b07-lstsq-cutoff", "C19",
     [("solver.py", "global_jac, -global_res, rcond=None", "global_jac, -global_res, rcond=1e-2")],
     "a linear layout whose constraints have very different weights",
     "one Newton step leaves a constraint unsatisfied",
     PRE + '''
l = lay.Layout()
l.add_prim(pr.Point(value=np.array([1.0, 1.0])), "P")
l.add_prim(pr.Point(value=np.array([5.0, 7.0])), "Q")
l.add_constraint(cr.DirectedDistance(), ("P", "Q"), (np.array([1.0, 0.0]), 3.0), "a")
l.add_constraint(cr.DirectedDistance(), ("P", "Q"), (np.array([0.0, 1e-4]), 5e-4), "b")
p, _ = solver.solve(l, max_iter=1)
d = np.asarray(p["Q"].value) - np.asarray(p["P"].value)
sys.exit(0 if np.allclose(d, [3, 5], rtol=1e-3) else 1)
''')

seed("b08-map-argument-order", "C11",
     [("constructions.py", """        f"arg{ii}" for ii in range(N-M, N)
    )
    child_prim_keys""", """        sorted(f"arg{ii}" for ii in range(N-M, N))
    )
    child_prim_keys""")],
     "a mapped construction with two constant primitives over more than ten primitives",
     "the remaining arguments are passed in the order of their names (arg10 before arg9)",
     PRE + '''
class C(con.LeafConstruction):
    @classmethod
    def init_signature(cls):
        return con.ConstructionSignature(3 * (pr.Point,), (), 3)
    @classmethod
    def assem(cls, prims):
        return np.array([p.value[0] for p in prims])
N = 11
m = con.transform_map(C(), N * [pr.Point])
pts = tuple(pr.Point(value=np.array([float(i), 0.0])) for i in range(N))
r = np.asarray(m(pts))
want = [x for n in range(N - 2) for x in (n, 9, 10)]
sys.exit(0 if list(r) == want else 1)
''')

seed("b09-label-figure-height", "C21",
     [("constraints.py", '''            dim = fig_height * (axis_bbox.ymax - axes_bbox.ymax)''',
       '''            dim = fig_height * (axis_bbox.ymax - axes_bbox.ymin - axes_bbox.width)''')],
     "an x axis with ticks on top of axes that are not square in figure units",
     "the measured thickness is off by the difference of the axes' width and height",
     PRE + '''
import matplotlib; matplotlib.use("Agg")
from matplotlib import pyplot as plt
fig = plt.figure(figsize=(5, 4))
ax = fig.add_axes((0.2, 0.2, 0.5, 0.3))
ax.xaxis.set_ticks_position("top")
t = cr.get_axis_thickness(ax.xaxis, "top")
bb = ax.xaxis.get_tightbbox().transformed(fig.transFigure.inverted())
sys.exit(0 if np.isclose(t, 4 * (bb.ymax - 0.5)) else 1)
''')

seed("b10-empty-vectors-merged", "C06",
     [("primitives.py", "value_id = id(prim.value)", "value_id = id(prim.value) if prim.value.size else 0")],
     "a tree with several primitives whose parameter vectors are empty",
     "paths that held different (empty) vectors share an entry",
     PRE + '''
root = pr.PrimitiveNode(np.array([]), {"L": pr.Line(), "K": pr.Line()})
g, v = pr.filter_unique_values_from_prim(root)
sys.exit(0 if g["/L"] != g["/K"] and g[""] != g["/L"] else 1)
''')

seed("b11-opacity-below-root", "C22",
     [("ui.py", "prim_height = prim.node_height() + len(split_key) - 1",
       "prim_height = max(prim.node_height(), len(split_key) - 2)")],
     "a primitive that is nested two or more levels deep",
     "the opacity leaves the range from 0.2 to 1",
     PRE + '''
import matplotlib; matplotlib.use("Agg")
from matplotlib import pyplot as plt
from mpllayout import ui
fig, ax = plt.subplots()
p = pr.Point(value=np.array([1.0, 2.0]))
t = pr.PrimitiveNode(np.array([]), {"a": pr.PrimitiveNode(np.array([]), {"b": pr.PrimitiveNode(np.array([]), {"c": p})})})
seen = []
orig = ui.plot_point
ui.plot_point = lambda ax, point, label=None, **kw: seen.append(kw["alpha"])
ui.plot_prim(ax, t, "root")
ok = len(seen) == 1 and all(0.2 - 1e-12 <= a <= 1 for a in seen)
sys.exit(0 if ok else 1)
''')

seed("b12-sum-children-of-second", "C10",
     [("constructions.py", '''        concat_params, split_params = cat_split_params

        class ScalarPowerConstruction(type(cons_a)):''',
       '''        concat_params, split_params = cat_split_params
        if len(child_keys_a) > 0:
            split_params = concatenate_params(signature_b, signature_a)[1]

        class ScalarPowerConstruction(type(cons_a)):''')],
     "raising a construction with children that has parameters of its own to a scalar passed as a parameter",
     "the parameters of the base and the exponent are split at the wrong place",
     PRE + '''
class P(con.CompoundConstruction):
    def __init__(self):
        super().__init__()
    @classmethod
    def init_children(cls):
        def cp(params):
            return (params,)
        return (("D",), (con.transform_sum(con.DirectedDistance(), con.DirectedDistance()),), (("arg0", "arg1", "arg0", "arg1"),), cp)
    @classmethod
    def init_signature(cls):
        return con.ConstructionSignature((pr.Point, pr.Point), (np.ndarray, np.ndarray), 0)
a = pr.Point(value=np.array([0.0, 0.0])); b = pr.Point(value=np.array([2.0, 3.0]))
c = P()
d1, d2 = np.array([1.0, 0.0]), np.array([0.0, 1.0])
r = np.asarray((c ** con.Scalar())((a, b), d1, d2, 2.0))
sys.exit(0 if r.shape == (1,) and np.allclose(r, [25.0]) else 1)
''')

seed("b13-grid-rows-cols", "C14",
     [("constraints.py", '''    strides = shape[1:] + (1,)''', '''    strides = (max(shape[1:] + (1,)),) + shape[2:] + (1,)
    strides = (strides[0] - (shape[0] > shape[-1] + 2),) + strides[1:]''')],
     "a grid with at least three more rows than columns",
     "rows of the grid are made of the wrong quadrilaterals",
     PRE + '''
def quad(x, y, w, h):
    return pr.Quadrilateral(None, tuple(pr.Point(value=np.array(v, float)) for v in
                            ((x, y), (x + w, y), (x + w, y + h), (x, y + h))))
qs = tuple(quad(2 * j, -3 * i, 1, 2) for i in range(5) for j in range(2))
r = np.asarray(cr.RectilinearGrid((5, 2))(qs))
sys.exit(0 if np.allclose(r, 0) else 1)
''')

seed("b14-twin-without-axis", "C05",
     [("primitives.py", """            xaxis_keys = ("XAxis", "XAxisLabel")
            if twinx:
                twin_xaxis_keys = ("TwinXAxis", "TwinXAxisLabel")""",
       """            xaxis_keys = ("XAxis", "XAxisLabel")
        if twinx:
            twin_xaxis_keys = ("TwinXAxis", "TwinXAxisLabel")"""),
      ("primitives.py", """            xaxis_prims = (Quadrilateral(), Point())
            if twinx:
                twin_xaxis_prims = (Quadrilateral(), Point())""",
       """            xaxis_prims = (Quadrilateral(), Point())
        if twinx:
            twin_xaxis_prims = (Quadrilateral(), Point())""")],
     "axes with a twin x axis but no x axis (two sites that fit each other)",
     "twin children are present without the corresponding axis",
     PRE + '''
a = pr.Axes(yaxis=True, twinx=True)
sys.exit(0 if list(a.keys()) == ["Frame", "YAxis", "YAxisLabel"] else 1)
''')

seed("b15-accumulate-grouping", "C03",
     [("containers.py", '''        value = functools.reduce(
            function, [node.value]+[cnode.value for cnode in cnodes.values()]
        )''', '''        value = function(
            node.value,
            functools.reduce(function, [cnode.value for cnode in cnodes.values()])
        )''')],
     "a function that is not associative and a node with two children",
     "the children are folded among themselves first",
     PRE + '''
from mpllayout import containers as cn
t = cn.Node(10, {"a": cn.Node(3, {}), "b": cn.Node(2, {})})
r = cn.accumulate(lambda x, y: x - y, t, 0)
sys.exit(0 if r.value == 5 else 1)
''')

seed("b16-unflatten-leftover", "C02",
     [("containers.py", '''    node = node_type.from_tree(
        value, {key: child for key, child in zip(child_keys, children)}
    )
    return node, node_structs''', '''    node = node_type.from_tree(
        value, {key: child for key, child in zip(child_keys, children)}
    )
    # Entries below this node can only be left over from a pruned subtree
    while len(node_structs) > 0 and node_structs[0][0].startswith(f"{node_key}/"):
        node_structs = node_structs[1:]
    return node, node_structs''')],
     "a list of two trees in which the second one's root key extends the first one's",
     "entries that follow the tree are dropped",
     PRE + '''
from mpllayout import containers as cn
a = cn.Node(1, {"x": cn.Node(2, {})})
b = cn.Node(3, {"y": cn.Node(4, {})})
rest = cn.flatten("A/B", b)
t, left = cn.unflatten(cn.flatten("A", a) + rest)
sys.exit(0 if left == rest and list(t.keys()) == ["x"] else 1)
''')

seed("b17-short-line-direction", "C07",
     [("constructions.py", '''        return line_vec / jnp.linalg.norm(line_vec)''',
       '''        length = jnp.linalg.norm(line_vec)
        return line_vec / jnp.where(length < 1e-6, 1.0, length)''')],
     "a line shorter than a millionth",
     "the unit vector of a very short line is not a unit vector",
     PRE + '''
l = pr.Line(prims=(pr.Point(value=np.array([0.0, 0.0])), pr.Point(value=np.array([3e-7, 4e-7]))))
r = np.asarray(con.UnitLineVector()((l,)))
sys.exit(0 if np.allclose(r, [0.6, 0.8], atol=1e-4) else 1)
''')

seed("b18-collinear-degenerate", "C12",
     [("constraints.py", '''            [Parallel.assem((line0, line1)), Parallel.assem((line0, line2))]''',
       '''            [Parallel.assem((line0, line1)), Parallel.assem((line1, line2))]''')],
     "a second line of zero length away from the first",
     "a point off the line counts as collinear",
     PRE + '''
P = lambda x, y: pr.Point(value=np.array([x, y], float))
a = pr.Line(prims=(P(0, 0), P(2, 0)))
b = pr.Line(prims=(P(1, 1), P(1, 1)))
c = pr.Line(prims=(P(5, 0), P(5, 0)))
r = np.asarray(cr.Collinear()((a, b)))
q = np.asarray(cr.Collinear()((a, c)))
sys.exit(0 if np.abs(r).max() > 1e-3 and np.allclose(q, 0) else 1)
''')

seed("b19-argument-number", "C13",
     [("constructions.py", '''                arg_num = int(arg_prefix[3:])''',
       '''                arg_num = int(arg_prefix[-1])''')],
     "a margin array of more than ten quadrilaterals",
     "margins beyond the tenth are measured between the wrong quadrilaterals",
     PRE + '''
def quad(x, y, w, h):
    return pr.Quadrilateral(None, tuple(pr.Point(value=np.array(v, float)) for v in
                            ((x, y), (x + w, y), (x + w, y + h), (x, y + h))))
x, qs, ms = 0.0, [], []
for n in range(12):
    qs.append(quad(x, 0, 1, 1))
    ms.append(0.5 * (n + 1))
    x += 1 + ms[-1]
r = np.asarray(cr.OuterMarginArray(12, side="right")(tuple(qs), *ms[:-1]))
sys.exit(0 if r.shape == (11,) and np.allclose(r, 0, atol=1e-4) else 1)
''')

seed("b20-aspect-thickness", "C15",
     [("constraints.py", '''        axes_bbox = axis.axes.get_position()
''', '''        axes_bbox = axis.axes.get_position(original=True)
''')],
     "an axes with a fixed aspect ratio, whose drawn rectangle is smaller than the requested one",
     "the thickness is measured from the requested rectangle instead of the drawn one",
     PRE + '''
import matplotlib
matplotlib.use("agg")
from matplotlib.figure import Figure
from matplotlib.backends.backend_agg import FigureCanvasAgg
fig = Figure(figsize=(6, 3))
FigureCanvasAgg(fig)
ax = fig.add_axes((.2, .2, .6, .6))
ax.set_aspect(1)
fig.canvas.draw()
bb, pos = ax.yaxis.get_tightbbox(), ax.get_position()
t = pos.xmin * 6 - bb.xmin / fig.dpi
q = pr.Quadrilateral(None, tuple(pr.Point(value=np.array(v, float)) for v in
                     ((0, 0), (t, 0), (t, 2), (0, 2))))
r = np.asarray(cr.YAxisThickness()((q,), ax.yaxis))
sys.exit(0 if np.allclose(r, 0, atol=1e-4) else 1)
''')

seed("b21-rollback", "C16",
     [("layout.py", '''        self.root_constraint.add_child(key, constraint)
''', '''        try:
            self.root_constraint.add_child(key, constraint)
        except KeyError:
            # Keep the three trees consistent if the constraint can't be added
            for node in nodes:
                node.children.pop(key, None)
            raise
''')],
     "a constraint added under a key that another constraint has already",
     "the addition that fails removes the existing constraint",
     PRE + '''
from mpllayout import layout as lay
L = lay.Layout()
L.add_prim(pr.Line(prims=(pr.Point(value=np.array([0.0, 0.0])), pr.Point(value=np.array([1.0, 1.0])))), "L")
h = cr.Horizontal()
L.add_constraint(h, ("L",), (), key="A")
try:
    L.add_constraint(cr.Vertical(), ("L",), (), key="A")
    sys.exit(1)
except KeyError:
    pass
sys.exit(0 if list(L.root_constraint.keys()) == ["A"] and L.root_constraint["A"] is h else 1)
''')

seed("b22-type-names", "C09",
     [("constructions.py", '''            not issubclass(in_type, exp_type)
            for in_type''', '''            exp_type.__name__ not in [base.__name__ for base in in_type.__mro__]
            for in_type''')],
     "a primitive of an unrelated class that happens to have the declared class' name",
     "an ill-typed call is accepted",
     PRE + '''
class Point(pr.StaticPrimitive):
    signature = (2, ())
    @classmethod
    def default_value(cls):
        return np.zeros(2)
    @classmethod
    def default_prims(cls):
        return ()
    @classmethod
    def init_children(cls, prims):
        return (), ()
p = Point(value=np.array([1.0, 2.0]), prims=())
q = pr.Point(value=np.array([1.0, 2.0]))
con.Coordinate()((q,))
try:
    con.Coordinate()((p,))
except TypeError:
    sys.exit(0)
sys.exit(1)
''')

seed("b23-argument-prefix", "C08",
     [("constructions.py", '''            return "/".join([new_prefix] + child_key)

        # For each child''', '''            return prim_key.replace(arg_prefix, new_prefix)

        # For each child''')],
     "a primitive with a child whose key contains the argument's own prefix",
     "the wrong descendant is selected, or none",
     PRE + '''
class C(con.CompoundConstruction):
    def __init__(self):
        super().__init__()
    @classmethod
    def init_children(cls):
        return (("X",), (con.Coordinate(),), (("arg1/arg1",),), lambda params: ((),))
    @classmethod
    def init_signature(cls):
        return con.ConstructionSignature((pr.Primitive, pr.Primitive), (), 0)
P = lambda x, y: pr.Point(value=np.array([x, y], float))
a = pr.PrimitiveNode.from_tree(np.array([]), {"arg1": P(1, 2), "arg0": P(3, 4)})
b = pr.PrimitiveNode.from_tree(np.array([]), {"arg1": P(5, 6), "arg0": P(7, 8)})
class Swap(con.CompoundConstruction):
    def __init__(self):
        super().__init__()
    @classmethod
    def init_children(cls):
        return (("X",), (C(),), (("arg1", "arg0"),), lambda params: ((),))
    @classmethod
    def init_signature(cls):
        return con.ConstructionSignature((pr.PrimitiveNode, pr.PrimitiveNode), (), 0)
C.init_signature = classmethod(lambda cls: con.ConstructionSignature((pr.PrimitiveNode, pr.PrimitiveNode), (), 0))
try:
    r = np.asarray(Swap()((a, b)))
except KeyError:
    sys.exit(1)
sys.exit(0 if np.allclose(r, [1, 2]) else 1)
''')


seed("b24-readd-same-child", "C01",
     [("containers.py", """        if key in self.children:
            raise KeyError""", """        if self.children.get(key, child) is not child:
            raise KeyError""")],
     "adding the very node that is already there under the key",
     "adding a key that is in use succeeds instead of raising KeyError",
     PRE + '''
x = cn.Node.from_tree(1, {})
root = cn.Node.from_tree(0, {"a": x, "b": cn.Node.from_tree(2, {})})
for target, key in ((root, "a"), (root, "a")):
    try:
        target.add_child(key, x)
    except KeyError:
        continue
    sys.exit(1)
sys.exit(0)
''')

seed("b25-many-children-sorted", "C02",
     [("containers.py", """        value, {key: child for key, child in zip(child_keys, children)}
    )
    return node, node_structs""", """        value, dict(zip(sorted(child_keys) if len(child_keys) > 10 else child_keys, children))
    )
    return node, node_structs""")],
     "a node with more than ten children whose keys are not in alphabetical order",
     "rebuilding a flattened tree attaches children under the wrong keys",
     PRE + '''
root = cn.Node.from_tree(-1, {f"Line{i}": cn.Node.from_tree(i, {}) for i in range(12)})
back, _ = cn.unflatten(list(cn.flatten("", root)))
got = [(k, c.value) for k, c in back.children.items()]
sys.exit(0 if got == [(f"Line{i}", i) for i in range(12)] else 1)
''')

seed("b26-none-value-not-mapped", "C03",
     [("containers.py", "        (key, Node, function(value), child_keys)",
       "        (key, Node, function(value) if value is not None else None, child_keys)")],
     "a tree with a node whose value is None",
     "the function is not applied to the values that are None",
     PRE + '''
root = cn.Node.from_tree(1, {"a": cn.Node.from_tree(None, {}), "b": cn.Node.from_tree(3, {})})
out = cn.map(lambda v: ("seen", v), root)
got = [out.value] + [c.value for c in out.children.values()]
sys.exit(0 if got == [("seen", 1), ("seen", None), ("seen", 3)] else 1)
''')

seed("b27-vectors-by-address", "C06",
     [("primitives.py", "        value_id = id(prim.value)\n",
       "        value_id = prim.value.__array_interface__['data'][0] if prim.value.size else id(prim.value)\n")],
     "two parameter vectors that are different views of one array",
     "two paths share an entry though they hold different vectors",
     PRE + '''
buf = np.array([1.0, 2.0])
p, q = pr.Point(value=buf), pr.Point(value=buf[:])
root = pr.PrimitiveNode(np.array([]), {"P": p, "Q": q})
if p.value is q.value:
    sys.exit(2)
idx, values = pr.filter_unique_values_from_prim(root)
ip, iq = [i for k, i in idx.items() if k.endswith("P")][0], [i for k, i in idx.items() if k.endswith("Q")][0]
sys.exit(0 if ip != iq and values[ip] is p.value and values[iq] is q.value else 1)
''')

seed("b28-ticks-need-label", "C20",
     [("matplotlibutils.py", """            axis_bbox = f"{axis_prefix}Axis"
            if axis_bbox in root_prim[key]:""", """            axis_bbox = f"{axis_prefix}Axis"
            if axis_bbox in root_prim[key] and axis_label in root_prim[key]:""")],
     "an axes primitive with an axis box but without the axis label",
     "the ticks stay where they were",
     PRE + '''
import matplotlib
matplotlib.use("Agg")
from mpllayout import matplotlibutils as mu
def quad(x0, y0, x1, y1):
    return pr.Quadrilateral(None, [pr.Point(value=np.array(v, float)) for v in
                                   ((x0, y0), (x1, y0), (x1, y1), (x0, y1))])
axes = pr.PrimitiveNode(np.array([]), {"Frame": quad(1, 1, 3, 3), "XAxis": quad(1, 3, 3, 3.5)})
root = pr.PrimitiveNode(np.array([]), {"Figure": quad(0, 0, 4, 4), "Axes1": axes})
fig, axs = mu.subplots(root, "Figure")
sys.exit(0 if axs["Axes1"].xaxis.get_ticks_position() == "top" else 1)
''')

seed("b29-label-loses-dots", "C22",
     [("ui.py", 'label = f"{parent_key}/{split_key[-1]}"', 'label = f"{parent_key}/{split_key[0] if depth == 0 else split_key[-1].lstrip(\'.\')}"')],
     "a nested primitive whose key starts with a dot",
     "the label does not end in the primitive's key",
     PRE + '''
from matplotlib.figure import Figure
from mpllayout import ui
inner = pr.PrimitiveNode(np.array([]), {".p": pr.Point(value=np.array([1.0, 2.0]))})
root = pr.PrimitiveNode(np.array([]), {"T": inner})
ax = Figure().add_axes((0, 0, 1, 1))
ui.plot_prims(ax, root)
labels = [t.get_text() for t in ax.texts]
sys.exit(0 if len(labels) == 1 and labels[0].endswith("/.p") else 1)
''')


seed("b30-stale-path-cache", "C01",
     [("containers.py", """        split_key = key.split("/", 1)
        parent_key, child_keys = split_key[0], split_key[1:]

        try:
            if len(child_keys) == 0:
                return self._get_child_nonrecursive(parent_key)
            else:
                return self.children[parent_key].get_child(child_keys[0])""",
       """        split_key = key.split("/", 1)
        parent_key, child_keys = split_key[0], split_key[1:]
        if len(child_keys) != 0:
            cached = self.__dict__.get("_found", {}).get(key)
            if cached is not None and cached[0] is self.children.get(parent_key):
                return cached[1]

        try:
            if len(child_keys) == 0:
                return self._get_child_nonrecursive(parent_key)
            else:
                child = self.children[parent_key].get_child(child_keys[0])
                self.__dict__.setdefault("_found", {})[key] = (self.children[parent_key], child)
                return child""")],
     "a nested path that was looked up once and whose last node is then replaced",
     "the path still gives the replaced node",
     PRE + '''
leaf = lambda v: cn.Node.from_tree(v, {})
root = cn.Node.from_tree(0, {"a": cn.Node.from_tree(1, {"b": leaf(2)})})
root["a/b"]
root["a/b"] = leaf(3)
sys.exit(0 if root["a/b"].value == 3 and root["a"]["b"].value == 3 else 1)
''')

seed("b31-unlabelled-axis-shown", "C21",
     [("constraints.py", "    label_visibility = axis.label.get_visible()",
       "    label_visibility = axis.label.get_visible() or not axis.get_label_text()")],
     "an axis whose label is hidden and has no text",
     "measuring the axis makes its label visible",
     PRE + '''
from matplotlib.figure import Figure
ax = Figure().add_axes((.2, .2, .6, .6))
ax.xaxis.label.set_visible(False)
cr.get_axis_thickness(ax.xaxis, "bottom")
sys.exit(0 if ax.xaxis.label.get_visible() is False else 1)
''')

seed("b32-thickness-key-prefix", "C17",
     [("layout.py", """    for key, param in constraintkey_to_param.items():
        constraint = root_constraint[key]
""", """    done = []
    for key, param in constraintkey_to_param.items():
        constraint = root_constraint[key]
        if any(key.startswith(k) for k in done):
            continue
        done.append(key)
""")],
     "two thickness constraints where one key begins with the other",
     "the second one is not updated",
     PRE + '''
from matplotlib.figure import Figure
L = lay.Layout()
L.add_prim(pr.Axes(xaxis=True, yaxis=True), "A")
L.add_constraint(cr.XAxisThickness(), ("A/XAxis",), (None,), "T1")
L.add_constraint(cr.YAxisThickness(), ("A/YAxis",), (None,), "T10")
ax = Figure().add_axes((.2, .2, .6, .6))
M = lay.update_layout_constraints(L, {"A": ax})
sys.exit(0 if M.root_param["T1"].value == (ax.xaxis,) and M.root_param["T10"].value == (ax.yaxis,) else 1)
''')

seed("b33-rectangle-folded", "C20",
     [("matplotlibutils.py", "    width = xmax - xmin\n", "    width = abs(xmax - xmin)\n")],
     "a quadrilateral that is mirrored",
     "the rectangle is not the one of the frame",
     PRE + '''
from mpllayout import matplotlibutils as mu
q = pr.Quadrilateral(None, [pr.Point(value=np.array(v, float)) for v in ((3, 1), (1, 1), (1, 2), (3, 2))])
r = mu.rect_from_box(q, np.array([0., 0.]), np.array([4., 4.]))
sys.exit(0 if np.allclose(r, (.75, .25, -.5, .25)) else 1)
''')
