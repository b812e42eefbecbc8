From b337baa011f78a8a1b17309539a77a37a40059e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 01/19] fix: `path in node` is False, not an error, for paths
 that do not resolve

---
 src/mpllayout/containers.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index bee6167..d679d65 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -162,14 +162,12 @@ class Node(Generic[TValue]):
         return self.children.__iter__()
 
     def __contains__(self, key: str) -> bool:
-        split_keys = key.split("/", 1)
-        parent_key = split_keys[0]
-        child_key = "/".join(split_keys[1:])
-
-        if child_key == "":
-            return parent_key in self.children
+        try:
+            self.get_child(key)
+        except KeyError:
+            return False
         else:
-            return child_key in self[parent_key]
+            return True
 
     def __len__(self) -> int:
         return len(self.children)
-- 
2.43.0


From 042cd5836dc43c40baf4c83ce77f6d7385917c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 02/19] fix: keep the order of children in the jax pytree round
 trip

---
 src/mpllayout/containers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index d679d65..7d3b47e 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -508,13 +508,15 @@ AuxData = Any
 def _make_flatten_unflatten(node_type: type[TNode]):
 
     def _flatten_node(node: TNode) -> tuple[FlatNode, AuxData]:
-        flat_node = (node.value, node.children)
-        aux_data = None
+        # Keys are kept in `aux_data` because `jax` sorts `dict` keys, which would
+        # change the order of children
+        flat_node = (node.value, tuple(node.children.values()))
+        aux_data = tuple(node.children.keys())
         return (flat_node, aux_data)
 
     def _unflatten_node(aux_data: AuxData, flat_node: FlatNode) -> TNode:
         value, children = flat_node
-        return node_type.from_tree(value, children)
+        return node_type.from_tree(value, dict(zip(aux_data, children)))
 
     return _flatten_node, _unflatten_node
 
-- 
2.43.0


From ec616334a89b075a8551f228bf655b6e92a7d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 03/19] fix: reject primitives with too many or too few `prims`

---
 src/mpllayout/primitives.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 20aae2b..4a0fb09 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -188,6 +188,10 @@ class Primitive(PrimitiveNode):
             prims = self.default_prims(**kwargs)
 
         child_keys, child_prims = self.init_children(prims, **kwargs)
+        if len(child_keys) != len(child_prims):
+            raise ValueError(
+                f"Invalid `prims` must be {len(child_keys)} not {len(child_prims)}"
+            )
 
         super().__init__(
             value, {key: prim for key, prim in zip(child_keys, child_prims)}
-- 
2.43.0


From d5f3ff79a9257fdc170c1fafcbdd66a7bc275ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 04/19] fix: reject primitive values that are not vectors

---
 src/mpllayout/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 4a0fb09..1f7f132 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -117,7 +117,7 @@ class PrimitiveNode(cn.Node[NDArray[np.float64]]):
         )
         param_size, prim_type_sig = self.signature
 
-        assert len(value) == param_size
+        assert value.shape == (param_size,)
 
         prims = [cprim for _, cprim in children.items()]
         if isinstance(prim_type_sig, tuple):
-- 
2.43.0


From 0c5b877db8f9063005bcb5f99cfc33c9fd497922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 05/19] fix: check the number of primitives selected for each
 child construction

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 839b7fd..13a3e4c 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -176,7 +176,7 @@ class ConstructionNode(Node[ConstructionValue]):
             for (key, prim_types), prim_keys
             in zip(child_prim_types.items(), value.child_prim_keys)
         }
-        if not all(valid_child_prim_keys):
+        if not all(valid_child_prim_keys.values()):
             invalid_cons_keys = {
                 key for key, valid in valid_child_prim_keys.items() if not valid
             }
-- 
2.43.0


From 355c263ef80ad49f721bc8df75d65d0d5fe9d4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 06/19] fix: do not drop child constructions that have no
 parameters

---
 src/mpllayout/constructions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 13a3e4c..04f375e 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -356,7 +356,12 @@ class ConstructionNode(Node[ConstructionValue]):
         root_params: ParamsNode
             A tree of params
         """
-        children_params = self.child_params(params)
+        children_params = tuple(self.child_params(params))
+        if len(children_params) < len(self):
+            raise ValueError(
+                f"Expected parameters for {len(self)} child constructions"
+                f", not {len(children_params)}"
+            )
         children = {
             key: child.root_params(child_params)
             for (key, child), child_params in zip(self.items(), children_params)
-- 
2.43.0


From 7297442a46ce630da3018c332afb09ac6ac7681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 07/19] fix: allow multiplying a `Scalar` by a number

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 04f375e..21f368d 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -450,7 +450,7 @@ class ConstructionNode(Node[ConstructionValue]):
         return transform_sum(other, self)
 
     def __mul__(self, other: "float | Scalar"):
-        if isinstance(self, Scalar):
+        if isinstance(self, Scalar) and isinstance(other, ConstructionNode):
             return transform_scalar_mul(other, self)
         else:
             return transform_scalar_mul(self, other)
-- 
2.43.0


From f59b3855e4c3c10230f2a5ea939564a52545dcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 08/19] fix: return the angle between two lines in the range
 (-pi, pi)

---
 src/mpllayout/constructions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 21f368d..234f46a 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1023,9 +1023,7 @@ class Angle(LeafConstruction, _LineLineSignature):
         line0, line1 = prims
         dir0 = UnitLineVector.assem((line0,))
         dir1 = UnitLineVector.assem((line1,))
-        angle0 = jnp.arctan2(dir0[1], dir0[0])
-        angle1 = jnp.arctan2(dir1[1], dir1[0])
-        return angle1 - angle0
+        return jnp.arctan2(jnp.cross(dir0, dir1), jnp.dot(dir0, dir1))
 
 
 ## Point and Line constructions
-- 
2.43.0


From c3c4783e618cc77bb5f9673b59a17b54848e1356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 09/19] fix: evaluate child constructions of a sum's second
 term at its own primitives

---
 src/mpllayout/constructions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 234f46a..1c9062f 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1636,9 +1636,14 @@ def transform_sum(cons_a: TCons, cons_b: TCons) -> ConstructionNode:
         concat_params, split_params = cat_split_params
 
         # Build the sum construction `ConstructionValue` tuple
+        # The primitives of `cons_b` come after the primitives of `cons_a`
+        num_prims_a = len(signature_a.prim_types)
+        arg_keys_b = tuple(
+            f"arg{num_prims_a + n}" for n in range(len(signature_b.prim_types))
+        )
         sum_child_prim_keys = tuple(
             concat_prims(prim_keys_a, prim_keys_b) for prim_keys_a, prim_keys_b
-            in zip(value_a.child_prim_keys, value_b.child_prim_keys)
+            in zip(value_a.child_prim_keys, cons_b.child_prim_keys(arg_keys_b))
         )
 
         def sum_child_params(sum_params: Params) -> tuple[Params, ...]:
-- 
2.43.0


From a67bba140204c1a431750ba4529381c3132336ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 10/19] fix: split vector targets of constraints over the
 construction tree

---
 src/mpllayout/constructions.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 1c9062f..e170b73 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -636,12 +636,12 @@ class Vector(Construction, _NullSignature):
 
         keys = tuple(size_node.keys())
         constructions = tuple(
-            Vector(size_node=node) for node in child_size_nodes
+            cls(size_node=node) for node in child_size_nodes
         )
         prim_keys = num_child*((),)
 
+        size = size_node.value
         child_cumsizes = tuple(node.value for _, node in cumsize_node.items())
-        child_sizes = tuple(node.value for _, node in size_node.items())
 
         def child_params(params: Params) -> tuple[Params, ...]:
             value, = params
@@ -650,9 +650,7 @@ class Vector(Construction, _NullSignature):
                 value = value* np.ones(cumsize_node.value)
 
             return tuple(
-                (child_value[:size],)
-                for child_value, size
-                in zip(chunk(value, child_cumsizes), child_sizes)
+                (child_value,) for child_value in chunk(value[size:], child_cumsizes)
             )
 
         return (keys, constructions, prim_keys, child_params)
@@ -668,6 +666,20 @@ class Vector(Construction, _NullSignature):
         return value
 
 
+class LocalVector(Vector):
+    """
+    Return a vector where each node in the tree only contains its own chunk
+
+    See `Vector` for more details.
+    """
+
+    def assem(self, prims: tuple[()], value: float | NDArray):
+        if np.ndim(value) == 0:
+            return value
+        else:
+            return value[:self.signature.value_size]
+
+
 class Scalar(LeafConstruction, _NullSignature):
     """
     Return a scalar
@@ -1515,7 +1527,7 @@ def transform_constraint(construction: TCons):
 
     size_node = node_map(value_size, construction)
 
-    vector = Vector(size_node)
+    vector = LocalVector(size_node)
     return transform_sum(construction, transform_scalar_mul(vector, -1))
 
 # TODO: Refactor `transform_map` to accept `*PrimTypes`?
-- 
2.43.0


From d0eade8a374b0b33208f4f5f6700752cec4ca5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 11/19] fix: accept any numeric type as a scalar constraint
 target

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index e170b73..8a3ea11 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -646,7 +646,7 @@ class Vector(Construction, _NullSignature):
         def child_params(params: Params) -> tuple[Params, ...]:
             value, = params
 
-            if isinstance(value, (float, int)):
+            if np.ndim(value) == 0:
                 value = value* np.ones(cumsize_node.value)
 
             return tuple(
-- 
2.43.0


From a6a2ae3127c0346856a5066c98f5d450279a8108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 12/19] fix: keep parameter types when no parameters are frozen

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 8a3ea11..b1d7892 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1847,7 +1847,7 @@ def transform_partial(cons: TCons, *freeze_params: tuple[Param, ...]):
         return child_params(params)
 
     partial_sig = ConstructionSignature(
-        prim_types, param_types[:-len(freeze_params)], value_size
+        prim_types, param_types[:len(param_types) - len(freeze_params)], value_size
     )
 
     partial_value = ConstructionValue(
-- 
2.43.0


From f42cdf401737df7816fb6490747030e2ff098c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 13/19] fix: accept an integer shape for `OuterMarginArray`

---
 src/mpllayout/constraints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 66c25ea..de9edb3 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -804,6 +804,8 @@ class OuterMarginArray(con.CompoundConstruction):
     """
 
     def __init__(self, shape: tuple[int, ...], side: Literal['bottom', 'top', 'left', 'right']):
+        if isinstance(shape, int):
+            shape = (shape,)
         super().__init__(shape=shape, side=side)
 
     @classmethod
-- 
2.43.0


From a3a65a10f7edbef52e6618601220ac5a2846e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 14/19] fix: restore axis label visibility when measuring the
 axis fails

---
 src/mpllayout/constraints.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index de9edb3..19265d2 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -641,7 +641,10 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
     label_visibility = axis.label.get_visible()
     axis.label.set_visible(False)
 
-    axis_bbox = axis.get_tightbbox()
+    try:
+        axis_bbox = axis.get_tightbbox()
+    finally:
+        axis.label.set_visible(label_visibility)
 
     if axis_bbox is None:
         dim = 0
@@ -661,8 +664,6 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
         else:
             raise ValueError()
 
-    axis.label.set_visible(label_visibility)
-
     return dim
 
 
-- 
2.43.0


From 5cfd05798354452acbc1457d9622c57dd6c0c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 15/19] fix: leave the layout unchanged when a constraint
 cannot be added

---
 src/mpllayout/layout.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 8df961c..2a4aa75 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -205,9 +205,13 @@ class Layout:
         except TypeError as exc:
             raise RuntimeError(f"Wrong parameters {param} for constraint {type(constraint)}\n{exc}") from exc
 
+        # Create all nodes before adding any, in case one can't be created
+        prim_keys_node = constraint.root_prim_keys(prim_keys)
+        param_node = constraint.root_params(param)
+
         self.root_constraint.add_child(key, constraint)
-        self.root_prim_keys.add_child(key, constraint.root_prim_keys(prim_keys))
-        self.root_param.add_child(key, constraint.root_params(param))
+        self.root_prim_keys.add_child(key, prim_keys_node)
+        self.root_param.add_child(key, param_node)
 
 def update_layout_constraints(
     layout: Layout,
-- 
2.43.0


From 7c89c1a006cd8e198a8d551a6ae349f14977af55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 16/19] fix: place axis labels relative to the figure origin

---
 src/mpllayout/matplotlibutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/matplotlibutils.py b/src/mpllayout/matplotlibutils.py
index fb2323b..d07e149 100644
--- a/src/mpllayout/matplotlibutils.py
+++ b/src/mpllayout/matplotlibutils.py
@@ -116,7 +116,7 @@ def update_subplots(
                 axis_label_point: pr.Point = root_prim[f"{key}/{axis_label}"]
                 label_coords = axis_label_point.value
                 axis.set_label_coords(
-                    *(label_coords / fig_size), transform=fig.transFigure
+                    *((label_coords - fig_origin) / fig_size), transform=fig.transFigure
                 )
 
             # Set the axis tick position
-- 
2.43.0


From 07a960b3a5c0dfb3ff09360919e3c9c88d6c24de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 17/19] fix: rotate labels of downward lines by the line
 direction

---
 src/mpllayout/ui.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index dd212b1..3f1bbcc 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -45,12 +45,7 @@ def rotation_from_line(line: pr.Line) -> float:
     line_vec = cn.LineVector.assem((line,))
     unit_vec = line_vec / np.linalg.norm(line_vec)
 
-    # Since `unit_vec` has unit length, the x-component is the cosine
-    theta = 180/np.pi * np.arccos(unit_vec[0])
-    if unit_vec[1] < 0:
-        theta = theta + 180
-
-    return theta
+    return 180/np.pi * np.arctan2(unit_vec[1], unit_vec[0])
 
 def plot_line(ax: Axes, line: pr.Line, label: Optional[str]=None, **kwargs):
     """
-- 
2.43.0


From 946516667adccd3fa16f919fc252c57d633bc92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 18/19] fix: replace the child of an empty-keyed node, not of
 its parent

---
 src/mpllayout/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 7d3b47e..8a93707 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -214,7 +214,7 @@ class Node(Generic[TValue]):
         if key not in self:
             raise KeyError(key)
         else:
-            if parent_key == "":
+            if len(split_keys) == 1:
                 parent = self
             else:
                 parent = self[parent_key]
-- 
2.43.0


From 8332beb60546850b6b7a9cfee79d282b45976bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 19/19] fix: declare the size of the coincident lines error

---
 src/mpllayout/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 19265d2..c1424bc 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -448,7 +448,7 @@ class CoincidentLines(con.LeafConstruction, con._LineLineSignature):
 
     @classmethod
     def init_signature(cls):
-        return cls.make_signature(2, (bool,))
+        return cls.make_signature(4, (bool,))
 
     @classmethod
     def assem(cls, prims: tuple[pr.Line, pr.Line], reverse: bool):
-- 
2.43.0

