From 09c53db85573775e8e2a1732da964cd01b480f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 01/95] fix: CopyNode.copy keeps both axes of a trace edge

---
 tensornetwork/network_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index d8125e8..f9655a4 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -812,11 +812,11 @@ class CopyNode(AbstractNode):
       visited_edges.add(edge)
       if edge.node1 == edge.node2:
         new_edge = Edge(new_node,
-                        i,
+                        edge.axis1,
                         name=edge.name,
                         node2=new_node,
                         axis2=edge.axis2)
-        new_node.add_edge(new_edge, i)
+        new_node.add_edge(new_edge, edge.axis1)
         new_node.add_edge(new_edge, edge.axis2)
       else:
         new_node.add_edge(Edge(new_node, i, name=edge.name), i)
-- 
2.43.0


From 8f8c8faf9b3617e024f03c454e49ee3406570c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 02/95] fix: copy maps trace edges to the edges of the copied
 nodes

---
 tensornetwork/network_operations.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 9817511..3e12ced 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -72,11 +72,15 @@ def copy(nodes: Iterable[AbstractNode],
       edge_dict[edge] = new_edge
       continue
 
+    # trace edges have already been created when copying the node
+    if edge.is_trace():
+      edge_dict[edge] = node_dict[node1][axis1]
+      continue
+
     # both nodes should be copied
     new_edge = Edge(node_dict[node1], axis1, edge.name, node_dict[node2], axis2)
-    if not edge.is_trace():
-      node_dict[node2].add_edge(new_edge, axis2)
-      node_dict[node1].add_edge(new_edge, axis1)
+    node_dict[node2].add_edge(new_edge, axis2)
+    node_dict[node1].add_edge(new_edge, axis1)
 
     edge_dict[edge] = new_edge
 
-- 
2.43.0


From 305b521ccbeac1b8e4f5121e33892c5d27c765e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 03/95] fix: flattening or splitting trace edges keeps one axis
 name per axis

---
 tensornetwork/network_components.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index f9655a4..7dc2e6e 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1358,6 +1358,8 @@ def _flatten_trace_edges(edges: List[Edge],
   edge1 = Edge(node1=node, axis1=len(perm_front), name="TraceFront")
   edge2 = Edge(node1=node, axis1=len(perm_front) + 1, name="TraceBack")
   node.edges = node.edges[:len(perm_front)] + [edge1, edge2]
+  if len(node.shape) == len(node.edges):  # a CopyNode keeps its nominal shape
+    node.axis_names = node.axis_names[:len(node.edges)]
   new_edge = connect(edge1, edge2, new_edge_name)
   # pylint: disable=expression-not-assigned
   [edge.disable() for edge in edges]  #disable edges!
@@ -1515,12 +1517,15 @@ def _split_trace_edge(
   perm_back += [max(edge.axis1, edge.axis2)]
   perm_front = set(range(len(node.edges))) - set(perm_back)
   perm_front = sorted(perm_front)
+  axis_names = node.axis_names
   node.reorder_axes(perm_front + perm_back)
   unaffected_shape = backend.shape_tensor(node.tensor)[:len(perm_front)]
   new_shape = backend.shape_concat([unaffected_shape, shape, shape], axis=-1)
   node.tensor = backend.reshape(node.tensor, new_shape)
   # Trim edges and add placeholder edges for new axes.
   node.edges = node.edges[:len(perm_front)] + 2 * len(shape) * [None]
+  node.axis_names = axis_names[:len(perm_front)] + [
+      str(n) for n in range(len(perm_front), len(node.edges))]
   # Create new dangling edges and connect them to each other.
   new_edges = []
   for idx in range(len(shape)):
-- 
2.43.0


From 5be3facbeee77c9b73ee7482784fe9821f04ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 04/95] fix: contract_copy_node detaches the consumed nodes and
 retires their edges

---
 tensornetwork/network_components.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 7dc2e6e..e8a7f99 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1921,7 +1921,12 @@ def contract_copy_node(copy_node: CopyNode,
       new_node.add_edge(edge, new_axis)
       new_axis += 1
   assert len(new_tensor.shape) == new_axis
+  consumed_edges = set(copy_node.edges)
+  for partner in partners:
+    partner.fresh_edges(partner.axis_names)
   copy_node.fresh_edges(copy_node.axis_names)
+  # pylint: disable=expression-not-assigned
+  [edge.disable() for edge in consumed_edges]  #disable edges!
   return new_node
 
 
-- 
2.43.0


From 1f17dd9d004b4ac7f806b55dd7c0402baac7a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 05/95] fix: contract_copy_node handles copy tensors with trace
 edges only

---
 tensornetwork/network_components.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index e8a7f99..7e99c8b 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -903,6 +903,10 @@ class CopyNode(AbstractNode):
   def compute_contracted_tensor(self) -> Tensor:
     """Compute tensor corresponding to contraction of self with neighbors."""
     partners = self.get_partners()
+    if not partners:
+      # All edges are trace edges.
+      return self.backend.convert_to_tensor(
+          np.array(self.dimension, dtype=self.copy_node_dtype))
     einsum_expression = self._make_einsum_expression(partners)
     tensors = [partner.get_tensor() for partner in partners]
     return self.backend.einsum(einsum_expression, *tensors)
-- 
2.43.0


From b5162b15e0f837b3d808438d7053de55e2733420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:37 +0000
Subject: [PATCH 06/95] fix: contractors accept any iterable of nodes and
 refuse repeated output edges

---
 .../contractors/opt_einsum_paths/path_contractors.py        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 764f2e8..c2372bd 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -59,14 +59,16 @@ def base(nodes: Iterable[AbstractNode],
   #(edges are refreshed after contractions)
 
   if not ignore_edge_order:
+    dangling_edges = get_subgraph_dangling(nodes_set)
     if output_edge_order is None:
-      output_edge_order = list(get_subgraph_dangling(nodes))
+      output_edge_order = list(dangling_edges)
       if len(output_edge_order) > 1:
         raise ValueError("The final node after contraction has more than "
                          "one remaining edge. In this case `output_edge_order` "
                          "has to be provided.")
 
-    if set(output_edge_order) != get_subgraph_dangling(nodes):
+    if (len(output_edge_order) != len(dangling_edges) or
+        set(output_edge_order) != dangling_edges):
       raise ValueError("output edges are not equal to the remaining "
                        "non-contracted edges of the final node.")
 
-- 
2.43.0


From cbd7dfd95b100b5d4ba3dd2ee2dcb88d338c7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 07/95] fix: auto contractor handles a single node like every
 other network

---
 .../opt_einsum_paths/path_contractors.py      | 27 +++----------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index c2372bd..8d43e90 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -21,8 +21,7 @@ from tensornetwork.network_operations import (check_connected, get_all_edges,
                                               contract_trace_edges,
                                               redirect_edge)
 
-from tensornetwork.network_components import (get_all_nondangling,
-                                              contract_parallel,
+from tensornetwork.network_components import (contract_parallel,
                                               contract_between)
 from tensornetwork.network_components import Edge, AbstractNode
 from tensornetwork.contractors.opt_einsum_paths import utils
@@ -218,30 +217,10 @@ def auto(nodes: Iterable[AbstractNode],
     Final node after full contraction.
   """
 
-  n = len(list(nodes))  #pytype thing
-  _nodes = nodes
+  nodes = list(nodes)
+  n = len(nodes)
   if n <= 0:
     raise ValueError("Cannot contract empty tensor network.")
-  if n == 1:
-    if not ignore_edge_order:
-      if output_edge_order is None:
-        output_edge_order = list(
-            (get_all_edges(_nodes) - get_all_nondangling(_nodes)))
-        if len(output_edge_order) > 1:
-          raise ValueError(
-              "The final node after contraction has more than "
-              "one dangling edge. In this case `output_edge_order` "
-              "has to be provided.")
-
-    edges = get_all_nondangling(_nodes)
-    if edges:
-      final_node = contract_parallel(edges.pop())
-    else:
-      final_node = list(_nodes)[0]
-    final_node.reorder_edges(output_edge_order)
-    if not ignore_edge_order:
-      final_node.reorder_edges(output_edge_order)
-    return final_node
 
   if n < 5:
     return optimal(nodes, output_edge_order, memory_limit, ignore_edge_order)
-- 
2.43.0


From f95f5354f899364677a913cd475b5b68bdc6543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 08/95] fix: contract_path contracts trace edges and leaves the
 caller's list alone

---
 .../contractors/opt_einsum_paths/path_contractors.py        | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 8d43e90..cd709f9 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -346,11 +346,7 @@ def contract_path(path: Tuple[List[Tuple[int,
   Returns:
     Final node after full contraction.
   """
-  edges = get_all_edges(nodes)
-  for edge in edges:
-    if not edge.is_disabled:  #if its disabled we already contracted it
-      if edge.is_trace():
-        contract_parallel(edge)
+  nodes = [contract_trace_edges(node) for node in nodes]
 
   if len(nodes) == 1:
     newnode = nodes[0].copy()
-- 
2.43.0


From 8ab260fee3df950a9258f84de33e25932b04adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:32 +0000
Subject: [PATCH 09/95] fix: reorder_edges refuses repeated edges before
 changing anything

---
 tensornetwork/network_components.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 7e99c8b..d0f77dc 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -234,6 +234,8 @@ class AbstractNode(ABC):
       if edge.node1 == edge.node2:
         raise ValueError("Edge reordering does not support trace edges. "
                          "Found trace edge: '{}'".format(edge))
+    if len(edge_order) != len(self.edges):
+      raise ValueError("Given edge order contains repeated edges.")
 
     permutation = []
     for i, edge in enumerate(edge_order):
@@ -242,7 +244,7 @@ class AbstractNode(ABC):
       old_position = self.edges.index(edge)
       permutation.append(old_position)
       edge.update_axis(old_position, self, i, self)
-    self.edges = edge_order[:]
+    self.edges = list(edge_order)
     self.tensor = self.backend.transpose(self.tensor, perm=permutation)
     if self.axis_names is not None:
       # Update axis_names:
-- 
2.43.0


From 23ef00f7cdcb8ce9a107b579ff49452efaabdc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:32 +0000
Subject: [PATCH 10/95] fix: outer_product refuses a node with itself before
 changing anything

---
 tensornetwork/network_components.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index d0f77dc..9aa79cd 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -2175,6 +2175,10 @@ def outer_product(node1: AbstractNode,
     raise ValueError("node {}  and node {} have different backends. "
                      "Cannot perform outer product".format(node1, node2))
 
+  if node1 is node2 and node1.get_rank() > 0:
+    raise ValueError("Cannot take the outer product of node '{}' with "
+                     "itself.".format(node1))
+
   backend = node1.backend
   if node1.get_rank() == 0 or node2.get_rank() == 0:
     new_tensor = backend.multiply(node1.tensor, node2.tensor)
-- 
2.43.0


From 2dfd6c3f7355782ea5c20b891f4e5601e95f5b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:32 +0000
Subject: [PATCH 11/95] fix: outer_product_final_nodes checks the edge order
 before contracting

---
 tensornetwork/network_components.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 9aa79cd..503f5d5 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -2133,7 +2133,12 @@ def outer_product_final_nodes(nodes: Iterable[AbstractNode],
   nodes = list(nodes)
   for node in nodes:
     if node.has_nondangling_edge():
-      raise ValueError("Node '{}' has a non-dangling edge remaining.")
+      raise ValueError(
+          "Node '{}' has a non-dangling edge remaining.".format(node))
+  final_edges = [edge for node in nodes for edge in node.edges]
+  if (len(edge_order) != len(final_edges) or
+      set(edge_order) != set(final_edges)):
+    raise ValueError("edge_order does not match the edges of the nodes.")
   final_node = nodes[0]
   for node in nodes[1:]:
     final_node = outer_product(final_node, node)
-- 
2.43.0


From 87ce4c0736b3d7870bf179c0adf72b5a6b6002ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:32 +0000
Subject: [PATCH 12/95] fix: contract_between checks output order and axis
 names before contracting

---
 tensornetwork/network_components.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 503f5d5..9774c19 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -2045,6 +2045,27 @@ def contract_between(
 
   backend = node1.backend
   shared_edges = get_shared_edges(node1, node2)
+  # Refuse invalid output specifications before changing anything.
+  nodes_edges = node1.edges[:]
+  if node1 is not node2:
+    nodes_edges += node2.edges
+  output_edges = [edge for edge in nodes_edges if edge not in shared_edges]
+  if output_edge_order:
+    if (len(output_edge_order) != len(output_edges) or
+        set(output_edge_order) != set(output_edges)):
+      raise ValueError("output_edge_order does not match the edges of the nodes "
+                       "'{}' and '{}' that remain after the "
+                       "contraction.".format(node1, node2))
+    if any(edge.is_trace() for edge in output_edge_order):
+      raise ValueError("output_edge_order does not support trace edges.")
+  if axis_names:
+    for axis_name in axis_names:
+      if not isinstance(axis_name, str):
+        raise TypeError("axis_names should be str type")
+    if (len(axis_names) != len(output_edges) or
+        len(axis_names) != len(set(axis_names))):
+      raise ValueError("axis_names has to contain one unique name for each of "
+                       "the {} axes.".format(len(output_edges)))
   # Trace edges cannot be contracted using tensordot.
   if node1 is node2:
     flat_edge = flatten_edges_between(node1, node2)
-- 
2.43.0


From adced4172d37cc08f14336c128a198ec6f8d8cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:32 +0000
Subject: [PATCH 13/95] fix: split_edge checks shape and names before changing
 the nodes

---
 tensornetwork/network_components.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 9774c19..56cf318 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1573,9 +1573,15 @@ def split_edge(edge: Edge,
   """
 
   # Check if reshape operation is possible.
-  if not np.prod(shape) == edge.dimension:
+  if not np.prod(shape) == edge.dimension or min(shape) < 0:
     raise ValueError("Edge {} with dimension {} cannot be split according to "
                      "shape {}.".format(edge, edge.dimension, shape))
+  if new_edge_names is not None:
+    if len(new_edge_names) != len(shape):
+      raise ValueError("Expected {} new edge names, only got {}.".format(
+          len(shape), len(new_edge_names)))
+    if not all(isinstance(name, str) for name in new_edge_names):
+      raise TypeError("Edge name should be str type")
   # Check if possible reshape operation is trivial.
   if len(shape) == 1:
     return [edge]
-- 
2.43.0


From 999b8a2a2c1ce8f928fa7fcd4a7eb5f229b5dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:45 +0000
Subject: [PATCH 14/95] fix: node splits create both factors before moving any
 edge

---
 tensornetwork/network_operations.py | 34 ++++++++++++++++-------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 3e12ced..ca11afc 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -234,6 +234,11 @@ def split_node(
                    axis_names=left_axis_names,
                    backend=backend)
 
+  right_node = Node(vh_s,
+                    name=right_name,
+                    axis_names=right_axis_names,
+                    backend=backend)
+
   left_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in left_edges
   ]
@@ -241,11 +246,6 @@ def split_node(
     left_node.add_edge(edge, i)
     edge.update_axis(left_axes_order[i], node, i, left_node)
 
-  right_node = Node(vh_s,
-                    name=right_name,
-                    axis_names=right_axis_names,
-                    backend=backend)
-
   right_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in right_edges
   ]
@@ -326,6 +326,11 @@ def split_node_qr(
                    axis_names=left_axis_names,
                    backend=backend)
 
+  right_node = Node(r,
+                    name=right_name,
+                    axis_names=right_axis_names,
+                    backend=backend)
+
   left_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in left_edges
   ]
@@ -333,11 +338,6 @@ def split_node_qr(
     left_node.add_edge(edge, i)
     edge.update_axis(left_axes_order[i], node, i, left_node)
 
-  right_node = Node(r,
-                    name=right_name,
-                    axis_names=right_axis_names,
-                    backend=backend)
-
   right_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in right_edges
   ]
@@ -421,6 +421,11 @@ def split_node_rq(
                    axis_names=left_axis_names,
                    backend=backend)
 
+  right_node = Node(q,
+                    name=right_name,
+                    axis_names=right_axis_names,
+                    backend=backend)
+
   left_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in left_edges
   ]
@@ -428,11 +433,6 @@ def split_node_rq(
     left_node.add_edge(edge, i)
     edge.update_axis(left_axes_order[i], node, i, left_node)
 
-  right_node = Node(q,
-                    name=right_name,
-                    axis_names=right_axis_names,
-                    backend=backend)
-
   right_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in right_edges
   ]
@@ -530,6 +530,10 @@ def split_node_full_svd(
     raise AttributeError('Node {} of type {} has no `backend`'.format(
         node, type(node)))
 
+  for edge_name in (left_edge_name, right_edge_name):
+    if edge_name is not None and not isinstance(edge_name, str):
+      raise TypeError("Edge name should be str type")
+
   if node.axis_names and left_edge_name and right_edge_name:
     left_axis_names = []
     right_axis_names = [right_edge_name]
-- 
2.43.0


From 0397944df0c24a90475ccd325e46a898687ffa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 15/95] fix: copy, replicate_nodes and reduced_density accept
 any iterable

---
 tensornetwork/network_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index ca11afc..1bb0357 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -49,6 +49,7 @@ def copy(nodes: Iterable[AbstractNode],
       edge_dict:
         A dictionary mapping the edges to their copies.
   """
+  nodes = list(nodes)
   node_dict = {}
   for node in nodes:
     node_dict[node] = node.copy(conjugate)
@@ -103,6 +104,7 @@ def replicate_nodes(nodes: Iterable[AbstractNode],
   Returns:
     A list containing the copies of the nodes.
   """
+  nodes = list(nodes)
   new_nodes, _ = copy(nodes, conjugate=conjugate)
   return [new_nodes[node] for node in nodes]
 
@@ -784,6 +786,7 @@ def reduced_density(traced_out_edges: Iterable[Edge]) -> Tuple[dict, dict]:
         conjugate copies.
   """
 
+  traced_out_edges = list(traced_out_edges)
   if list(filter(lambda x: not x.is_dangling(), traced_out_edges)):
     raise ValueError("traced_out_edges must only include dangling edges!")
 
-- 
2.43.0


From 2e15f49fa251608040dc6a862eb0b39a80793361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 16/95] fix: save_nodes gives the edges of the live network
 their names back

---
 tensornetwork/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index b91dd8c..2abc9e1 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -70,14 +70,15 @@ def save_nodes(nodes: List[AbstractNode], path: Union[str, BinaryIO]) -> None:
         dtype=string_type,
         data=np.array(list(old_edge_names.values()), dtype=object))
 
+    unsaved_edges = set(edges)
     for n, node in enumerate(nodes):
       node_group = nodes_group.create_group(node.name)
       node._save_node(node_group)
       for edge in node.edges:
-        if edge.node1 == node and edge in edges:
+        if edge.node1 == node and edge in unsaved_edges:
           edge_group = edges_group.create_group(edge.name)
           edge._save_edge(edge_group)
-          edges.remove(edge)
+          unsaved_edges.remove(edge)
 
   #name edges and nodes back  to their original names
   for n, node in enumerate(nodes):
-- 
2.43.0


From b0fc4f89ab8b614781a3388851a5c52f1c3ee0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 17/95] fix: load_nodes returns the nodes in the order they
 were saved

---
 tensornetwork/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index 2abc9e1..bf207aa 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -99,7 +99,8 @@ def load_nodes(path: str) -> List[AbstractNode]:
   nodes_list = []
   edges_list = []
   with h5py.File(path, 'r') as net_file:
-    nodes = list(net_file["nodes"].keys())
+    # hdf5 lists the keys alphabetically ('node10' before 'node2')
+    nodes = sorted(net_file["nodes"].keys(), key=lambda k: int(k[len('node'):]))
     node_names = {
         'node{}'.format(n): v for n, v in enumerate(
             net_file["node_names"]['names'].asstr(STRING_ENCODING)[()])#pylint: disable=no-member
-- 
2.43.0


From 306371518af04737297f826b99754374e0b699dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 18/95] fix: nodes without axes can be loaded again after
 saving

---
 tensornetwork/network_components.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 56cf318..7793744 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -464,7 +464,11 @@ class AbstractNode(ABC):
     name = node_data['name'].asstr(STRING_ENCODING)[()]
     backend = node_data['backend'].asstr(STRING_ENCODING)[()]
     shape = node_data['shape'][()]
-    axis_names = node_data['axis_names'].asstr(STRING_ENCODING)[()]
+    axis_names = node_data['axis_names']
+    if h5py.check_string_dtype(axis_names.dtype) is None:
+      axis_names = []  # the node was saved without axis names
+    else:
+      axis_names = axis_names.asstr(STRING_ENCODING)[()]
     return name, shape, axis_names, backend
 
   @abstractmethod
-- 
2.43.0


From 0d7c23cc84cce592d004db679d6fba5fcdf4d4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 19/95] fix: nodes_from_json restores edges whose first node
 was excluded

---
 tensornetwork/network_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 1bb0357..b29190d 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -978,6 +978,9 @@ def nodes_from_json(json_str: str) -> Tuple[List[AbstractNode],
   for e in network_dict['edges']:
     e_nodes = [node_ids.get(n_id) for n_id in e['node_ids']]
     axes = e['attributes']['axes']
+    if e_nodes[0] is None:
+      # the first node was not serialized: the edge dangles from the second
+      e_nodes, axes = e_nodes[::-1], axes[::-1]
     edge = Edge(node1=e_nodes[0],
                 axis1=axes[0],
                 node2=e_nodes[1],
-- 
2.43.0


From 9d5ed2e7787b7caaec1a399c2f0e33f67755d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 20/95] fix: save_nodes restores the names of the network when
 writing fails

---
 tensornetwork/utils.py | 73 +++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index bf207aa..7abe5b7 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -49,43 +49,44 @@ def save_nodes(nodes: List[AbstractNode], path: Union[str, BinaryIO]) -> None:
 
   #generate unique names for nodes and edges
   #for saving them
-  for n, node in enumerate(nodes):
-    node.set_name('node{}'.format(n))
-
-  for e, edge in enumerate(edges):
-    edge.set_name('edge{}'.format(e))
-
-  with h5py.File(path, 'w') as net_file:
-    nodes_group = net_file.create_group('nodes')
-    node_names_group = net_file.create_group('node_names')
-    node_names_group.create_dataset(
-        'names',
-        dtype=string_type,
-        data=np.array(list(old_node_names.values()), dtype=object))
-
-    edges_group = net_file.create_group('edges')
-    edge_names_group = net_file.create_group('edge_names')
-    edge_names_group.create_dataset(
-        'names',
-        dtype=string_type,
-        data=np.array(list(old_edge_names.values()), dtype=object))
-
-    unsaved_edges = set(edges)
+  try:
     for n, node in enumerate(nodes):
-      node_group = nodes_group.create_group(node.name)
-      node._save_node(node_group)
-      for edge in node.edges:
-        if edge.node1 == node and edge in unsaved_edges:
-          edge_group = edges_group.create_group(edge.name)
-          edge._save_edge(edge_group)
-          unsaved_edges.remove(edge)
-
-  #name edges and nodes back  to their original names
-  for n, node in enumerate(nodes):
-    nodes[n].set_name(old_node_names[n])
-
-  for n, edge in enumerate(edges):
-    edges[n].set_name(old_edge_names[n])
+      node.set_name('node{}'.format(n))
+
+    for e, edge in enumerate(edges):
+      edge.set_name('edge{}'.format(e))
+
+    with h5py.File(path, 'w') as net_file:
+      nodes_group = net_file.create_group('nodes')
+      node_names_group = net_file.create_group('node_names')
+      node_names_group.create_dataset(
+          'names',
+          dtype=string_type,
+          data=np.array(list(old_node_names.values()), dtype=object))
+
+      edges_group = net_file.create_group('edges')
+      edge_names_group = net_file.create_group('edge_names')
+      edge_names_group.create_dataset(
+          'names',
+          dtype=string_type,
+          data=np.array(list(old_edge_names.values()), dtype=object))
+
+      unsaved_edges = set(edges)
+      for n, node in enumerate(nodes):
+        node_group = nodes_group.create_group(node.name)
+        node._save_node(node_group)
+        for edge in node.edges:
+          if edge.node1 == node and edge in unsaved_edges:
+            edge_group = edges_group.create_group(edge.name)
+            edge._save_edge(edge_group)
+            unsaved_edges.remove(edge)
+  finally:
+    #name edges and nodes back  to their original names
+    for n, node in enumerate(nodes):
+      nodes[n].set_name(old_node_names[n])
+
+    for n, edge in enumerate(edges):
+      edges[n].set_name(old_edge_names[n])
 
 
 def load_nodes(path: str) -> List[AbstractNode]:
-- 
2.43.0


From cb99398593e22011b8df278c5260944586ae6211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 21/95] fix: save_nodes accepts any iterable of nodes

---
 tensornetwork/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index 7abe5b7..9c4c192 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -33,6 +33,7 @@ def save_nodes(nodes: List[AbstractNode], path: Union[str, BinaryIO]) -> None:
       `nodes`.
     path: path to file where network is saved.
   """
+  nodes = list(nodes)
   if reachable(nodes) > set(nodes):
     raise ValueError(
         "Some nodes in `nodes` are connected to nodes not contained in `nodes`."
@@ -42,7 +43,6 @@ def save_nodes(nodes: List[AbstractNode], path: Union[str, BinaryIO]) -> None:
         'Some nodes in `nodes` appear more than once. This is not supported')
   #we need to iterate twice and order matters
   edges = list(get_all_edges(nodes))
-  nodes = list(nodes)
 
   old_edge_names = {n: edge.name for n, edge in enumerate(edges)}
   old_node_names = {n: node.name for n, node in enumerate(nodes)}
-- 
2.43.0


From b46f7449d1cadda19d630803dd937f0588aedda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 22/95] fix: ncon sums out single labels on more than one
 tensor

---
 tensornetwork/ncon_interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ab70948..ccbf8f5 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -414,7 +414,9 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
 
   for loc in locs:
     labels = network_structure[loc]
-    contractable_inds = [labels.index(l) for l in contractable_labels]
+    contractable_inds = [
+        labels.index(l) for l in contractable_labels if l in labels
+    ]
     network_structure[loc] = [l for l in labels if l not in contractable_labels]
     tensors[loc] = backend_obj.sum(tensors[loc], tuple(contractable_inds))
 
-- 
2.43.0


From c4081acda6708405fd60309365024d5fdb482280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 23/95] fix: ncon refuses open batch labels with different
 dimensions

---
 tensornetwork/ncon_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ccbf8f5..50b230d 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -221,9 +221,9 @@ def _check_network(network_structure: Sequence[Sequence[Union[int, str]]],
       raise ValueError(f"labels {labels} in `out_order` do not "
                        f"appear in `network_structure`.")
 
-  # check if contracted dimensions are matching
+  # check if dimensions of equal labels are matching
   mismatched_labels = []
-  for l in cont_labels:
+  for l in cont_labels + out_labels:
     dims = {
         tensor_dimensions[m][n]
         for m, labels in enumerate(network_structure)
-- 
2.43.0


From 78b224c6f9c1f17ae6ddaaa4fe39ce1da9186952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 24/95] fix: ncon takes the diagonal for batch labels repeated
 on one tensor

---
 tensornetwork/ncon_interface.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index 50b230d..11ac879 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -277,6 +277,31 @@ def _partial_trace(
   return tensor, labels, []
 
 
+def _batch_diagonal(tensor: Tensor, labels: List, batch_labels: List,
+                    backend_obj: AbstractBackend) -> Tuple[Tensor, List]:
+  """
+  Replace all axes of `tensor` which carry the same batch label by a single
+  axis, i.e. take the diagonal of `tensor` in these axes.
+  Args:
+    tensor: A tensor.
+    labels: The ncon-style labels of `tensor`.
+    batch_labels: The batch labels of the network.
+    backend_obj: A backend object.
+  Returns:
+    Tensor: The result of taking the diagonals.
+    List: The labels of the result.
+  """
+  for label in batch_labels:
+    while labels.count(label) > 1:
+      pos1 = labels.index(label)
+      pos2 = labels.index(label, pos1 + 1)
+      free = [n for n in range(len(labels)) if n not in (pos1, pos2)]
+      tensor = backend_obj.diagonal(
+          backend_obj.transpose(tensor, tuple(free + [pos1, pos2])))
+      labels = [labels[n] for n in free] + [label]
+  return tensor, labels
+
+
 def _batch_cont(
     t1: Tensor, t2: Tensor, tensors: List[Tensor],
     network_structure: List[List], con_order: List, common_batch_labels: Set,
@@ -391,8 +416,16 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
   init_con_order = [c for c in con_order]
   init_network_structure = [c for c in network_structure]
 
+  # batch labels appearing more than once on the same tensor
+  init_batch_labels = [
+      l for l in set(flat_labels)
+      if flat_labels.count(l) > 2 or (flat_labels.count(l) == 2 and l < 0)
+  ]
   # partial trace
   for n, tensor in enumerate(tensors):
+    tensor, network_structure[n] = _batch_diagonal(tensor, network_structure[n],
+                                                   init_batch_labels,
+                                                   backend_obj)
     tensors[n], network_structure[n], contracted_labels = _partial_trace(
         tensor, network_structure[n], backend_obj)
     if len(contracted_labels) > 0:
-- 
2.43.0


From ac41123054509658a7c725247d57c158d92b849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 25/95] fix: ncon contracts networks held together by closed
 batch labels only

---
 tensornetwork/ncon_interface.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index 11ac879..a7fc7d0 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -415,6 +415,7 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
   # pylint: disable=unnecessary-comprehension
   init_con_order = [c for c in con_order]
   init_network_structure = [c for c in network_structure]
+  closed_labels = {l for l in flat_labels if l > 0}
 
   # batch labels appearing more than once on the same tensor
   init_batch_labels = [
@@ -468,15 +469,18 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
     cont_ind = con_order[0]
     if cont_ind in batch_labels:
       # if its still a batch index then do it later
-      con_order.append(con_order.pop(0))
-      skip_counter += 1
+      if skip_counter < len(con_order):
+        con_order.append(con_order.pop(0))
+        skip_counter += 1
+        continue
       # avoid being stuck in an infinite loop
-      if skip_counter > len(con_order):
+      if not closed_labels <= set(init_con_order):
         raise ValueError(f"ncon seems stuck in an infinite loop. \n"
                          f"Please check if `con_order` = {init_con_order} is "
                          f"a valid contraction order for \n"
                          f"`network_structure` = {init_network_structure}")
-      continue
+      # only batch labels are left: multiply two of the tensors sharing this one
+    skip_counter = 0
 
     # find locations of `cont_ind` in `network_structure`
     locs = [
-- 
2.43.0


From 07bb2b936187088dba7648684b2a1859f92adcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:23 +0000
Subject: [PATCH 26/95] fix: qr and rq with non_negative_diagonal handle zeros
 on the diagonal

---
 tensornetwork/backends/numpy/decompositions.py      | 4 ++++
 tensornetwork/backends/tensorflow/decompositions.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/tensornetwork/backends/numpy/decompositions.py b/tensornetwork/backends/numpy/decompositions.py
index 29feb63..8cdf54a 100644
--- a/tensornetwork/backends/numpy/decompositions.py
+++ b/tensornetwork/backends/numpy/decompositions.py
@@ -90,6 +90,8 @@ def qr(
   q, r = np.linalg.qr(tensor)
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
+    # a zero on the diagonal leaves the phase free
+    phases = np.where(phases == 0, np.ones_like(phases), phases)
     q = q * phases
     r = phases.conj()[:, None] * r
   center_dim = q.shape[1]
@@ -114,6 +116,8 @@ def rq(
   q, r = np.linalg.qr(np.conj(np.transpose(tensor)))
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
+    # a zero on the diagonal leaves the phase free
+    phases = np.where(phases == 0, np.ones_like(phases), phases)
     q = q * phases
     r = phases.conj()[:, None] * r
   r, q = np.conj(np.transpose(r)), np.conj(
diff --git a/tensornetwork/backends/tensorflow/decompositions.py b/tensornetwork/backends/tensorflow/decompositions.py
index dcc5bba..67ced7c 100644
--- a/tensornetwork/backends/tensorflow/decompositions.py
+++ b/tensornetwork/backends/tensorflow/decompositions.py
@@ -168,6 +168,8 @@ def qr(
   q, r = tf.linalg.qr(tensor)
   if non_negative_diagonal:
     phases = tf.math.sign(tf.linalg.diag_part(r))
+    # a zero on the diagonal leaves the phase free
+    phases = tf.where(tf.equal(phases, 0), tf.ones_like(phases), phases)
     q = q * phases
     r = phases[:, None] * r
   center_dim = tf.shape(q)[1]
@@ -218,6 +220,8 @@ def rq(
   q, r = tf.linalg.qr(tf.math.conj(tf.transpose(tensor)))
   if non_negative_diagonal:
     phases = tf.math.sign(tf.linalg.diag_part(r))
+    # a zero on the diagonal leaves the phase free
+    phases = tf.where(tf.equal(phases, 0), tf.ones_like(phases), phases)
     q = q * phases
     r = phases[:, None] * r
   r, q = tf.math.conj(tf.transpose(r)), tf.math.conj(
-- 
2.43.0


From 0a344425f3949fe9339cb406fe35c4eb358e26fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 27/95] fix: node initializers work with the default backend

---
 tensornetwork/linalg/node_linalg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/linalg/node_linalg.py b/tensornetwork/linalg/node_linalg.py
index 67e414c..3a3527a 100644
--- a/tensornetwork/linalg/node_linalg.py
+++ b/tensornetwork/linalg/node_linalg.py
@@ -55,9 +55,8 @@ def initialize_node(fname: Text,
           axis of data.
   """
   if backend is None:
-    backend_obj = backend_contextmanager.get_default_backend()
-  else:
-    backend_obj = backends.backend_factory.get_backend(backend)
+    backend = backend_contextmanager.get_default_backend()
+  backend_obj = backends.backend_factory.get_backend(backend)
   func = getattr(backend_obj, fname)
   data = func(*fargs, **fkwargs)
   node = Node(data, name=name, axis_names=axis_names, backend=backend)
-- 
2.43.0


From 8df6aacfba4112792d44afb9c6b00748db0f53c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 28/95] fix: transpose of a node uses the given axis names

---
 tensornetwork/linalg/node_linalg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/linalg/node_linalg.py b/tensornetwork/linalg/node_linalg.py
index 3a3527a..a662f95 100644
--- a/tensornetwork/linalg/node_linalg.py
+++ b/tensornetwork/linalg/node_linalg.py
@@ -285,12 +285,12 @@ def transpose(node: AbstractNode,
         node, type(node)))
 
   perm = [node.get_axis_number(p) for p in permutation]
-  if not axis_names:
-    axis_names = node.axis_names
-
   new_node = Node(
       node.tensor, name=name, axis_names=node.axis_names, backend=node.backend)
-  return new_node.reorder_axes(perm)
+  new_node.reorder_axes(perm)
+  if axis_names:
+    new_node.add_axis_names(axis_names)
+  return new_node
 
 
 def kron(nodes: Sequence[AbstractNode]) -> AbstractNode:
-- 
2.43.0


From 8531bac483c2400d0567c877763c05245f8d4024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 29/95] fix: ones_like and zeros_like work for arrays and use
 the given dtype

---
 tensornetwork/linalg/initialization.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/linalg/initialization.py b/tensornetwork/linalg/initialization.py
index a0e4340..0c5c450 100644
--- a/tensornetwork/linalg/initialization.py
+++ b/tensornetwork/linalg/initialization.py
@@ -116,11 +116,11 @@ def ones_like(tensor: Union[Any],
      backend(optional): The backend or its name."""
   if backend is None:
     backend = backend_contextmanager.get_default_backend()
-  else:
-    backend = backend_contextmanager.backend_factory.get_backend(backend)
+  backend = backends.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
+    dtype = tensor.dtype if dtype is None else dtype
     the_tensor = initialize_tensor("ones", tensor.shape,
-                                   backend=tensor.backend, dtype=tensor.dtype)
+                                   backend=tensor.backend, dtype=dtype)
   else:
     try:
       tensor = backend.convert_to_tensor(tensor)
@@ -128,7 +128,8 @@ def ones_like(tensor: Union[Any],
       error = "Input to zeros_like has invalid type causing " \
               "error massage: \n" + str(e)
       raise TypeError(error) from e
-    the_tensor = initialize_tensor("ones", tensor.get_shape().as_list(),
+    dtype = tensor.dtype if dtype is None else dtype
+    the_tensor = initialize_tensor("ones", backend.shape_tuple(tensor),
                                    backend=backend, dtype=dtype)
   return the_tensor
 
@@ -144,11 +145,11 @@ def zeros_like(tensor: Union[Any],
      backend(optional): The backend or its name."""
   if backend is None:
     backend = backend_contextmanager.get_default_backend()
-  else:
-    backend = backend_contextmanager.backend_factory.get_backend(backend)
+  backend = backends.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
+    dtype = tensor.dtype if dtype is None else dtype
     the_tensor = initialize_tensor("zeros", tensor.shape,
-                                   backend=tensor.backend, dtype=tensor.dtype)
+                                   backend=tensor.backend, dtype=dtype)
   else:
     try:
       tensor = backend.convert_to_tensor(tensor)
@@ -156,7 +157,8 @@ def zeros_like(tensor: Union[Any],
       error = "Input to zeros_like has invalid " \
                     "type causing error massage: \n" + str(e)
       raise TypeError(error) from e
-    the_tensor = initialize_tensor("zeros", tensor.shape,
+    dtype = tensor.dtype if dtype is None else dtype
+    the_tensor = initialize_tensor("zeros", backend.shape_tuple(tensor),
                                    backend=backend, dtype=dtype)
   return the_tensor
 
-- 
2.43.0


From ab5ddfc2475de24ed9ac0bb84566ee810226df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 30/95] fix: charges of a single position keep their 1d labels

---
 tensornetwork/block_sparse/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/block_sparse/utils.py b/tensornetwork/block_sparse/utils.py
index b1caad7..ab57f4f 100644
--- a/tensornetwork/block_sparse/utils.py
+++ b/tensornetwork/block_sparse/utils.py
@@ -201,11 +201,11 @@ def collapse(array: np.ndarray) -> np.ndarray:
     else:
       width = 8 - array.shape[1]
 
-    tmparray = np.squeeze(
-        np.concatenate(
-            [array, np.zeros((array.shape[0], width), dtype=array.dtype)],
-            axis=1).view(newdtype))
-  return np.squeeze(tmparray)
+    tmparray = np.concatenate(
+        [array, np.zeros((array.shape[0], width), dtype=array.dtype)],
+        axis=1).view(newdtype)
+  # not np.squeeze: a single row has to stay a 1d array
+  return np.ravel(tmparray)
 
 
 def expand(array: np.ndarray, original_dtype: Type[np.number],
@@ -226,7 +226,7 @@ def expand(array: np.ndarray, original_dtype: Type[np.number],
   """
   if original_ndim <= 1:
     #nothing to expand
-    return np.squeeze(array)
+    return array
   if array.ndim == 1:
     #the array has been collapsed
     #now we uncollapse it
@@ -288,10 +288,11 @@ def unique(array: np.ndarray,
     if _return_index and not return_index:
       del out[1]
     out[0] = expand(out[0], array.dtype, original_width, original_ndim)
+    # the shape of the inverse depends on the numpy version
     if return_inverse and not return_index:
-      out[1] = out[1].astype(label_dtype)
+      out[1] = np.ravel(out[1]).astype(label_dtype)
     elif return_inverse and return_index:
-      out[2] = out[2].astype(label_dtype)
+      out[2] = np.ravel(out[2]).astype(label_dtype)
     out[0] = np.ascontiguousarray(out[0])
   else:
     if _return_index:
-- 
2.43.0


From 36fe27d26356aab3587d730c950d0215e698c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 31/95] fix: comparing charges and indices does not depend on
 their representation

---
 tensornetwork/block_sparse/charge.py | 11 ++++-------
 tensornetwork/block_sparse/index.py  |  9 +++------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 237b30d..0fa6609 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -652,13 +652,10 @@ def charge_equal(c1: BaseCharge, c2: BaseCharge) -> bool:
 
   res = True      
   if c1._unique_charges is not None and c2._unique_charges is not None:
-    if c1._unique_charges.shape != c2._unique_charges.shape:
-      res = False
-    elif not np.all(c1._unique_charges == c2._unique_charges):
-      res = False
-    elif not np.all(c1.charge_labels == c2.charge_labels):
-      res = False
-    return res
+    # different unique charges or labels can still encode equal charges
+    if (np.array_equal(c1._unique_charges, c2._unique_charges) and
+        np.array_equal(c1._charge_labels, c2._charge_labels)):
+      return True
 
   if c1._charges is not None and c2._charges is not None:
     if c1._charges.shape != c2._charges.shape:
diff --git a/tensornetwork/block_sparse/index.py b/tensornetwork/block_sparse/index.py
index 6d0aa68..b670169 100644
--- a/tensornetwork/block_sparse/index.py
+++ b/tensornetwork/block_sparse/index.py
@@ -12,7 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 import numpy as np
-from tensornetwork.block_sparse.charge import BaseCharge, fuse_charges
+from tensornetwork.block_sparse.charge import (BaseCharge, charge_equal,
+                                               fuse_charges)
 import copy
 from typing import List, Union
 
@@ -55,11 +56,7 @@ class Index:
     if len(other._charges) != len(self._charges):
       return False
     for n in range(len(self._charges)):
-      if not np.array_equal(self._charges[n].unique_charges,
-                            other._charges[n].unique_charges):
-        return False
-      if not np.array_equal(self._charges[n].charge_labels,
-                            other._charges[n].charge_labels):
+      if not charge_equal(self._charges[n], other._charges[n]):
         return False
     if not np.all(np.asarray(self.flow) == np.asarray(other.flow)):
       return False
-- 
2.43.0


From 88b39c0eed255fc9d7c104c127d0d81d4c65def7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 32/95] fix: charge operations keep the charge dtype

---
 .../block_sparse/blocksparse_utils.py         | 30 +++++++++-----
 tensornetwork/block_sparse/charge.py          | 40 ++++++++++++-------
 2 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 9285632..78a9a6f 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -109,7 +109,8 @@ def compute_sparse_lookup(
   obj.__init__(
       charges=unique_charges,
       charge_labels=None,
-      charge_types=charges[0].charge_types)
+      charge_types=charges[0].charge_types,
+      charge_dtype=charges[0].dtype)
 
   tmp[label_to_unique] = label_to_unique
   lookup = tmp[inverse]
@@ -267,7 +268,8 @@ def reduce_charges(charges: List[BaseCharge],
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.empty((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.empty(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.empty(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charge_dtype=charges[0].dtype)
     if return_locations:
       return obj, np.empty(0, dtype=SIZE_T)
     return obj
@@ -296,7 +298,8 @@ def reduce_charges(charges: List[BaseCharge],
   reduced_labels = np.concatenate(
       [reduced_rows[n] for n in left_ind.charge_labels])
   obj = charges[0].__new__(type(charges[0]))
-  obj.__init__(reduced_qnums, reduced_labels, charges[0].charge_types)
+  obj.__init__(reduced_qnums, reduced_labels, charges[0].charge_types,
+               charge_dtype=charges[0].dtype)
 
   if return_locations:
     row_locs = [0] * left_ind.num_unique
@@ -368,7 +371,8 @@ def _find_diagonal_sparse_blocks(
 
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums, np.arange(1, dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 charge_dtype=charges[0].dtype)
 
     return block_maps, obj, block_dims
 
@@ -388,7 +392,8 @@ def _find_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.zeros((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charge_dtype=charges[0].dtype)
 
     return [], obj, np.empty((2, 0), dtype=SIZE_T)
 
@@ -420,7 +425,8 @@ def _find_diagonal_sparse_blocks(
   obj = charges[0].__new__(type(charges[0]))
   obj.__init__(block_qnums,
                np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-               charges[0].charge_types)
+               charges[0].charge_types,
+               charge_dtype=charges[0].dtype)
   if cacher.do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
     return cacher.cache[hash_val]
@@ -492,7 +498,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.empty((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charge_dtype=charges[0].dtype)
 
     return [], obj, np.empty((2, 0), dtype=SIZE_T)
 
@@ -550,7 +557,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 charge_dtype=charges[0].dtype)
 
   elif tr_partition == len(charges):
     # special case: reshape into col vector
@@ -582,7 +590,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 charge_dtype=charges[0].dtype)
   else:
 
     unique_row_qnums, new_row_degen = compute_fused_charge_degeneracies(
@@ -626,7 +635,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 charge_dtype=charges[0].dtype)
 
   if cacher.do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 0fa6609..07ff3c0 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -202,7 +202,8 @@ class BaseCharge:
         axis=0)
     obj = self.__new__(type(self))
     obj.__init__(
-        charges=charges, charge_labels=None, charge_types=self.charge_types)
+        charges=charges, charge_labels=None, charge_types=self.charge_types,
+        charge_dtype=self.dtype)
     return obj
 
   def __add__(self, other: "BaseCharge") -> "BaseCharge":
@@ -217,7 +218,8 @@ class BaseCharge:
     fused_charges = fuse_ndarray_charges(self.charges, other.charges,
                                          self.charge_types)
     obj = self.__new__(type(self))
-    obj.__init__(fused_charges, charge_types=self.charge_types)
+    obj.__init__(fused_charges, charge_types=self.charge_types,
+                 charge_dtype=fused_charges.dtype)
     return obj
 
   def dual(self, take_dual: Optional[bool] = False) -> "BaseCharge":
@@ -241,7 +243,8 @@ class BaseCharge:
         obj.__init__(
             unique_dual_charges,
             charge_labels=self.charge_labels,
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         return obj
       dual_charges = np.stack([
           self.charge_types[n].dual_charges(self._charges[:, n])
@@ -251,7 +254,8 @@ class BaseCharge:
 
       obj = self.__new__(type(self))
       obj.__init__(
-          dual_charges, charge_labels=None, charge_types=self.charge_types)
+          dual_charges, charge_labels=None, charge_types=self.charge_types,
+          charge_dtype=self.dtype)
       return obj
 
     return self
@@ -264,7 +268,8 @@ class BaseCharge:
     charges = np.concatenate([self.charges, other.charges], axis=1)
     charge_types = self.charge_types + other.charge_types
     return BaseCharge(
-        charges=charges, charge_labels=None, charge_types=charge_types)
+        charges=charges, charge_labels=None, charge_types=charge_types,
+        charge_dtype=charges.dtype)
 
   def __mul__(self, number: bool) -> "BaseCharge":
     if not isinstance(number, (bool, np.bool_)):
@@ -313,13 +318,13 @@ class BaseCharge:
           charges=out[0],
           charge_labels=np.arange(out[0].shape[0], dtype=self.label_dtype),
           charge_types=self.charge_types,
-      )
+          charge_dtype=self.dtype)
       return obj, out[1], out[2]
     obj.__init__(
         charges=out,
         charge_labels=np.arange(out.shape[0], dtype=self.label_dtype),
         charge_types=self.charge_types,
-    )
+        charge_dtype=self.dtype)
     return obj
 
   def unique(self, #pylint: disable=inconsistent-return-statements
@@ -367,13 +372,15 @@ class BaseCharge:
             charges=unique_charges,
             charge_labels=np.arange(
                 unique_charges.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         tmp[0] = obj
       else:
         obj.__init__(
             charges=tmp,
             charge_labels=np.arange(tmp.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         tmp = obj
       return tmp
 
@@ -383,7 +390,8 @@ class BaseCharge:
             charges=self._unique_charges,
             charge_labels=np.arange(
                 self._unique_charges.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
 
         out = [obj]
         if return_inverse:
@@ -406,7 +414,8 @@ class BaseCharge:
           charges=unique_charges,
           charge_labels=np.arange(
               unique_charges.shape[0], dtype=self.label_dtype),
-          charge_types=self.charge_types)
+          charge_types=self.charge_types,
+          charge_dtype=self.dtype)
       tmp[0] = obj
       return tmp
 
@@ -447,7 +456,8 @@ class BaseCharge:
     reduced_locs = reduced_ind_labels >= 0
     new_ind_labels = reduced_ind_labels[reduced_locs].astype(self.label_dtype)
     obj = self.__new__(type(self))
-    obj.__init__(reduced_charges, new_ind_labels, self.charge_types)
+    obj.__init__(reduced_charges, new_ind_labels, self.charge_types,
+                 charge_dtype=self.dtype)
 
     if return_locations:
       return obj, strides * np.flatnonzero(reduced_locs).astype(np.uint32)
@@ -471,10 +481,12 @@ class BaseCharge:
       labels = self.charge_labels[n]
       unique_labels, new_labels = unique(labels, return_inverse=True)
       unique_charges = self.unique_charges[unique_labels, :]
-      obj.__init__(unique_charges, new_labels, self.charge_types)
+      obj.__init__(unique_charges, new_labels, self.charge_types,
+                   charge_dtype=self.dtype)
       return obj
     obj.__init__(
-        self._charges[n, :], charge_labels=None, charge_types=self.charge_types)
+        self._charges[n, :], charge_labels=None, charge_types=self.charge_types,
+        charge_dtype=self.dtype)
     return obj
 
   @property
-- 
2.43.0


From de85c8f2388ef4b4d847a56df4b2402ad90a367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 33/95] fix: outer product of block-sparse tensors keeps the
 imaginary part

---
 tensornetwork/block_sparse/blocksparsetensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 771aa1b..90f4cf6 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -903,7 +903,8 @@ def outerproduct(tensor1: BlockSparseTensor,
   order2 = [list(np.asarray(s) + len(tensor1._charges)) for s in tensor2._order]
 
   data = np.zeros(
-      compute_num_nonzero(final_charges, final_flows), dtype=tensor1.dtype)
+      compute_num_nonzero(final_charges, final_flows),
+      dtype=np.result_type(tensor1.dtype, tensor2.dtype))
   if ((len(tensor1.data) > 0) and (len(tensor2.data) > 0)) and (len(data) > 0):
     # find the location of the zero block in the output
     final_block_maps, final_block_charges, _ = _find_diagonal_sparse_blocks(
-- 
2.43.0


From ba6e83825d46ea331a2aa016773525595f08fad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:34 +0000
Subject: [PATCH 34/95] fix: hermitian conjugate of a block-sparse tensor
 inverts its flows

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 90f4cf6..b9d06ee 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -388,7 +388,7 @@ class ChargeArray:
     tensor.__init__(
         data=np.conj(self.data),
         charges=self._charges,
-        flows=self._flows,
+        flows=np.logical_not(self._flows),
         order=order,
         check_consistency=False)
 
-- 
2.43.0


From 7db1adcd800d3068a0b81cc5736b2c1447ee6cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:34 +0000
Subject: [PATCH 35/95] fix: block-sparse tensordot counts negative axes from
 the end

---
 tensornetwork/block_sparse/blocksparsetensor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index b9d06ee..35a95a2 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -969,7 +969,14 @@ def tensordot(
   if len(axes1) == 0:
     return outerproduct(tensor1, tensor2)
 
+  #negative axes count from the end
+  axes1 = [a + tensor1.ndim if a < 0 else a for a in axes1]
+  axes2 = [a + tensor2.ndim if a < 0 else a for a in axes2]
+
   #more checks
+  if min(axes1) < 0 or min(axes2) < 0:
+    raise ValueError("`axes = {}` of tensordot are out of bounds for tensors of"
+                     " rank {} and {}".format(axes, tensor1.ndim, tensor2.ndim))
   if max(axes1) >= len(tensor1.shape):
     raise ValueError(
         "rank of `tensor1` is smaller than `max(axes1) = {}.`".format(
-- 
2.43.0


From 4ee163381c4d28000626bead1b26e3d1a5aa1859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:39 +0000
Subject: [PATCH 36/95] fix: trace over fused block-sparse legs pairs the
 elementary legs in order

---
 tensornetwork/block_sparse/linalg.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index da2bf6d..e48e883 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -621,13 +621,9 @@ def trace(tensor: BlockSparseTensor,
     #flatten the shape of `tensor`
     out = tensor.reshape(
         flatten([[tensor._charges[n].dim for n in o] for o in tensor._order]))
-    _, _, labels0 = np.intersect1d(
-        tensor._order[axes[0]], flatten(out._order), return_indices=True)
-    _, _, labels1 = np.intersect1d(
-        tensor._order[axes[1]], flatten(out._order), return_indices=True)
-
-    a0 = list(labels0[np.argsort(tensor._order[axes[0]])])
-    a1 = list(labels1[np.argsort(tensor._order[axes[1]])])
+    positions = np.argsort(flatten(out._order))
+    a0 = list(positions[tensor._order[axes[0]]])
+    a1 = list(positions[tensor._order[axes[1]]])
 
     while len(a0) > 0:
       i = a0.pop(0)
-- 
2.43.0


From 73bbd63d78cf8cf33dba6bd004a33a2eb26f2591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:30 +0000
Subject: [PATCH 37/95] fix: block-sparse tensordot refuses repeated axes

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 35a95a2..002e753 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -1021,6 +1021,8 @@ def tensordot(
             np.array(axes1)[inds],
             np.array(axes2)[inds], [contr_charges_1[i] for i in inds],
             [contr_charges_2[i] for i in inds]))
+  if len(set(axes1)) < len(axes1) or len(set(axes2)) < len(axes2):
+    raise ValueError("repeated axes in `axes = {}` of tensordot".format(axes))
 
   #checks finished
 
-- 
2.43.0


From 19fcc323cec4560da85743d5413997e257f0ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:05 +0000
Subject: [PATCH 38/95] fix: decompositions of block-sparse tensors with legs
 of dimension 1

---
 .../backends/symmetric/decompositions.py      | 67 +++++++++++++------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 3bd437a..b614bb8 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -14,7 +14,7 @@
 """Tensor Decomposition Implementations."""
 import numpy as np
 import warnings
-from typing import Optional, Any, Tuple
+from typing import Optional, Any, Tuple, List
 from tensornetwork.block_sparse.blocksparse_utils import (
     _find_transposed_diagonal_sparse_blocks)
 from tensornetwork.block_sparse.utils import get_real_dtype
@@ -24,6 +24,40 @@ from tensornetwork.block_sparse.blocksparsetensor import (BlockSparseTensor,
 Tensor = Any
 
 
+def _as_matrix(tensor: BlockSparseTensor, pivot_axis: int) -> BlockSparseTensor:
+  """
+  Fuse the legs of `tensor` left and right of `pivot_axis`. A reshape would not
+  do: with legs of dimension 1 a shape does not tell which legs to fuse.
+  """
+  order = tensor._order
+  return BlockSparseTensor(
+      data=tensor.data,
+      charges=tensor._charges,
+      flows=tensor._flows,
+      order=[[o for leg in order[:pivot_axis] for o in leg],
+             [o for leg in order[pivot_axis:] for o in leg]],
+      check_consistency=False)
+
+
+def _split_axis(matrix: BlockSparseTensor, axis: int,
+                legs: List[List[int]]) -> BlockSparseTensor:
+  """
+  Split `axis` of `matrix` into axes made of as many elementary legs
+  as the elements of `legs` have.
+  """
+  flat, split, position = matrix._order[axis], [], 0
+  for leg in legs:
+    split.append(flat[position:position + len(leg)])
+    position += len(leg)
+  order = matrix._order[:axis] + split + matrix._order[axis + 1:]
+  return BlockSparseTensor(
+      data=matrix.data,
+      charges=matrix._charges,
+      flows=matrix._flows,
+      order=order,
+      check_consistency=False)
+
+
 def svd(
     bt,
     tensor: BlockSparseTensor,
@@ -36,10 +70,7 @@ def svd(
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
 
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-
-  matrix = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  matrix = _as_matrix(tensor, pivot_axis)
 
   flat_charges = matrix._charges
   flat_flows = matrix._flows
@@ -211,9 +242,8 @@ def svd(
       flows=flows_v,
       order=order_v,
       check_consistency=False)
-  left_shape = left_dims + (S.shape[0],)
-  right_shape = (S.shape[0],) + right_dims
-  return U.reshape(left_shape), S, V.reshape(right_shape), Sdisc
+  return (_split_axis(U, 0, tensor._order[:pivot_axis]), S,
+          _split_axis(V, 1, tensor._order[pivot_axis:]), Sdisc)
 
 
 def qr(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
@@ -221,13 +251,9 @@ def qr(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
 
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-  tensor = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
-  q, r = bt.qr(tensor)
-  center_dim = q.shape[1]
-  q = bt.reshape(q, list(left_dims) + [center_dim])
-  r = bt.reshape(r, [center_dim] + list(right_dims))
+  q, r = bt.qr(_as_matrix(tensor, pivot_axis))
+  q = _split_axis(q, 0, tensor._order[:pivot_axis])
+  r = _split_axis(r, 1, tensor._order[pivot_axis:])
   return q, r
 
 
@@ -236,13 +262,10 @@ def rq(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
 
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-  tensor = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
-  q, r = bt.qr(bt.conj(bt.transpose(tensor, (1, 0))))
+  matrix = _as_matrix(tensor, pivot_axis)
+  q, r = bt.qr(bt.conj(bt.transpose(matrix, (1, 0))))
   r, q = bt.conj(bt.transpose(r, (1, 0))), bt.conj(bt.transpose(
       q, (1, 0)))  #M=r*q at this point
-  center_dim = r.shape[1]
-  r = bt.reshape(r, list(left_dims) + [center_dim])
-  q = bt.reshape(q, [center_dim] + list(right_dims))
+  r = _split_axis(r, 0, tensor._order[:pivot_axis])
+  q = _split_axis(q, 1, tensor._order[pivot_axis:])
   return r, q
-- 
2.43.0


From 3f787d9ab8d1f6b14f50cea44bdc10f4af527846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:05 +0000
Subject: [PATCH 39/95] fix: truncated svd of rank-deficient block-sparse
 tensors

---
 tensornetwork/backends/symmetric/decompositions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index b614bb8..b969daf 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -114,6 +114,10 @@ def svd(
     extended_flat_singvals = np.ravel(extended_singvals)
     #sort singular values
     inds = np.argsort(extended_flat_singvals, kind='stable')
+    #leave out the padding: it is not distinguishable from
+    #singular values that are zero
+    is_singval = np.arange(max_D)[:, None] < np.array(orig_block_size)[None, :]
+    inds = inds[np.ravel(is_singval)[inds]]
     discarded_inds = np.zeros(0, dtype=SIZE_T)
     if max_truncation_error is not None:
       if relative and (len(singvals) > 0):
@@ -135,9 +139,9 @@ def svd(
       if max_singular_values > orig_num_singvals:
         max_singular_values = orig_num_singvals
       if max_singular_values < len(inds):
-        discarded_inds = np.append(discarded_inds,
-                                   inds[:(-1) * max_singular_values])
-        inds = inds[(-1) * max_singular_values::]
+        num_discarded = len(inds) - max_singular_values
+        discarded_inds = np.append(discarded_inds, inds[:num_discarded])
+        inds = inds[num_discarded:]
 
     if len(inds) == 0:
       #special case of truncation to 0 dimension;
-- 
2.43.0


From 38edbb7109dd4de6f338bb892cd236ebdc7374b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:05 +0000
Subject: [PATCH 40/95] fix: block-sparse svd without blocks keeps the dtype

---
 tensornetwork/backends/symmetric/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index b969daf..4bac69c 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -197,8 +197,8 @@ def svd(
     all_singvals = np.empty(0, dtype=get_real_dtype(tensor.dtype))
     left_charge_labels = np.empty(0, dtype=np.int16)
     right_charge_labels = np.empty(0, dtype=np.int16)
-    all_ublocks = np.empty(0, dtype=get_real_dtype(tensor.dtype))
-    all_vblocks = np.empty(0, dtype=get_real_dtype(tensor.dtype))
+    all_ublocks = np.empty(0, dtype=tensor.dtype)
+    all_vblocks = np.empty(0, dtype=tensor.dtype)
 
   if len(discarded_singvals) > 0:
     tmp_labels = [
-- 
2.43.0


From 35519e05387daf2d7765dcaa740446e3c8a54859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 41/95] fix: diagonal block-sparse matrices from fused or
 transposed vectors

---
 tensornetwork/block_sparse/linalg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index e48e883..cacc98c 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -59,6 +59,8 @@ def diag(tensor: ChargeArray) -> Any:
       raise ValueError(
           "`diag` currently only implemented for `ChargeArray` with ndim=1, "
           "found `ndim={}`".format(tensor.ndim))
+    if tensor.flat_order.tolist() != list(range(len(tensor._charges))):
+      tensor = tensor.contiguous()
     flat_charges = tensor._charges + tensor._charges
     flat_flows = list(tensor._flows) + list(np.logical_not(tensor._flows))
     flat_order = list(tensor.flat_order) + list(
@@ -79,7 +81,7 @@ def diag(tensor: ChargeArray) -> Any:
         tensor._order[0],
         list(np.asarray(tensor._order[0]) + len(tensor._charges))
     ]
-    new_charges = [tensor._charges[0].copy(), tensor._charges[0].copy()]
+    new_charges = [c.copy() for c in flat_charges]
     return BlockSparseTensor(
         data,
         charges=new_charges,
-- 
2.43.0


From 67c3d3e1e299d6362d0ff12b14783dce336c1ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:39 +0000
Subject: [PATCH 42/95] fix: inverse of a singular block-sparse matrix is
 refused

---
 tensornetwork/block_sparse/linalg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index cacc98c..3d4a2e1 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -529,6 +529,9 @@ def inv(matrix: BlockSparseTensor) -> BlockSparseTensor:
   tr_partition = len(matrix._order[0])
   blocks, _, shapes = _find_transposed_diagonal_sparse_blocks(
       flat_charges, flat_flows, tr_partition, flat_order)
+  if tuple(np.sum(shapes, axis=1)) != tuple(matrix.shape):
+    #some rows or columns have no non-zero elements
+    raise np.linalg.LinAlgError("Singular matrix")
 
   data = np.empty(np.sum(np.prod(shapes, axis=0)), dtype=matrix.dtype)
   for n, block in enumerate(blocks):
-- 
2.43.0


From dd9d44cd1137b1221261176d30f779148cd434dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:47 +0000
Subject: [PATCH 43/95] fix: cached block data is not shared between different
 symmetries

---
 .../block_sparse/blocksparse_utils.py         | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 78a9a6f..3785aed 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -12,13 +12,15 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import itertools
 import numpy as np
 from functools import reduce
 from operator import mul
+from weakref import WeakKeyDictionary
 from tensornetwork.block_sparse.index import Index
 from tensornetwork.block_sparse.charge import (fuse_charges, BaseCharge,
                                                fuse_ndarray_charges,
-                                               charge_equal)
+                                               charge_equal, U1Charge)
 from tensornetwork.block_sparse.utils import (fuse_stride_arrays, unique,
                                               fuse_degeneracies, intersect,
                                               _find_best_partition,
@@ -664,4 +666,25 @@ def _to_string(charges: List[BaseCharge], flows: Union[np.ndarray, List],
       str(np.array(flows).tostring()),
       str(tr_partition),
       str(np.array(order, dtype=np.int16).tostring())
-  ])
+  ] + [_symmetries_to_string(charges)])
+
+
+_CHARGE_TYPE_IDS = WeakKeyDictionary()
+_CHARGE_TYPE_COUNTER = itertools.count()
+
+
+def _symmetries_to_string(charges: List[BaseCharge]) -> str:
+  """
+  Map what does not show in the bytes of `charges` (symmetries and dtypes)
+  to a string. Charge types are told apart by identity because different
+  Z_N share their name. The string is empty if all charges are of the
+  default form, a single U1 symmetry with charges of type `np.int16`.
+  """
+  if all(c.charge_types == [U1Charge] and c.charges.dtype == np.int16
+         for c in charges):
+    return ''
+  return str([([
+      _CHARGE_TYPE_IDS.setdefault(t, next(_CHARGE_TYPE_COUNTER))
+      for t in c.charge_types
+  ], c.charges.dtype.str) for c in charges])
+
-- 
2.43.0


From 319055cfb0b95943bf185ede79b39e1dfd4d4459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:59 +0000
Subject: [PATCH 44/95] fix: bond_dimension works for the last bond of an MPS

---
 tensornetwork/matrixproductstates/base_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index c8500cb..02d1fdf 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -242,7 +242,7 @@ class BaseMPS:
                        f" an MPS of length {len(self)}")
     if bond < len(self):
       return self.tensors[bond].shape[0]
-    return self.tensors[bond].shape[2]
+    return self.tensors[-1].shape[2]
 
   @property
   def bond_dimensions(self) -> List:
-- 
2.43.0


From bb8da5ada15c19bf05aece12a531f54c9f4cba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:59 +0000
Subject: [PATCH 45/95] fix: check_canonical works for an MPS with a single
 site

---
 tensornetwork/matrixproductstates/base_mps.py   | 2 ++
 tensornetwork/matrixproductstates/finite_mps.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 02d1fdf..aada4a7 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -668,6 +668,8 @@ class BaseMPS:
       else:
         continue
       deviations.append(deviation**2)
+    if not deviations:  # a single site is always canonical
+      return self.backend.norm(self.backend.zeros((1,), dtype=self.dtype))
     return self.backend.sqrt(sum(deviations[1:], deviations[0]))
 
   def get_tensor(self, site: int) -> Tensor:
diff --git a/tensornetwork/matrixproductstates/finite_mps.py b/tensornetwork/matrixproductstates/finite_mps.py
index bc5dd8e..fd69407 100644
--- a/tensornetwork/matrixproductstates/finite_mps.py
+++ b/tensornetwork/matrixproductstates/finite_mps.py
@@ -163,6 +163,8 @@ class FiniteMPS(BaseMPS):
       else:
         continue
       deviations.append(deviation**2)
+    if not deviations:  # a single site is always canonical
+      return self.backend.norm(self.backend.zeros((1,), dtype=self.dtype))
     return self.backend.sqrt(sum(deviations[1:], deviations[0]))
 
   def left_envs(self, sites: Sequence[int]) -> Dict:
-- 
2.43.0


From 6c7f330a43a8fe0cb53b787034bb77a82642dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:59 +0000
Subject: [PATCH 46/95] fix: normalizing an MPS does not modify the tensors it
 was made from

---
 tensornetwork/matrixproductstates/base_mps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index aada4a7..caf72c2 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -169,7 +169,9 @@ class BaseMPS:
     if site == self.center_position:
       Z = self.norm(self.tensors[self.center_position])
       if normalize:
-        self.tensors[self.center_position] /= Z
+        # not in place: the tensor can belong to the caller
+        self.tensors[self.center_position] = (
+            self.tensors[self.center_position] / Z)
       return Z
 
     #shift center_position to the right using QR or SV decomposition
-- 
2.43.0


From 5ec7a51adeaabfe6a6844291d0a8e711418f21ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:59 +0000
Subject: [PATCH 47/95] fix: apply_two_site_gate without truncation puts the
 center where it says

---
 tensornetwork/matrixproductstates/base_mps.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index caf72c2..c46b824 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -583,14 +583,12 @@ class BaseMPS:
     else:
       tw = self.backend.zeros(1, dtype=self.dtype)
       if center_position == site2:
-        R, Q = self.backend.rq(tensor, pivot_axis=2)
-        left_tensor = R
-        right_tensor = Q
+        # left_tensor is isometric, the orthogonality center is at site2
+        left_tensor, right_tensor = self.backend.qr(tensor, pivot_axis=2)
         set_center_position(site2)
       else:
-        Q, R = self.backend.qr(tensor, pivot_axis=2)
-        left_tensor = Q
-        right_tensor = R
+        # right_tensor is isometric, the orthogonality center is at site1
+        left_tensor, right_tensor = self.backend.rq(tensor, pivot_axis=2)
         set_center_position(site1)
 
     self.tensors[site1] = left_tensor
-- 
2.43.0


From 2015248538ec6990375c75a62feb07cb7e795787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:54 +0000
Subject: [PATCH 48/95] fix: MPS position with a truncation error works for
 jitting backends

---
 tensornetwork/matrixproductstates/base_mps.py | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index c46b824..26d4062 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -94,11 +94,10 @@ class BaseMPS:
     ########################################################################
     ##########       define functions for jitted operations       ##########
     ########################################################################
-    @partial(jit, backend=self.backend, static_argnums=(1, 2, 3))
-    def svd(tensor,
-            pivot_axis=2,
-            max_singular_values=None,
-            max_truncation_error=None):
+    def _svd(tensor,
+             pivot_axis=2,
+             max_singular_values=None,
+             max_truncation_error=None):
       return self.backend.svd(
           tensor=tensor,
           pivot_axis=pivot_axis,
@@ -106,6 +105,17 @@ class BaseMPS:
           max_truncation_error=max_truncation_error,
           relative=True)
 
+    jitted_svd = jit(_svd, backend=self.backend, static_argnums=(1, 2, 3))
+
+    def svd(tensor,
+            pivot_axis=2,
+            max_singular_values=None,
+            max_truncation_error=None):
+      # with a `max_truncation_error` the shapes of the results depend
+      # on the data, which cannot be jitted
+      fun = jitted_svd if max_truncation_error is None else _svd
+      return fun(tensor, pivot_axis, max_singular_values, max_truncation_error)
+
     self.svd = svd
 
     @partial(jit, backend=self.backend)
-- 
2.43.0


From 346e2a5a66f3cf20f9a77f29c4d7f7d340082431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 49/95] fix: canonicalize of a finite MPS returns its norm also
 when normalizing

---
 .../matrixproductstates/finite_mps.py         | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/matrixproductstates/finite_mps.py b/tensornetwork/matrixproductstates/finite_mps.py
index fd69407..f610d68 100644
--- a/tensornetwork/matrixproductstates/finite_mps.py
+++ b/tensornetwork/matrixproductstates/finite_mps.py
@@ -132,18 +132,34 @@ class FiniteMPS(BaseMPS):
       `Tensor`: The norm of the MPS.
     """
     N = len(self.tensors)
+    norms = []
+
+    def sweep(site):
+      # collects what each step takes out of the state
+      step = 1 if site >= self.center_position else -1
+      start = self.center_position if len(self.tensors) == 1 else (
+          self.center_position + step)
+      for n in range(start, site + step, step):
+        norms.append(self.position(n, normalize=normalize))
+
     if self.center_position is not None:
       pos = self.center_position
       if pos >= N // 2:
         self.center_position = 0
-        self.position(N - 1, normalize=normalize)
+        sweep(N - 1)
       else:
         self.center_position = len(self.tensors) - 1
-        self.position(0, normalize=normalize)
-      return self.position(pos, normalize=normalize)
-
-    self.center_position = len(self.tensors) - 1
-    return self.position(0, normalize=normalize)
+        sweep(0)
+      sweep(pos)
+    else:
+      self.center_position = len(self.tensors) - 1
+      sweep(0)
+    if not normalize:
+      return norms[-1]
+    norm = norms[0]
+    for n in norms[1:]:
+      norm = norm * n
+    return norm
 
   def check_canonical(self) -> Tensor:
     """Check whether the MPS is in the expected canonical form.
-- 
2.43.0


From 499c35f4620bc94c8fed2fd2fe43ac0b0ff840a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:19 +0000
Subject: [PATCH 50/95] fix: two-body correlators are returned in the order of
 the given sites

---
 tensornetwork/matrixproductstates/base_mps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 26d4062..896394a 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -488,7 +488,9 @@ class BaseMPS:
           L = Node(
               self.apply_transfer_operator(n % N, 'left', L.tensor),
               backend=self.backend)
-    return [self.backend.item(o) for o in c]
+    # `c` holds one value per distinct site, in increasing order
+    values = dict(zip(np.unique(sites2), [self.backend.item(o) for o in c]))
+    return [values[s] for s in sites2]
 
   def apply_two_site_gate(self,
                           gate: Tensor,
-- 
2.43.0


From 2d7cbdb7863222439306a916d4fa30b41b12dfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:19 +0000
Subject: [PATCH 51/95] fix: two-body correlators of a finite MPS refuse sites
 which do not exist

---
 tensornetwork/matrixproductstates/finite_mps.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tensornetwork/matrixproductstates/finite_mps.py b/tensornetwork/matrixproductstates/finite_mps.py
index f610d68..d61bae2 100644
--- a/tensornetwork/matrixproductstates/finite_mps.py
+++ b/tensornetwork/matrixproductstates/finite_mps.py
@@ -331,5 +331,13 @@ class FiniteMPS(BaseMPS):
           right_envs[site - 1] = right_env
     return {k: v.tensor for k, v in right_envs.items()}
 
+  def measure_two_body_correlator(self, op1: Tensor, op2: Tensor, site1: int,
+                                  sites2: Sequence[int]) -> List:
+    for site in sites2:
+      if site < 0 or site >= len(self):
+        raise ValueError("Site {} in sites2 out of range: not between "
+                         "0 <= site < N = {}.".format(site, len(self)))
+    return super().measure_two_body_correlator(op1, op2, site1, sites2)
+
   def save(self, path: str):
     raise NotImplementedError()
-- 
2.43.0


From 83963a64922ee1bd674beb5876b2f3a57e3ee9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:31 +0000
Subject: [PATCH 52/95] fix: jax backend works with jax versions without
 jax.ops and jax.ShapedArray

---
 tensornetwork/backends/jax/jax_backend.py     |   2 +-
 .../backends/jax/jitted_functions.py          | 156 +++++++++---------
 2 files changed, 78 insertions(+), 80 deletions(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index 447cb56..f54283a 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -725,7 +725,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
 
   def index_update(self, tensor: Tensor, mask: Tensor,
                    assignee: Tensor) -> Tensor:
-    return libjax.ops.index_update(tensor, mask, assignee)
+    return jnp.asarray(tensor).at[mask].set(assignee)
 
   def inv(self, matrix: Tensor) -> Tensor:
     if len(matrix.shape) > 2:
diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index 63adb84..eb60069 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -24,11 +24,11 @@ def _iterative_classical_gram_schmidt(jax: types.ModuleType) -> Callable:
 
   JaxPrecisionType = type(jax.lax.Precision.DEFAULT)
   def iterative_classical_gram_schmidt(
-      vector: jax.ShapedArray,
-      krylov_vectors: jax.ShapedArray,
+      vector: jax.numpy.ndarray,
+      krylov_vectors: jax.numpy.ndarray,
       precision: JaxPrecisionType,
       iterations: int = 2,
-      ) -> jax.ShapedArray:
+      ) -> jax.numpy.ndarray:
     """
     Orthogonalize `vector`  to all rows of `krylov_vectors`.
 
@@ -39,7 +39,7 @@ def _iterative_classical_gram_schmidt(jax: types.ModuleType) -> Callable:
       iterations: Number of iterations.
 
     Returns:
-      jax.ShapedArray: The orthogonalized vector.
+      jax.numpy.ndarray: The orthogonalized vector.
     """
     i1 = list(range(1, len(krylov_vectors.shape)))
     i2 = list(range(len(vector.shape)))
@@ -92,9 +92,9 @@ def _generate_jitted_eigsh_lanczos(jax: types.ModuleType) -> Callable:
   JaxPrecisionType = type(jax.lax.Precision.DEFAULT)
 
   @functools.partial(jax.jit, static_argnums=(3, 4, 5, 6, 7))
-  def jax_lanczos(matvec: Callable, arguments: List, init: jax.ShapedArray,
+  def jax_lanczos(matvec: Callable, arguments: List, init: jax.numpy.ndarray,
                   ncv: int, neig: int, landelta: float, reortho: bool,
-                  precision: JaxPrecisionType) -> Tuple[jax.ShapedArray, List]:
+                  precision: JaxPrecisionType) -> Tuple[jax.numpy.ndarray, List]:
     """
     Lanczos iteration for symmeric eigenvalue problems. If reortho = False,
     the Krylov basis is constructed without explicit re-orthogonalization. 
@@ -117,7 +117,7 @@ def _generate_jitted_eigsh_lanczos(jax: types.ModuleType) -> Callable:
       precision: jax.lax.Precision type used in jax.numpy.vdot
 
     Returns:
-      jax.ShapedArray: Eigenvalues
+      jax.numpy.ndarray: Eigenvalues
       List: Eigenvectors
       int: Number of iterations
     """
@@ -219,8 +219,7 @@ def _generate_jitted_eigsh_lanczos(jax: types.ModuleType) -> Callable:
       krv, unitary, vectors = vals
       dim = unitary.shape[1]
       n, m = jax.numpy.divmod(i, dim)
-      vectors = jax.ops.index_add(vectors, jax.ops.index[n, :],
-                                  krv[m + 1] * unitary[m, n])
+      vectors = vectors.at[n, :].add(krv[m + 1] * unitary[m, n])
       return [krv, unitary, vectors]
 
     _vectors = jax.numpy.zeros((neig,) + shape, dtype=dtype)
@@ -247,8 +246,8 @@ def _generate_lanczos_factorization(jax: types.ModuleType) -> Callable:
 
   @functools.partial(jax.jit, static_argnums=(6, 7, 8, 9))
   def _lanczos_fact(
-      matvec: Callable, args: List, v0: jax.ShapedArray,
-      Vm: jax.ShapedArray, alphas: jax.ShapedArray, betas: jax.ShapedArray,
+      matvec: Callable, args: List, v0: jax.numpy.ndarray,
+      Vm: jax.numpy.ndarray, alphas: jax.numpy.ndarray, betas: jax.numpy.ndarray,
       start: int, num_krylov_vecs: int, tol: float, precision: JaxPrecisionType
   ):
     """
@@ -288,13 +287,13 @@ def _generate_lanczos_factorization(jax: types.ModuleType) -> Callable:
         krylov-vector falls below `tol`.
 
     Returns:
-      jax.ShapedArray: An array of shape 
+      jax.numpy.ndarray: An array of shape 
         `(num_krylov_vecs, np.prod(initial_state.shape))` of krylov vectors.
-      jax.ShapedArray: The diagonal elements of the tridiagonal reduced
+      jax.numpy.ndarray: The diagonal elements of the tridiagonal reduced
         operator ("alphas")
-      jax.ShapedArray: The lower-diagonal elements of the tridiagonal reduced
+      jax.numpy.ndarray: The lower-diagonal elements of the tridiagonal reduced
         operator ("betas")
-      jax.ShapedArray: The unnormalized residual of the Lanczos process.
+      jax.numpy.ndarray: The unnormalized residual of the Lanczos process.
       float: The norm of the residual.
       int: The number of performed iterations.
       bool: if `True`: iteration hit an invariant subspace.
@@ -402,10 +401,10 @@ def _generate_arnoldi_factorization(jax: types.ModuleType) -> Callable:
 
   @functools.partial(jax.jit, static_argnums=(5, 6, 7, 8))
   def _arnoldi_fact(
-      matvec: Callable, args: List, v0: jax.ShapedArray,
-      Vm: jax.ShapedArray, H: jax.ShapedArray, start: int,
+      matvec: Callable, args: List, v0: jax.numpy.ndarray,
+      Vm: jax.numpy.ndarray, H: jax.numpy.ndarray, start: int,
       num_krylov_vecs: int, tol: float, precision: JaxPrecisionType
-  ) -> Tuple[jax.ShapedArray, jax.ShapedArray, jax.ShapedArray, float, int,
+  ) -> Tuple[jax.numpy.ndarray, jax.numpy.ndarray, jax.numpy.ndarray, float, int,
              bool]:
     """
     Compute an m-step arnoldi factorization of `matvec`, with
@@ -441,11 +440,11 @@ def _generate_arnoldi_factorization(jax: types.ModuleType) -> Callable:
       tol: Convergence parameter. Iteration is terminated if the norm of a
         krylov-vector falls below `tol`.
     Returns:
-      jax.ShapedArray: An array of shape 
+      jax.numpy.ndarray: An array of shape 
         `(num_krylov_vecs, np.prod(initial_state.shape))` of krylov vectors.
-      jax.ShapedArray: Upper Hessenberg matrix of shape 
+      jax.numpy.ndarray: Upper Hessenberg matrix of shape 
         `(num_krylov_vecs, num_krylov_vecs`) of the Arnoldi processs.
-      jax.ShapedArray: The unnormalized residual of the Arnoldi process.
+      jax.numpy.ndarray: The unnormalized residual of the Arnoldi process.
       int: The norm of the residual.
       int: The number of performed iterations.
       bool: if `True`: iteration hit an invariant subspace.
@@ -541,7 +540,7 @@ def _LR_sort(jax):
   @functools.partial(jax.jit, static_argnums=(0,))
   def sorter(
       p: int,
-      evals: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+      evals: jax.numpy.ndarray) -> Tuple[jax.numpy.ndarray, jax.numpy.ndarray]:
     inds = jax.numpy.argsort(jax.numpy.real(evals), kind='stable')[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
@@ -551,7 +550,7 @@ def _SA_sort(jax):
   @functools.partial(jax.jit, static_argnums=(0,))
   def sorter(
       p: int,
-      evals: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+      evals: jax.numpy.ndarray) -> Tuple[jax.numpy.ndarray, jax.numpy.ndarray]:
     inds = jax.numpy.argsort(evals, kind='stable')
     shifts = evals[inds][-p:]
     return shifts, inds
@@ -561,7 +560,7 @@ def _LA_sort(jax):
   @functools.partial(jax.jit, static_argnums=(0,))
   def sorter(
       p: int,
-      evals: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+      evals: jax.numpy.ndarray) -> Tuple[jax.numpy.ndarray, jax.numpy.ndarray]:
     inds = jax.numpy.argsort(evals, kind='stable')[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
@@ -571,7 +570,7 @@ def _LM_sort(jax):
   @functools.partial(jax.jit, static_argnums=(0,))
   def sorter(
       p: int,
-      evals: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+      evals: jax.numpy.ndarray) -> Tuple[jax.numpy.ndarray, jax.numpy.ndarray]:
     inds = jax.numpy.argsort(jax.numpy.abs(evals), kind='stable')[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
@@ -583,9 +582,9 @@ def _LM_sort(jax):
 def _shifted_QR(jax):
   @functools.partial(jax.jit, static_argnums=(4,))
   def shifted_QR(
-      Vm: jax.ShapedArray, Hm: jax.ShapedArray, fm: jax.ShapedArray,
-      shifts: jax.ShapedArray,
-      numeig: int) -> Tuple[jax.ShapedArray, jax.ShapedArray, jax.ShapedArray]:
+      Vm: jax.numpy.ndarray, Hm: jax.numpy.ndarray, fm: jax.numpy.ndarray,
+      shifts: jax.numpy.ndarray,
+      numeig: int) -> Tuple[jax.numpy.ndarray, jax.numpy.ndarray, jax.numpy.ndarray]:
     # compress arnoldi factorization
     q = jax.numpy.zeros(Hm.shape[0], dtype=Hm.dtype)
     q = q.at[-1].set(1.0)
@@ -607,14 +606,13 @@ def _shifted_QR(jax):
 
 def _get_vectors(jax):
   @functools.partial(jax.jit, static_argnums=(3,))
-  def get_vectors(Vm: jax.ShapedArray, unitary: jax.ShapedArray,
-                  inds: jax.ShapedArray, numeig: int) -> jax.ShapedArray:
+  def get_vectors(Vm: jax.numpy.ndarray, unitary: jax.numpy.ndarray,
+                  inds: jax.numpy.ndarray, numeig: int) -> jax.numpy.ndarray:
 
     def body_vector(i, states):
       dim = unitary.shape[1]
       n, m = jax.numpy.divmod(i, dim)
-      states = jax.ops.index_add(states, jax.ops.index[n, :],
-                                 Vm[m, :] * unitary[m, inds[n]])
+      states = states.at[n, :].add(Vm[m, :] * unitary[m, inds[n]])
       return states
 
     state_vectors = jax.numpy.zeros([numeig, Vm.shape[1]], dtype=Vm.dtype)
@@ -628,7 +626,7 @@ def _get_vectors(jax):
 
 def _check_eigvals_convergence_eigh(jax):
   @functools.partial(jax.jit, static_argnums=(3,))
-  def check_eigvals_convergence(beta_m: float, Hm: jax.ShapedArray,
+  def check_eigvals_convergence(beta_m: float, Hm: jax.numpy.ndarray,
                                 Hm_norm: float,
                                 tol: float) -> bool:
     eigvals, eigvecs = jax.numpy.linalg.eigh(Hm)
@@ -643,7 +641,7 @@ def _check_eigvals_convergence_eigh(jax):
 
 def _check_eigvals_convergence_eig(jax):
   @functools.partial(jax.jit, static_argnums=(2, 3))
-  def check_eigvals_convergence(beta_m: float, Hm: jax.ShapedArray,
+  def check_eigvals_convergence(beta_m: float, Hm: jax.numpy.ndarray,
                                 tol: float, numeig: int) -> bool:
     eigvals, eigvecs = jax.numpy.linalg.eig(Hm)
     # TODO (mganahl) confirm that this is a valid matrix norm)
@@ -698,10 +696,10 @@ def _implicitly_restarted_arnoldi(jax: types.ModuleType) -> Callable:
 
   @functools.partial(jax.jit, static_argnums=(3, 4, 5, 6, 7, 8))
   def implicitly_restarted_arnoldi_method(
-      matvec: Callable, args: List, initial_state: jax.ShapedArray,
+      matvec: Callable, args: List, initial_state: jax.numpy.ndarray,
       num_krylov_vecs: int, numeig: int, which: Text, tol: float, maxiter: int,
       precision: JaxPrecisionType
-  ) -> Tuple[jax.ShapedArray, List[jax.ShapedArray], int]:
+  ) -> Tuple[jax.numpy.ndarray, List[jax.numpy.ndarray], int]:
     """
     Implicitly restarted arnoldi factorization of `matvec`. The routine
     finds the lowest `numeig` eigenvector-eigenvalue pairs of `matvec`
@@ -733,7 +731,7 @@ def _implicitly_restarted_arnoldi(jax: types.ModuleType) -> Callable:
       precision: jax.lax.Precision used within lax operations.
 
     Returns:
-      jax.ShapedArray: Eigenvalues
+      jax.numpy.ndarray: Eigenvalues
       List: Eigenvectors
       int: Number of inner krylov iterations of the last arnoldi
         factorization.
@@ -916,10 +914,10 @@ def _implicitly_restarted_lanczos(jax: types.ModuleType) -> Callable:
 
   @functools.partial(jax.jit, static_argnums=(3, 4, 5, 6, 7, 8))
   def implicitly_restarted_lanczos_method(
-      matvec: Callable, args: List, initial_state: jax.ShapedArray,
+      matvec: Callable, args: List, initial_state: jax.numpy.ndarray,
       num_krylov_vecs: int, numeig: int, which: Text, tol: float, maxiter: int,
       precision: JaxPrecisionType
-  ) -> Tuple[jax.ShapedArray, List[jax.ShapedArray], int]:
+  ) -> Tuple[jax.numpy.ndarray, List[jax.numpy.ndarray], int]:
     """
     Implicitly restarted lanczos factorization of `matvec`. The routine
     finds the lowest `numeig` eigenvector-eigenvalue pairs of `matvec`
@@ -955,7 +953,7 @@ def _implicitly_restarted_lanczos(jax: types.ModuleType) -> Callable:
       precision: jax.lax.Precision used within lax operations.
 
     Returns:
-      jax.ShapedArray: Eigenvalues
+      jax.numpy.ndarray: Eigenvalues
       List: Eigenvectors
       int: Number of inner krylov iterations of the last lanczos
         factorization.
@@ -1110,9 +1108,9 @@ def gmres_wrapper(jax: types.ModuleType):
   jnp = jax.numpy
   JaxPrecisionType = type(jax.lax.Precision.DEFAULT)
   def gmres_m(
-      A_mv: Callable, A_args: Sequence, b: jax.ShapedArray, x0: jax.ShapedArray,
+      A_mv: Callable, A_args: Sequence, b: jax.numpy.ndarray, x0: jax.numpy.ndarray,
       tol: float, atol: float, num_krylov_vectors: int, maxiter: int,
-      precision: JaxPrecisionType) -> Tuple[jax.ShapedArray, float, int, bool]:
+      precision: JaxPrecisionType) -> Tuple[jax.numpy.ndarray, float, int, bool]:
     """
     Solve A x = b for x using the m-restarted GMRES method. This is
     intended to be called via jax_backend.gmres.
@@ -1152,10 +1150,10 @@ def gmres_wrapper(jax: types.ModuleType):
         break
     return x, beta, n_iter, done
 
-  def gmres(A_mv: Callable, A_args: Sequence, b: jax.ShapedArray,
-            x: jax.ShapedArray, num_krylov_vectors: int, x0: jax.ShapedArray,
+  def gmres(A_mv: Callable, A_args: Sequence, b: jax.numpy.ndarray,
+            x: jax.numpy.ndarray, num_krylov_vectors: int, x0: jax.numpy.ndarray,
             tol: float, b_norm: float,
-            precision: JaxPrecisionType) -> Tuple[bool, float, jax.ShapedArray]:
+            precision: JaxPrecisionType) -> Tuple[bool, float, jax.numpy.ndarray]:
     """
     A single restart of GMRES.
 
@@ -1180,8 +1178,8 @@ def gmres_wrapper(jax: types.ModuleType):
     return done, beta, x
 
   @jax.jit
-  def gmres_residual(A_mv: Callable, A_args: Sequence, b: jax.ShapedArray,
-                     x: jax.ShapedArray) -> Tuple[jax.ShapedArray, float]:
+  def gmres_residual(A_mv: Callable, A_args: Sequence, b: jax.numpy.ndarray,
+                     x: jax.numpy.ndarray) -> Tuple[jax.numpy.ndarray, float]:
     """
     Computes the residual vector r and its norm, beta, which is minimized by
     GMRES.
@@ -1200,9 +1198,9 @@ def gmres_wrapper(jax: types.ModuleType):
     beta = jnp.linalg.norm(r)
     return r, beta
 
-  def gmres_update(k: int, V: jax.ShapedArray, R: jax.ShapedArray,
-                   beta_vec: jax.ShapedArray,
-                   x0: jax.ShapedArray) -> jax.ShapedArray:
+  def gmres_update(k: int, V: jax.numpy.ndarray, R: jax.numpy.ndarray,
+                   beta_vec: jax.numpy.ndarray,
+                   x0: jax.numpy.ndarray) -> jax.numpy.ndarray:
     """
     Updates the solution in response to the information computed by the
     main GMRES loop.
@@ -1223,10 +1221,10 @@ def gmres_wrapper(jax: types.ModuleType):
 
   @functools.partial(jax.jit, static_argnums=(2, 8))
   def gmres_krylov(
-      A_mv: Callable, A_args: Sequence, n_kry: int, x0: jax.ShapedArray,
-      r: jax.ShapedArray, beta: float, tol: float, b_norm: float,
+      A_mv: Callable, A_args: Sequence, n_kry: int, x0: jax.numpy.ndarray,
+      r: jax.numpy.ndarray, beta: float, tol: float, b_norm: float,
       precision: JaxPrecisionType
-  ) -> Tuple[int, jax.ShapedArray, jax.ShapedArray, jax.ShapedArray]:
+  ) -> Tuple[int, jax.numpy.ndarray, jax.numpy.ndarray, jax.numpy.ndarray]:
     """
     Builds the Arnoldi decomposition of (A, v), where v is the normalized
     residual of the current solution estimate. The decomposition is
@@ -1261,9 +1259,9 @@ def gmres_wrapper(jax: types.ModuleType):
     # sine: givens[1, :]
     givens = jnp.zeros((2, n_kry), dtype=x0.dtype)
     beta_vec = jnp.zeros((n_kry + 1), dtype=x0.dtype)
-    beta_vec = jax.ops.index_update(beta_vec, jax.ops.index[0], beta)
+    beta_vec = beta_vec.at[0].set(beta)
     V = jnp.zeros((n, n_kry + 1), dtype=x0.dtype)
-    V = jax.ops.index_update(V, jax.ops.index[:, 0], v)
+    V = V.at[:, 0].set(v)
     R = jnp.zeros((n_kry + 1, n_kry), dtype=x0.dtype)
 
     # The variable data for the carry call. Each iteration modifies these
@@ -1293,12 +1291,12 @@ def gmres_wrapper(jax: types.ModuleType):
 
       V, H = kth_arnoldi_step(k, A_mv, A_args, V, R, tol, precision)
       R_col, givens = apply_givens_rotation(H[:, k], givens, k)
-      R = jax.ops.index_update(R, jax.ops.index[:, k], R_col[:])
+      R = R.at[:, k].set(R_col[:])
 
       # Update the residual vector.
       cs, sn = givens[:, k] * beta_vec[k]
-      beta_vec = jax.ops.index_update(beta_vec, jax.ops.index[k], cs)
-      beta_vec = jax.ops.index_update(beta_vec, jax.ops.index[k + 1], sn)
+      beta_vec = beta_vec.at[k].set(cs)
+      beta_vec = beta_vec.at[k + 1].set(sn)
       err = jnp.abs(sn) / b_norm
       gmres_variables = (k + 1, V, R, beta_vec, err, givens)
       return (gmres_variables, gmres_constants)
@@ -1342,17 +1340,17 @@ def gmres_wrapper(jax: types.ModuleType):
     k, V, R, beta_vec, err, givens = gmres_variables
     return (k, V, R, beta_vec)
 
-  VarType = Tuple[int, jax.ShapedArray, jax.ShapedArray, jax.ShapedArray,
-                  float, jax.ShapedArray]
-  ConstType = Tuple[float, Callable, Sequence, jax.ShapedArray, int]
+  VarType = Tuple[int, jax.numpy.ndarray, jax.numpy.ndarray, jax.numpy.ndarray,
+                  float, jax.numpy.ndarray]
+  ConstType = Tuple[float, Callable, Sequence, jax.numpy.ndarray, int]
   GmresCarryType = Tuple[VarType, ConstType]
 
 
   @functools.partial(jax.jit, static_argnums=(6,))
   def kth_arnoldi_step(
-      k: int, A_mv: Callable, A_args: Sequence, V: jax.ShapedArray,
-      H: jax.ShapedArray, tol: float,
-      precision: JaxPrecisionType) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+      k: int, A_mv: Callable, A_args: Sequence, V: jax.numpy.ndarray,
+      H: jax.numpy.ndarray, tol: float,
+      precision: JaxPrecisionType) -> Tuple[jax.numpy.ndarray, jax.numpy.ndarray]:
     """
     Performs the kth iteration of the Arnoldi reduction procedure.
     Args:
@@ -1368,8 +1366,8 @@ def gmres_wrapper(jax: types.ModuleType):
     """
 
     def _gs_step(
-        r: jax.ShapedArray,
-        v_i: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+        r: jax.numpy.ndarray,
+        v_i: jax.numpy.ndarray) -> Tuple[jax.numpy.ndarray, jax.numpy.ndarray]:
       """
       Performs one iteration of the stabilized Gram-Schmidt procedure, with
       r to be orthonormalized against {v} = {v_0, v_1, ...}.
@@ -1395,17 +1393,17 @@ def gmres_wrapper(jax: types.ModuleType):
                          lambda x: 0.*x[0],
                          (v_new, v_norm)
                          )
-    H = jax.ops.index_update(H, jax.ops.index[:, k], H_k)
-    H = jax.ops.index_update(H, jax.ops.index[k+1, k], v_norm)
-    V = jax.ops.index_update(V, jax.ops.index[:, k+1], r_new)
+    H = H.at[:, k].set(H_k)
+    H = H.at[k+1, k].set(v_norm)
+    V = V.at[:, k+1].set(r_new)
     return V, H
 
 ####################################################################
 # GIVENS ROTATIONS
 ####################################################################
   @jax.jit
-  def apply_rotations(H_col: jax.ShapedArray, givens: jax.ShapedArray,
-                      k: int) -> jax.ShapedArray:
+  def apply_rotations(H_col: jax.numpy.ndarray, givens: jax.numpy.ndarray,
+                      k: int) -> jax.numpy.ndarray:
     """
     Successively applies each of the rotations stored in givens to H_col.
 
@@ -1429,8 +1427,8 @@ def gmres_wrapper(jax: types.ModuleType):
       sn = givens[1, i]
       H_i = cs * H_col[i] - sn * H_col[i + 1]
       H_ip1 = sn * H_col[i] + cs * H_col[i + 1]
-      H_col = jax.ops.index_update(H_col, jax.ops.index[i], H_i)
-      H_col = jax.ops.index_update(H_col, jax.ops.index[i + 1], H_ip1)
+      H_col = H_col.at[i].set(H_i)
+      H_col = H_col.at[i + 1].set(H_ip1)
       return (H_col, i + 1, k, givens)
 
     rotation_carry = jax.lax.while_loop(loop_condition,
@@ -1440,8 +1438,8 @@ def gmres_wrapper(jax: types.ModuleType):
     return H_col
 
   @jax.jit
-  def apply_givens_rotation(H_col: jax.ShapedArray, givens: jax.ShapedArray,
-                            k: int) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+  def apply_givens_rotation(H_col: jax.numpy.ndarray, givens: jax.numpy.ndarray,
+                            k: int) -> Tuple[jax.numpy.ndarray, jax.numpy.ndarray]:
     """
     Applies the Givens rotations stored in the vectors cs and sn to the vector
     H_col. Then constructs a new Givens rotation that eliminates H_col's
@@ -1465,12 +1463,12 @@ def gmres_wrapper(jax: types.ModuleType):
     H_col = apply_rotations(H_col, givens, k)
 
     cs_k, sn_k = givens_rotation(H_col[k], H_col[k + 1])
-    givens = jax.ops.index_update(givens, jax.ops.index[0, k], cs_k)
-    givens = jax.ops.index_update(givens, jax.ops.index[1, k], sn_k)
+    givens = givens.at[0, k].set(cs_k)
+    givens = givens.at[1, k].set(sn_k)
 
     r_k = cs_k * H_col[k] - sn_k * H_col[k + 1]
-    R_col = jax.ops.index_update(H_col, jax.ops.index[k], r_k)
-    R_col = jax.ops.index_update(R_col, jax.ops.index[k + 1], 0.)
+    R_col = H_col.at[k].set(r_k)
+    R_col = R_col.at[k + 1].set(0.)
     return R_col, givens
 
   @jax.jit
-- 
2.43.0


From 210f91045428b5b1c66f6b5b9e89d3db295099fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:57 +0000
Subject: [PATCH 53/95] fix: MPO Hamiltonians of a single site have a single
 tensor

---
 tensornetwork/matrixproductstates/mpo.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tensornetwork/matrixproductstates/mpo.py b/tensornetwork/matrixproductstates/mpo.py
index 16b79c9..55ccfb5 100644
--- a/tensornetwork/matrixproductstates/mpo.py
+++ b/tensornetwork/matrixproductstates/mpo.py
@@ -155,6 +155,12 @@ class FiniteXXZ(FiniteMPO):
     self.Jxy = Jxy
     self.Bz = Bz
     N = len(Bz)
+    if N == 1:
+      mpo = [np.zeros((1, 1, 2, 2), dtype=dtype)]
+      mpo[0][0, 0, 0, 0] = -0.5 * Bz[0]
+      mpo[0][0, 0, 1, 1] = 0.5 * Bz[0]
+      super().__init__(tensors=mpo, backend=backend, name=name)
+      return
     mpo = []
     temp = np.zeros((1, 5, 2, 2), dtype=dtype)
     #BSz
@@ -250,6 +256,10 @@ class FiniteTFI(FiniteMPO):
     N = len(Bz)
     sigma_x = np.array([[0, 1], [1, 0]]).astype(dtype)
     sigma_z = np.diag([-1, 1]).astype(dtype)
+    if N == 1:
+      mpo = [(self.Bz[0] * sigma_z).reshape((1, 1, 2, 2))]
+      super().__init__(tensors=mpo, backend=backend, name=name)
+      return
     mpo = []
     temp = np.zeros(shape=[1, 3, 2, 2], dtype=dtype)
     #Bsigma_z
@@ -332,6 +342,10 @@ class FiniteFreeFermion2D(FiniteMPO):
     particle_number = np.diag([0, 1]).astype(dtype)
     sigma_z = np.diag([1, -1]).astype(dtype)
     cdag = c.T.conj()
+    if N1 * N2 == 1:
+      mpo = [(v * particle_number).astype(dtype).reshape((1, 1, 2, 2))]
+      super().__init__(tensors=mpo, backend=backend, name=name)
+      return
 
     mpo_dim = 2 * N1 + 2
     mpo_matrix = np.zeros((1, mpo_dim, 2, 2), dtype=dtype)
-- 
2.43.0


From ad60f270ab0cb792cf55a420b23ff26a69fc5798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:57 +0000
Subject: [PATCH 54/95] fix: DMRG compute_energy works for every backend

---
 tensornetwork/matrixproductstates/dmrg.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/matrixproductstates/dmrg.py b/tensornetwork/matrixproductstates/dmrg.py
index 647e333..479008e 100644
--- a/tensornetwork/matrixproductstates/dmrg.py
+++ b/tensornetwork/matrixproductstates/dmrg.py
@@ -561,12 +561,13 @@ class BaseDMRG:
   def compute_energy(self):
     self.mps.position(0)  #move center position to the left end
     self.compute_right_envs()
-    return ncon([
-        self.add_right_layer(self.right_envs[0], self.mps.tensors[0],
-                             self.mpo.tensors[0]),
-        self.left_envs[0],
-    ], [[1, 2, 3], [1, 2, 3]],
-                backend=self.backend.name).item()
+    return self.backend.item(
+        ncon([
+            self.add_right_layer(self.right_envs[0], self.mps.tensors[0],
+                                 self.mpo.tensors[0]),
+            self.left_envs[0],
+        ], [[1, 2, 3], [1, 2, 3]],
+             backend=self.backend.name))
 
 
 class FiniteDMRG(BaseDMRG):
-- 
2.43.0


From 14ab93ce6b6abdbfb8fbccc87580f4a429aa8dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 55/95] fix: greedy path solver never contracts a tensor with
 itself

---
 tensornetwork/contractors/custom_path_solvers/pathsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
index 9a96bdc..35767e9 100644
--- a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
+++ b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
@@ -117,7 +117,7 @@ def greedy_cost_solve(log_adj_in: np.ndarray):
     # penalize trivial contractions and self-contractions
     triv_conts = (log_adj < tol)
     trimmed_costs = single_cost + np.max(single_cost.flatten()) * triv_conts
-    trimmed_costs = trimmed_costs + np.max(trimmed_costs.flatten()) * np.eye(N)
+    np.fill_diagonal(trimmed_costs, np.inf)
 
     # find best contraction
     tensors_to_contract = np.divmod(np.argmin(trimmed_costs), N)
-- 
2.43.0


From 44c35b35581098b1e87769ea311b295d23ab8491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 56/95] fix: path solvers accept networks of a single tensor

---
 .../contractors/custom_path_solvers/pathsolvers.py         | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
index 35767e9..79cae8c 100644
--- a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
+++ b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
@@ -33,7 +33,7 @@ def greedy_size_solve(log_adj_in: np.ndarray):
   N0 = log_adj_in.shape[0]
   log_adj = log_adj_in.copy().reshape(N0, N0)
   orders = np.zeros([2, 0], dtype=int)
-  costs = None
+  costs = None if N0 > 1 else float('-inf')  # single tensors need no contraction
 
   for _ in range(N0 - 1):
     # compute tensor dims
@@ -105,7 +105,7 @@ def greedy_cost_solve(log_adj_in: np.ndarray):
   N = log_adj_in.shape[0]
   log_adj = log_adj_in.copy().reshape(N, N)
   orders = np.zeros([2, 0], dtype=int)
-  costs = None
+  costs = None if N > 1 else float('-inf')  # single tensors need no contraction
 
   for _ in range(N - 1):
     # compute tensor dims and costs
@@ -201,7 +201,8 @@ def full_solve_complete(log_adj: np.ndarray,
   if order_was_found:
     # return result from full algorithm
     is_optimal = (total_truncated == 0)
-    return orders.reshape(2, N - 1), costs.item(), is_optimal
+    cost = costs.item() if N > 1 else cost_greedy
+    return orders.reshape(2, N - 1), cost, is_optimal
 
   # return result from greedy algorithm
   is_optimal = False
-- 
2.43.0


From 6c6f5eeef04ffd5edf0b2d99c2cb770402c328b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 57/95] fix: ncon_cost_check works with numpy versions without
 np.float

---
 tensornetwork/contractors/custom_path_solvers/nconinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/nconinterface.py b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
index 1ddd52d..f63975c 100644
--- a/tensornetwork/contractors/custom_path_solvers/nconinterface.py
+++ b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
@@ -140,7 +140,7 @@ def ncon_cost_check(tensors: List[np.ndarray],
     float: the cost of the network contraction, given as log10(total_FLOPS).
   """
 
-  total_cost = np.float('-inf')
+  total_cost = float('-inf')
   N = len(tensors)
   tensor_dims = [np.array(np.log10(ele.shape)) for ele in tensors]
   connect_list = [np.array(ele) for ele in labels]
-- 
2.43.0


From a5157bb0515640906f135c52801fe695563c3b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:33 +0000
Subject: [PATCH 58/95] fix: chains of identities are eliminated in any order

---
 tensornetwork/quantum/quantum.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensornetwork/quantum/quantum.py b/tensornetwork/quantum/quantum.py
index 1dc7981..04d3881 100644
--- a/tensornetwork/quantum/quantum.py
+++ b/tensornetwork/quantum/quantum.py
@@ -140,6 +140,13 @@ def eliminate_identities(nodes: Collection[AbstractNode]) -> Tuple[dict, dict]:
         dangling_edges_dict[e] = e
       nodes_dict[n] = n
 
+  # The replacement of an edge can be an edge of another identity, which has
+  # been replaced as well.
+  for edge, new_edge in dangling_edges_dict.items():
+    while dangling_edges_dict.get(new_edge, new_edge) is not new_edge:
+      new_edge = dangling_edges_dict[new_edge]
+    dangling_edges_dict[edge] = new_edge
+
   return nodes_dict, dangling_edges_dict
 
 
-- 
2.43.0


From 6fb30d2d80fdfbba6f5e51fda9925f43e54fbbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:35 +0000
Subject: [PATCH 59/95] fix: contracting a quantum scalar referred to by an
 identity only

---
 tensornetwork/quantum/quantum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/quantum/quantum.py b/tensornetwork/quantum/quantum.py
index 04d3881..a6fe1bf 100644
--- a/tensornetwork/quantum/quantum.py
+++ b/tensornetwork/quantum/quantum.py
@@ -453,8 +453,8 @@ class QuOperator():
     self.in_edges = [dangling_edges_dict[e] for e in self.in_edges]
     self.out_edges = [dangling_edges_dict[e] for e in self.out_edges]
     self.ignore_edges = set(dangling_edges_dict[e] for e in self.ignore_edges)
-    self.ref_nodes = set(
-        nodes_dict[n] for n in self.ref_nodes if n in nodes_dict)
+    # a reference node can have been eliminated: refer to all that remain
+    self.ref_nodes = set(nodes_dict.values())
     self.check_network()
 
     if final_edge_order:
-- 
2.43.0


From 5ebba20d316a73967e626e16c1a14e439037909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 60/95] fix: numpy backend sums over all axes by default

---
 tensornetwork/backends/numpy/numpy_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 2d37539..9225031 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -604,7 +604,8 @@ class NumPyBackend(abstract_backend.AbstractBackend):
           tensor: Tensor,
           axis: Optional[Sequence[int]] = None,
           keepdims: bool = False) -> Tensor:
-    return np.sum(tensor, axis=tuple(axis), keepdims=keepdims)
+    axis = tuple(axis) if axis is not None else None
+    return np.sum(tensor, axis=axis, keepdims=keepdims)
 
   def matmul(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
     if (tensor1.ndim <= 1) or (tensor2.ndim <= 1):
-- 
2.43.0


From 072efddc7f4fe2f246daa10c7ec46f2d56475835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 61/95] fix: numpy tensordot over all axes accepts negative
 axes and scalars

---
 tensornetwork/backends/numpy/numpy_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 9225031..b23debe 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -36,9 +36,10 @@ class NumPyBackend(abstract_backend.AbstractBackend):
                 axes: Union[int, Sequence[Sequence[int]]]) -> Tensor:
     # use einsum for scalar-like products, its much faster
     if not isinstance(axes, int):
-      if (len(axes[0]) == a.ndim) and (len(axes[1]) == b.ndim):
+      if (a.ndim > 0 and len(axes[0]) == a.ndim) and (len(axes[1]) == b.ndim):
         if not len(axes[0]) == len(axes[1]):
           raise ValueError("shape-mismatch for sum")
+        axes = [[ax + a.ndim if ax < 0 else ax for ax in axs] for axs in axes]
         u, pos1, _ = np.intersect1d(axes[0],
                                     axes[1],
                                     return_indices=True,
-- 
2.43.0


From 434443604ecef84cad947fd52c80f83a67cfdd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 62/95] fix: tensorflow diagflat flattens its argument

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index d0d2463..f247fde 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -312,7 +312,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
       tensor: A new tensor with all zeros save the specified diagonal.
     """
     #pylint: disable=unexpected-keyword-arg
-    return tf.linalg.diag(tensor, k=k)
+    return tf.linalg.diag(tf.reshape(tensor, (-1,)), k=k)
 
   def trace(self, tensor: Tensor, offset: int = 0, axis1: int = -2,
             axis2: int = -1) -> Tensor:
-- 
2.43.0


From c1e49cd3d7c6625568ab87cd313501ccee1f0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 63/95] fix: tensorflow item returns a scalar for every rank

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index f247fde..6b22576 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -394,7 +394,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
                          f"got {tensor.shape}")
 
     if numel == 1:
-      return tensor[0]
+      return tf.reshape(tensor, ())
     return tensor
 
   def power(self, a: Tensor, b: Union[Tensor, float]) -> Tensor:
-- 
2.43.0


From 14f28e5b18d063d6eff69572957f5c664f721e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:16 +0000
Subject: [PATCH 64/95] fix: size of a wrapped scalar is an integer

---
 tensornetwork/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/tensor.py b/tensornetwork/tensor.py
index 7c39448..c2b4cb1 100644
--- a/tensornetwork/tensor.py
+++ b/tensornetwork/tensor.py
@@ -32,7 +32,7 @@ class Tensor():
     self.backend = backend_obj
     self.array = self.backend.convert_to_tensor(array)
     self.shape = array.shape
-    self.size = np.prod(self.shape)
+    self.size = int(np.prod(self.shape))
     self.ndim = len(self.shape)
 
   @property
-- 
2.43.0


From 88100644e453d289f3edb0a2e69f326ab53c398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:16 +0000
Subject: [PATCH 65/95] fix: kron refuses tensors of different backends

---
 tensornetwork/linalg/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/linalg/operations.py b/tensornetwork/linalg/operations.py
index d8c484f..139323f 100644
--- a/tensornetwork/linalg/operations.py
+++ b/tensornetwork/linalg/operations.py
@@ -322,7 +322,7 @@ def kron(tensorA: Tensor, tensorB: Tensor) -> Tensor:
     ValueError: - If backends, are not matching.
                 - If ndims of the input tensors are not even.
   """
-  tensors = [tensorA, tensorA]
+  tensors = [tensorA, tensorB]
   all_backends_same, errstr = _check_backends(tensors, "kron")
   if not all_backends_same:
     raise ValueError(errstr)
-- 
2.43.0


From 3df6c06a1b3feccbc29223cf07f541f0584c3657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:26 +0000
Subject: [PATCH 66/95] fix: numpy randn makes scalars

---
 tensornetwork/backends/numpy/numpy_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index b23debe..4cfb051 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -139,9 +139,9 @@ class NumPyBackend(abstract_backend.AbstractBackend):
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
         (np.dtype(dtype) is np.dtype(np.complex64))):
-      return np.random.randn(
-          *shape).astype(dtype) + 1j * np.random.randn(*shape).astype(dtype)
-    return np.random.randn(*shape).astype(dtype)
+      return np.random.standard_normal(shape).astype(
+          dtype) + 1j * np.random.standard_normal(shape).astype(dtype)
+    return np.random.standard_normal(shape).astype(dtype)
 
   def random_uniform(self,
                      shape: Tuple[int, ...],
-- 
2.43.0


From 3b07845cff6363da80ad8898aa7188df2f0d1073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:26 +0000
Subject: [PATCH 67/95] fix: a random seed of zero is a seed

---
 tensornetwork/backends/jax/jax_backend.py               | 4 ++--
 tensornetwork/backends/numpy/numpy_backend.py           | 4 ++--
 tensornetwork/backends/symmetric/symmetric_backend.py   | 4 ++--
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index f54283a..d517a9a 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -163,7 +163,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[np.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
-    if not seed:
+    if seed is None:
       seed = np.random.randint(0, 2**63)
     key = libjax.random.PRNGKey(seed)
 
@@ -194,7 +194,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[np.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if not seed:
+    if seed is None:
       seed = np.random.randint(0, 2**63)
     key = libjax.random.PRNGKey(seed)
 
diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 4cfb051..c7d85dc 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -134,7 +134,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
             dtype: Optional[np.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       np.random.seed(seed)
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
@@ -149,7 +149,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
                      dtype: Optional[np.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       np.random.seed(seed)
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 8cedc6d..ce0478e 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -146,7 +146,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
             dtype: Optional[numpy.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       numpy.random.seed(seed)
     return self.bs.randn(shape, dtype)
 
@@ -156,7 +156,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
                      dtype: Optional[numpy.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       numpy.random.seed(seed)
     dtype = dtype if dtype is not None else numpy.float64
     return self.bs.random(shape, boundaries, dtype)
diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 6b22576..34afa93 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -142,7 +142,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[Type[np.number]] = None,
             seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       tf.random.set_seed(seed)
 
     dtype = dtype if dtype is not None else tf.float64
@@ -157,7 +157,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[Type[np.number]] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       tf.random.set_seed(seed)
 
     dtype = dtype if dtype is not None else tf.float64
-- 
2.43.0


From 08910847115e318cd1ba7d5c52d561ea3ce6a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:26 +0000
Subject: [PATCH 68/95] fix: tensorflow random_uniform does not reset the
 global seed

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 34afa93..331b4fd 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -174,7 +174,6 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
               minval=boundaries[0],
               maxval=boundaries[1],
               dtype=dtype.real_dtype))
-    tf.random.set_seed(10)
     #pylint: disable=unexpected-keyword-arg
     a = tf.random.uniform(
         shape=shape, minval=boundaries[0], maxval=boundaries[1], dtype=dtype)
-- 
2.43.0


From 99329a13953d60e4a3fe3405035a150b121a0d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:26 +0000
Subject: [PATCH 69/95] fix: tensorflow random constructors accept numpy's
 complex dtypes

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 331b4fd..8a4a5cc 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -145,7 +145,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
     if seed is not None:
       tf.random.set_seed(seed)
 
-    dtype = dtype if dtype is not None else tf.float64
+    dtype = tf.as_dtype(dtype) if dtype is not None else tf.float64
     if (dtype is tf.complex128) or (dtype is tf.complex64):
       return tf.complex(
           tf.random.normal(shape=shape, dtype=dtype.real_dtype),
@@ -160,7 +160,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
     if seed is not None:
       tf.random.set_seed(seed)
 
-    dtype = dtype if dtype is not None else tf.float64
+    dtype = tf.as_dtype(dtype) if dtype is not None else tf.float64
     if (dtype is tf.complex128) or (dtype is tf.complex64):
       #pylint: disable=unexpected-keyword-arg
       return tf.complex(
-- 
2.43.0


From 0925bc92caf77d6033ea89fe0c85996385f4043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:26 +0000
Subject: [PATCH 70/95] fix: ChargeArray.random respects its boundaries

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 002e753..4ee09b9 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -104,7 +104,7 @@ class ChargeArray:
 
     data, charges, flows, order = _data_initializer(
         _random, lambda charges, flows: np.prod([c.dim for c in charges]),
-        indices, dtype=dtype)
+        indices, dtype=dtype, boundaries=boundaries)
     return cls(data=data, charges=charges, flows=flows, order=order)
 
   @property
-- 
2.43.0


From 6176141acb93f20d81d22b209c81748bc9bc52d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:46 +0000
Subject: [PATCH 71/95] fix: numpy eigsh_lanczos leaves the arrays of the
 caller alone

---
 tensornetwork/backends/numpy/numpy_backend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index c7d85dc..bf875d3 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -482,7 +482,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
 
     vector_n = initial_state
     Z = self.norm(vector_n)
-    vector_n /= Z
+    vector_n = vector_n / Z
     norms_vector_n = []
     diag_elements = []
     krylov_vecs = []
@@ -515,10 +515,10 @@ class NumPyBackend(abstract_backend.AbstractBackend):
         first = False
         eigvalsold = eigvals[0:numeig]
       if it > 0:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
-        A_vector_n -= (krylov_vecs[-2] * norms_vector_n[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-2] * norms_vector_n[-1])
       else:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
       vector_n = A_vector_n
 
     A_tridiag = np.diag(diag_elements) + np.diag(
-- 
2.43.0


From 00565f4622c0ba06664afaf55627f1f98f88bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:46 +0000
Subject: [PATCH 72/95] fix: symmetric gmres starts from zeros by default

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index ce0478e..92eedb4 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -540,7 +540,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
     """
 
     if x0 is None:
-      x0 = self.bs.randn_like(b)
+      x0 = self.bs.zeros_like(b)
 
     if not self.bs.compare_shapes(x0, b):
       errstring = (f"x0.sparse_shape = \n{x0.sparse_shape} \ndoes not match "
-- 
2.43.0


From dce8d87aaf7eee4525c45dc4e81b7eec89200269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:46 +0000
Subject: [PATCH 73/95] fix: jax eigensolvers work with jax versions without
 argsort's kind

---
 tensornetwork/backends/jax/jitted_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index eb60069..5a16a60 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -541,7 +541,7 @@ def _LR_sort(jax):
   def sorter(
       p: int,
       evals: jax.numpy.ndarray) -> Tuple[jax.numpy.ndarray, jax.numpy.ndarray]:
-    inds = jax.numpy.argsort(jax.numpy.real(evals), kind='stable')[::-1]
+    inds = jax.numpy.argsort(jax.numpy.real(evals))[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
   return sorter
@@ -551,7 +551,7 @@ def _SA_sort(jax):
   def sorter(
       p: int,
       evals: jax.numpy.ndarray) -> Tuple[jax.numpy.ndarray, jax.numpy.ndarray]:
-    inds = jax.numpy.argsort(evals, kind='stable')
+    inds = jax.numpy.argsort(evals)
     shifts = evals[inds][-p:]
     return shifts, inds
   return sorter
@@ -561,7 +561,7 @@ def _LA_sort(jax):
   def sorter(
       p: int,
       evals: jax.numpy.ndarray) -> Tuple[jax.numpy.ndarray, jax.numpy.ndarray]:
-    inds = jax.numpy.argsort(evals, kind='stable')[::-1]
+    inds = jax.numpy.argsort(evals)[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
   return sorter
@@ -571,7 +571,7 @@ def _LM_sort(jax):
   def sorter(
       p: int,
       evals: jax.numpy.ndarray) -> Tuple[jax.numpy.ndarray, jax.numpy.ndarray]:
-    inds = jax.numpy.argsort(jax.numpy.abs(evals), kind='stable')[::-1]
+    inds = jax.numpy.argsort(jax.numpy.abs(evals))[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
   return sorter
-- 
2.43.0


From 4dd1b68a9fc7d5cda85d31c6ad21f34af543dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:53 +0000
Subject: [PATCH 74/95] fix: jax eigs handles real operators without restarts

---
 .../backends/jax/jitted_functions.py          | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index 5a16a60..cfb07bc 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -775,22 +775,22 @@ def _implicitly_restarted_arnoldi(jax: types.ModuleType) -> Callable:
       raise ValueError(f"which = {which} not implemented")
 
     it = 1  # we already did one arnoldi factorization
-    if maxiter > 1:
-      # cast arrays to correct complex dtype
-      if Vm.dtype == np.float64:
-        dtype = np.complex128
-      elif Vm.dtype == np.float32:
-        dtype = np.complex64
-      elif Vm.dtype == np.complex128:
-        dtype = Vm.dtype
-      elif Vm.dtype == np.complex64:
-        dtype = Vm.dtype
-      else:
-        raise TypeError(f'dtype {Vm.dtype} not supported')
-
-      Vm = Vm.astype(dtype)
-      Hm = Hm.astype(dtype)
-      fm = fm.astype(dtype)
+    # cast arrays to correct complex dtype (the eigenvalues and eigenvectors
+    # of a real operator are complex in general)
+    if Vm.dtype == np.float64:
+      dtype = np.complex128
+    elif Vm.dtype == np.float32:
+      dtype = np.complex64
+    elif Vm.dtype == np.complex128:
+      dtype = Vm.dtype
+    elif Vm.dtype == np.complex64:
+      dtype = Vm.dtype
+    else:
+      raise TypeError(f'dtype {Vm.dtype} not supported')
+
+    Vm = Vm.astype(dtype)
+    Hm = Hm.astype(dtype)
+    fm = fm.astype(dtype)
 
     def outer_loop(carry):
       Hm, Vm, fm, it, numits, ar_converged, _, _, = carry
-- 
2.43.0


From 28a66c64346477400148a8ea1263b505817385e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:53 +0000
Subject: [PATCH 75/95] fix: jax eigs and eigsh prefer genuine eigenvalues to
 those of unused Krylov vectors

---
 .../backends/jax/jitted_functions.py          | 54 +++++++++++--------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index cfb07bc..3337cec 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -604,6 +604,30 @@ def _shifted_QR(jax):
     return Vm, Hm, fk
   return shifted_QR
 
+def _eig_leading_block(jax):
+  def eig_leading_block(Hm: jax.numpy.ndarray, numits: int, eig: Callable,
+                        sort_fun: Callable) -> Tuple[
+                            jax.numpy.ndarray, jax.numpy.ndarray,
+                            jax.numpy.ndarray]:
+    """
+    Diagonalize the leading `numits` times `numits` block of `Hm`.
+    The remaining (spurious) eigenvalues are returned as 0.0
+    and always come last in the returned order.
+    """
+    mask = numits > jax.numpy.arange(Hm.shape[0])
+    Hm = mask[:, None] * Hm * mask[None, :]
+    # move the spurious eigenvalues out of the spectrum of the block
+    norm = jax.numpy.linalg.norm(Hm)
+    Hm = Hm + jax.numpy.diag(
+        jax.numpy.where(mask, 0.0, 4.0 * norm + 1.0).astype(Hm.dtype))
+    eigvals, U = eig(Hm)
+    spurious = jax.numpy.abs(eigvals) > 2.0 * norm + 0.5
+    inds = sort_fun(eigvals)[1]
+    inds = inds[jax.numpy.argsort(spurious[inds])]
+    eigvals = jax.numpy.where(spurious, jax.numpy.zeros_like(eigvals), eigvals)
+    return eigvals, U, inds
+  return eig_leading_block
+
 def _get_vectors(jax):
   @functools.partial(jax.jit, static_argnums=(3,))
   def get_vectors(Vm: jax.numpy.ndarray, unitary: jax.numpy.ndarray,
@@ -841,29 +865,19 @@ def _implicitly_restarted_arnoldi(jax: types.ModuleType) -> Callable:
     converged = False
     carry = [Hm, Vm, fm, it, numits, ar_converged, converged, norm]
     res = jax.lax.while_loop(cond_fun, outer_loop, carry)
-    Hm, Vm = res[0], res[1]
-    numits, converged = res[4], res[6]
-    # if `ar_converged` then `norm`is below convergence threshold
-    # set it to 0.0 in this case to prevent `jnp.linalg.eig` from finding a
-    # spurious eigenvalue of order `norm`.
-    Hm = Hm.at[numits, numits - 1].set(
-        jax.lax.cond(converged, lambda x: Hm.dtype.type(0.0), lambda x: x,
-                     Hm[numits, numits - 1]))
-
+    Hm, Vm, numits = res[0], res[1], res[4]
     # if the Arnoldi-factorization stopped early (after `numit` iterations)
     # before exhausting the allowed size of the Krylov subspace,
-    # (i.e. `numit` < 'num_krylov_vecs'), set elements
-    # at positions m, n with m, n >= `numit` to 0.0.
+    # (i.e. `numit` < 'num_krylov_vecs'), elements
+    # at positions m, n with m, n >= `numit` are discarded.
 
     # FIXME (mganahl): under certain circumstances, the routine can still
     # return spurious 0 eigenvalues: if arnoldi terminated early
     # (after numits < num_krylov_vecs iterations)
     # and numeig > numits, then spurious 0.0 eigenvalues will be returned
-
-    Hm = (numits > jax.numpy.arange(num_krylov_vecs))[:, None] * Hm * (
-        numits > jax.numpy.arange(num_krylov_vecs))[None, :]
-    eigvals, U = jax.numpy.linalg.eig(Hm)
-    inds = sort_fun(eigvals)[1][:numeig]
+    eigvals, U, inds = _eig_leading_block(jax)(Hm, numits, jax.numpy.linalg.eig,
+                                               sort_fun)
+    inds = inds[:numeig]
     vectors = get_vectors(Vm, U, inds, numeig)
     return eigvals[inds], [
         jax.numpy.reshape(vectors[n, :], shape)
@@ -1067,11 +1081,9 @@ def _implicitly_restarted_lanczos(jax: types.ModuleType) -> Callable:
     # return spurious 0 eigenvalues: if lanczos terminated early
     # (after numits < num_krylov_vecs iterations)
     # and numeig > numits, then spurious 0.0 eigenvalues will be returned
-    Hm = (numits > jax.numpy.arange(num_krylov_vecs))[:, None] * Hm * (
-        numits > jax.numpy.arange(num_krylov_vecs))[None, :]
-
-    eigvals, U = jax.numpy.linalg.eigh(Hm)
-    inds = sort_fun(eigvals)[1][:numeig]
+    eigvals, U, inds = _eig_leading_block(jax)(Hm, numits,
+                                               jax.numpy.linalg.eigh, sort_fun)
+    inds = inds[:numeig]
     vectors = get_vectors(Vm, U, inds, numeig)
     return eigvals[inds], [
         jax.numpy.reshape(vectors[n, :], shape) for n in range(numeig)
-- 
2.43.0


From 60663ff4ed71ebc649ff5c105a9c9c4dd3d113d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:53 +0000
Subject: [PATCH 76/95] fix: jax eigsh_lanczos discards the step that exhausted
 the Krylov space

---
 .../backends/jax/jitted_functions.py          | 38 ++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index 3337cec..42105c7 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -150,7 +150,11 @@ def _generate_jitted_eigsh_lanczos(jax: types.ModuleType) -> Callable:
           [previous_vector, krylov_vectors, reortho])
 
       beta = norm(previous_vector)
-      normalized_vector = previous_vector / beta
+      # a vanishing vector means that the krylov space is exhausted; the
+      # iteration stops after this step, which is discarded
+      normalized_vector = jax.lax.cond(
+          jax.numpy.real(beta) > landelta, lambda x: x[0] / x[1],
+          lambda x: 0.0 * x[0], [previous_vector, beta])
       Av = matvec(normalized_vector, *arguments)
       alpha = scalar_product(normalized_vector, Av)
       alphas = alphas.at[i - 1].set(alpha)
@@ -176,7 +180,7 @@ def _generate_jitted_eigsh_lanczos(jax: types.ModuleType) -> Callable:
 
     def cond_fun(vals):
       betas, i = vals[-2], vals[-1]
-      norm = betas[i - 1]
+      norm = jax.numpy.real(betas[i - 1])
       return jax.lax.cond(i <= ncv, lambda x: x[0] > x[1], lambda x: False,
                           [norm, landelta])
 
@@ -190,28 +194,36 @@ def _generate_jitted_eigsh_lanczos(jax: types.ModuleType) -> Callable:
     # of the projected linear operator
     # the first two beta-values can be discarded
     # set betas[0] to 1.0 for initialization of loop
-    # betas[2] is set to the norm of the initial vector.
+    # betas[1] is set to the norm of the initial vector.
     betas = jax.numpy.zeros(ncv + 1, dtype=dtype)
     betas = betas.at[0].set(1.0)
     # diagonal elements of the projected linear operator
     alphas = jax.numpy.zeros(ncv, dtype=dtype)
     initvals = [krylov_vecs, alphas, betas, 1]
-    krylov_vecs, alphas, betas, numits = jax.lax.while_loop(
+    krylov_vecs, alphas, betas, _ = jax.lax.while_loop(
         cond_fun, body_lanczos, initvals)
-    # FIXME (mganahl): if the while_loop stopps early at iteration i, alphas
-    # and betas are 0.0 at positions n >= i - 1. eigh will then wrongly give
-    # degenerate eigenvalues 0.0. JAX does currently not support
-    # dynamic slicing with variable slice sizes, so these beta values
-    # can't be truncated. Thus, if numeig >= i - 1, jitted_lanczos returns
-    # a set of spurious eigen vectors and eigen values.
-    # If algebraically small EVs are desired, one can initialize `alphas` with
-    # large positive values, thus pushing the spurious eigenvalues further
-    # away from the desired ones (similar for algebraically large EVs)
+    # If the while_loop stopps early, only the krylov vectors whose norm was
+    # not too small are genuine. JAX does currently not support
+    # dynamic slicing with variable slice sizes, so the other entries
+    # can't be truncated. They are decoupled, and get large positive `alphas`
+    # which push the spurious eigenvalues above the desired ones.
+    # If numeig > numits, they are returned as 0.0.
+    genuine = jax.numpy.cumprod(
+        (jax.numpy.real(betas[1:]) > landelta).astype(np.int32)) > 0
+    numits = jax.numpy.sum(genuine)
+    betas = betas.at[2:].set(
+        jax.numpy.where(genuine[1:], betas[2:], jax.numpy.zeros_like(betas[2:])))
+    alphas = jax.numpy.where(genuine, alphas, jax.numpy.zeros_like(alphas))
+    large = 1.0 + 4.0 * (jax.numpy.linalg.norm(alphas) +
+                         jax.numpy.linalg.norm(betas[2:]))
+    alphas = jax.numpy.where(genuine, alphas, large.astype(alphas.dtype))
 
     #FIXME: replace with eigh_banded once JAX supports it
     A_tridiag = jax.numpy.diag(alphas) + jax.numpy.diag(
         betas[2:], 1) + jax.numpy.diag(jax.numpy.conj(betas[2:]), -1)
     eigvals, U = jax.numpy.linalg.eigh(A_tridiag)
+    eigvals = jax.numpy.where(
+        numits > jax.numpy.arange(ncv), eigvals, jax.numpy.zeros_like(eigvals))
     eigvals = eigvals.astype(dtype)
 
     # expand eigenvectors in krylov basis
-- 
2.43.0


From f080d03c65e779aceffdf340463e453b9800bf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:53 +0000
Subject: [PATCH 77/95] fix: jax gmres caches the operator per shape, apart
 from the eigensolvers

---
 tensornetwork/backends/jax/jax_backend.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index d517a9a..4d850ef 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -684,19 +684,23 @@ class JaxBackend(abstract_backend.AbstractBackend):
       raise NotImplementedError("A_kwargs is not supported by the Jax backend.")
 
 
-    if A_mv not in _CACHED_MATVECS:
+    # the cached function depends on the shape of the vectors; the same `A_mv`
+    # can also be in use by the eigensolvers
+    matvec_key = ("gmres", A_mv, tuple(b.shape))
+    if matvec_key not in _CACHED_MATVECS:
+      bshape = b.shape
       @libjax.tree_util.Partial
       def matrix_matvec(x, *args):
-        x = x.reshape(b.shape)
+        x = x.reshape(bshape)
         result = A_mv(x, *args)
         return result.ravel()
-      _CACHED_MATVECS[A_mv] = matrix_matvec
+      _CACHED_MATVECS[matvec_key] = matrix_matvec
 
     if "gmres" not in _CACHED_FUNCTIONS:
       _CACHED_FUNCTIONS["gmres"] = jitted_functions.gmres_wrapper(libjax)
     gmres_m = _CACHED_FUNCTIONS["gmres"].gmres_m
-    x, _, n_iter, converged = gmres_m(_CACHED_MATVECS[A_mv], A_args, b.ravel(),
-                                      x0, tol, atol, num_krylov_vectors,
+    x, _, n_iter, converged = gmres_m(_CACHED_MATVECS[matvec_key], A_args,
+                                      b.ravel(), x0, tol, atol, num_krylov_vectors,
                                       maxiter, self.jax_precision)
     if converged:
       info = 0
-- 
2.43.0


From dd6b62eef7152c0f2fb9d234c167b581918c4695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:53 +0000
Subject: [PATCH 78/95] fix: jax gmres restarts from the current solution and
 reports convergence of the residual

---
 .../backends/jax/jitted_functions.py          | 68 ++++++++++---------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index 42105c7..bb1bb71 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -1167,17 +1167,20 @@ def gmres_wrapper(jax: types.ModuleType):
     x = x0
     b_norm = jnp.linalg.norm(b)
     tol = max(tol * b_norm, atol)
-    for n_iter in range(maxiter):
-      done, beta, x = gmres(A_mv, A_args, b, x, num_krylov_vectors, x0, tol,
-                            b_norm, precision)
-      if done:
-        break
+    n_iter = 0
+    r, beta = gmres_residual(A_mv, A_args, b, x)
+    done = bool(beta <= tol)
+    while not done and n_iter < maxiter:
+      x = gmres(A_mv, A_args, r, beta, x, num_krylov_vectors, tol, b_norm,
+                precision)
+      n_iter += 1
+      r, beta = gmres_residual(A_mv, A_args, b, x)
+      done = bool(beta <= tol)
     return x, beta, n_iter, done
 
-  def gmres(A_mv: Callable, A_args: Sequence, b: jax.numpy.ndarray,
-            x: jax.numpy.ndarray, num_krylov_vectors: int, x0: jax.numpy.ndarray,
-            tol: float, b_norm: float,
-            precision: JaxPrecisionType) -> Tuple[bool, float, jax.numpy.ndarray]:
+  def gmres(A_mv: Callable, A_args: Sequence, r: jax.numpy.ndarray, beta: float,
+            x: jax.numpy.ndarray, num_krylov_vectors: int, tol: float,
+            b_norm: float, precision: JaxPrecisionType) -> jax.numpy.ndarray:
     """
     A single restart of GMRES.
 
@@ -1185,21 +1188,18 @@ def gmres_wrapper(jax: types.ModuleType):
       A_mv: A function `v0 = A_mv(v, *A_args)` where `v0` and
                  `v` have the same shape.
       A_args: A list of positional arguments to A_mv.
-      b: The `b` in `A @ x = b`.
-      x: Initial guess solution.
-      tol: Solution tolerance to achieve,
+      r: The residual at the current solution `x`.
+      beta: Magnitude of r.
+      x: The current solution.
       num_krylov_vectors : Size of the Krylov space to build.
+      tol: Solution tolerance to achieve,
+      b_norm: Magnitude of b.
     Returns:
-      done: Whether convergence was achieved.
-      beta: Magnitude of residual (i.e. the error estimate).
-      x: The approximate solution.
+      x: The improved solution.
     """
-    r, beta = gmres_residual(A_mv, A_args, b, x)
     k, V, R, beta_vec = gmres_krylov(A_mv, A_args, num_krylov_vectors,
-                                     x0, r, beta, tol, b_norm, precision)
-    x = gmres_update(k, V, R, beta_vec, x0)
-    done = k < num_krylov_vectors - 1
-    return done, beta, x
+                                     x, r, beta, tol, b_norm, precision)
+    return gmres_update(k, V, R, beta_vec, x)
 
   @jax.jit
   def gmres_residual(A_mv: Callable, A_args: Sequence, b: jax.numpy.ndarray,
@@ -1275,6 +1275,9 @@ def gmres_wrapper(jax: types.ModuleType):
     """
     n = r.size
     err = beta
+    # relative norm below which a krylov vector is rounding noise
+    breakdown = 10 * jnp.finfo(x0.dtype).eps * jnp.linalg.norm(
+        A_mv(r / beta, *A_args))
     v = r / beta
 
     # These will store the Givens rotations used to update the QR decompositions
@@ -1311,17 +1314,20 @@ def gmres_wrapper(jax: types.ModuleType):
       """
       gmres_variables, gmres_constants = gmres_carry
       k, V, R, beta_vec, err, givens = gmres_variables
-      tol, A_mv, A_args, b_norm, _ = gmres_constants
+      _, A_mv, A_args, _, _ = gmres_constants
 
-      V, H = kth_arnoldi_step(k, A_mv, A_args, V, R, tol, precision)
+      V, H = kth_arnoldi_step(k, A_mv, A_args, V, R, breakdown, precision)
       R_col, givens = apply_givens_rotation(H[:, k], givens, k)
       R = R.at[:, k].set(R_col[:])
 
       # Update the residual vector.
-      cs, sn = givens[:, k] * beta_vec[k]
+      cs = givens[0, k].conj() * beta_vec[k]
+      sn = givens[1, k] * beta_vec[k]
       beta_vec = beta_vec.at[k].set(cs)
       beta_vec = beta_vec.at[k + 1].set(sn)
-      err = jnp.abs(sn) / b_norm
+      # tol is a bound on the norm of the residual. The krylov space is
+      # exhausted if there is no new krylov vector.
+      err = jnp.where(jnp.any(V[:, k + 1] != 0), jnp.abs(sn), 0. * jnp.abs(sn))
       gmres_variables = (k + 1, V, R, beta_vec, err, givens)
       return (gmres_variables, gmres_constants)
 
@@ -1340,7 +1346,7 @@ def gmres_wrapper(jax: types.ModuleType):
       Returns:
         (bool): Whether to continue iterating.
       """
-      gmres_constants, gmres_variables = gmres_carry
+      gmres_variables, gmres_constants = gmres_carry
       tol = gmres_constants[0]
       k = gmres_variables[0]
       err = gmres_variables[4]
@@ -1351,7 +1357,7 @@ def gmres_wrapper(jax: types.ModuleType):
 
       def not_converged(args):
         err, tol = args
-        return err >= tol
+        return err > tol
       return jax.lax.cond(is_iterating(k, n_kry),   # Predicate.
                           not_converged,            # Called if True.
                           lambda x: False,          # Called if False.
@@ -1449,7 +1455,7 @@ def gmres_wrapper(jax: types.ModuleType):
       H_col, i, k, givens = carry
       cs = givens[0, i]
       sn = givens[1, i]
-      H_i = cs * H_col[i] - sn * H_col[i + 1]
+      H_i = cs.conj() * H_col[i] - sn.conj() * H_col[i + 1]
       H_ip1 = sn * H_col[i] + cs * H_col[i + 1]
       H_col = H_col.at[i].set(H_i)
       H_col = H_col.at[i + 1].set(H_ip1)
@@ -1490,7 +1496,7 @@ def gmres_wrapper(jax: types.ModuleType):
     givens = givens.at[0, k].set(cs_k)
     givens = givens.at[1, k].set(sn_k)
 
-    r_k = cs_k * H_col[k] - sn_k * H_col[k + 1]
+    r_k = cs_k.conj() * H_col[k] - sn_k.conj() * H_col[k + 1]
     R_col = H_col.at[k].set(r_k)
     R_col = R_col.at[k + 1].set(0.)
     return R_col, givens
@@ -1499,14 +1505,14 @@ def gmres_wrapper(jax: types.ModuleType):
   def givens_rotation(v1: float, v2: float) -> Tuple[float, float]:
     """
     Given scalars v1 and v2, computes cs = cos(theta) and sn = sin(theta)
-    so that   [cs  -sn]  @ [v1] = [r]
-              [sn   cs]    [v2]   [0]
+    so that   [cs* -sn*] @ [v1] = [r]
+              [sn   cs ]   [v2]   [0]
     Args:
       v1, v2: The scalars.
     Returns:
       cs, sn: The rotation factors.
     """
-    t = jnp.sqrt(v1**2 + v2**2)
+    t = jnp.sqrt(jnp.abs(v1)**2 + jnp.abs(v2)**2)
     cs = v1 / t
     sn = -v2 / t
     return cs, sn
-- 
2.43.0


From 68dbf87d594406122f1fe6181dc0bfd5d33ae9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:53 +0000
Subject: [PATCH 79/95] fix: gmres without a number of Krylov vectors uses as
 many as there are

---
 tensornetwork/backends/abstract_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/abstract_backend.py b/tensornetwork/backends/abstract_backend.py
index b9f3993..8d1ba87 100644
--- a/tensornetwork/backends/abstract_backend.py
+++ b/tensornetwork/backends/abstract_backend.py
@@ -591,7 +591,7 @@ class AbstractBackend:
 
       x0 = self.reshape(x0, (N,))
 
-    if num_krylov_vectors > N:
+    if num_krylov_vectors is None or num_krylov_vectors > N:
       num_krylov_vectors = N
 
     if tol < 0:
-- 
2.43.0


From 0d711882ca558433508abab477081ffc008b2d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:11 +0000
Subject: [PATCH 80/95] fix: round the leg dimensions of the MPO layers as
 their check of the dimensions does (5**5 was built with legs of dimension 6)

---
 tensornetwork/tn_keras/conv2d_mpo.py | 4 ++--
 tensornetwork/tn_keras/mpo.py        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index 2382833..a2a481a 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -161,8 +161,8 @@ class Conv2DMPO(Layer):
 
     super().build(input_shape)
 
-    in_leg_dim = math.ceil(channels**(1. / self.num_nodes))
-    out_leg_dim = math.ceil(self.filters**(1. / self.num_nodes))
+    in_leg_dim = round(channels**(1. / self.num_nodes))
+    out_leg_dim = round(self.filters**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
diff --git a/tensornetwork/tn_keras/mpo.py b/tensornetwork/tn_keras/mpo.py
index a7247bb..8599b4a 100644
--- a/tensornetwork/tn_keras/mpo.py
+++ b/tensornetwork/tn_keras/mpo.py
@@ -108,8 +108,8 @@ class DenseMPO(Layer):
 
     super().build(input_shape)
 
-    self.in_leg_dim = math.ceil(input_dim**(1. / self.num_nodes))
-    self.out_leg_dim = math.ceil(self.output_dim**(1. / self.num_nodes))
+    self.in_leg_dim = round(input_dim**(1. / self.num_nodes))
+    self.out_leg_dim = round(self.output_dim**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
-- 
2.43.0


From 5566ee8ee9a4549558969c72912bc194a9304588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:11 +0000
Subject: [PATCH 81/95] fix: compute_output_shape of an unbuilt condenser or
 expander raised AttributeError

---
 tensornetwork/tn_keras/condenser.py | 3 ++-
 tensornetwork/tn_keras/expander.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/tn_keras/condenser.py b/tensornetwork/tn_keras/condenser.py
index 16349ca..5220fbd 100644
--- a/tensornetwork/tn_keras/condenser.py
+++ b/tensornetwork/tn_keras/condenser.py
@@ -151,7 +151,8 @@ class DenseCondenser(Layer):
     return result
 
   def compute_output_shape(self, input_shape: List[int]) -> Tuple[int, int]:
-    return tuple(input_shape[0:-1]) + (self.output_dim,)
+    output_dim = input_shape[-1] // (self.exp_base**self.num_nodes)
+    return tuple(input_shape[0:-1]) + (output_dim,)
 
   def get_config(self) -> dict:
     """Returns the config of the layer.
diff --git a/tensornetwork/tn_keras/expander.py b/tensornetwork/tn_keras/expander.py
index a8ed2d5..d453cf0 100644
--- a/tensornetwork/tn_keras/expander.py
+++ b/tensornetwork/tn_keras/expander.py
@@ -151,7 +151,8 @@ class DenseExpander(Layer):
     return result
 
   def compute_output_shape(self, input_shape: List[int]) -> Tuple[int, int]:
-    return tuple(input_shape[0:-1]) + (self.output_dim,)
+    output_dim = input_shape[-1] * (self.exp_base**self.num_nodes)
+    return tuple(input_shape[0:-1]) + (output_dim,)
 
   def get_config(self) -> dict:
     """Returns the config of the layer.
-- 
2.43.0


From 4442fbc14b065c057ae93cd2bb737d78dc896ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:11 +0000
Subject: [PATCH 82/95] fix: Conv2DMPO added its bias along the width for
 channels_first

---
 tensornetwork/tn_keras/conv2d_mpo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index a2a481a..c4d7bed 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -219,7 +219,10 @@ class Conv2DMPO(Layer):
                           dilations=self.dilation_rate)
 
     if self.use_bias:
-      bias = tf.reshape(self.bias_var, (1, self.filters,))
+      if self.data_format == 'channels_first':
+        bias = tf.reshape(self.bias_var, (1, self.filters, 1, 1))
+      else:
+        bias = tf.reshape(self.bias_var, (1, self.filters,))
       result += bias
 
     if self.activation is not None:
-- 
2.43.0


From 0ae9b5d6eca323dac54fdd14222e2bf77b87fa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:11 +0000
Subject: [PATCH 83/95] fix: building a Conv2DMPO without bias changed its
 use_bias from False to None

---
 tensornetwork/tn_keras/conv2d_mpo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index c4d7bed..96510ca 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -195,7 +195,7 @@ class Conv2DMPO(Layer):
           initializer=self.bias_initializer,
           regularizer=self.bias_regularizer)
     else:
-      self.use_bias = None
+      self.bias_var = None
 
   def call(self, inputs: tf.Tensor) -> tf.Tensor: #pylint: disable=arguments-differ
 
-- 
2.43.0


From 43cef24ce23f72916de764cfeab655d67968a878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:11 +0000
Subject: [PATCH 84/95] fix: layers refused inputs with unknown middle
 dimensions and changed the batch size of inputs without examples

---
 tensornetwork/tn_keras/condenser.py | 5 ++++-
 tensornetwork/tn_keras/dense.py     | 5 ++++-
 tensornetwork/tn_keras/entangler.py | 5 ++++-
 tensornetwork/tn_keras/expander.py  | 5 ++++-
 tensornetwork/tn_keras/mpo.py       | 5 ++++-
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/tn_keras/condenser.py b/tensornetwork/tn_keras/condenser.py
index 5220fbd..789c692 100644
--- a/tensornetwork/tn_keras/condenser.py
+++ b/tensornetwork/tn_keras/condenser.py
@@ -141,13 +141,16 @@ class DenseCondenser(Layer):
       return result
 
     input_shape = list(inputs.shape)
+    leading_dims = tf.shape(inputs)[:-1]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.nodes, self.output_dim, self.exp_base, self.
                       num_nodes, self.use_bias, self.bias_var), inputs)
     if self.activation is not None:
       result = self.activation(result)
-    result = tf.reshape(result, [-1] + input_shape[1:-1] + [self.output_dim,])
+    result = tf.reshape(result,
+                        tf.concat([leading_dims, [self.output_dim]], axis=0))
+    result.set_shape(input_shape[:-1] + [self.output_dim])
     return result
 
   def compute_output_shape(self, input_shape: List[int]) -> Tuple[int, int]:
diff --git a/tensornetwork/tn_keras/dense.py b/tensornetwork/tn_keras/dense.py
index 27b5ff2..2294992 100644
--- a/tensornetwork/tn_keras/dense.py
+++ b/tensornetwork/tn_keras/dense.py
@@ -130,13 +130,16 @@ class DenseDecomp(Layer):
 
       return result
     input_shape = list(inputs.shape)
+    leading_dims = tf.shape(inputs)[:-1]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.a_var, self.b_var, self.use_bias, self.bias_var
                      ), inputs)
     if self.activation is not None:
       result = self.activation(result)
-    result = tf.reshape(result, [-1] + input_shape[1:-1] + [self.output_dim,])
+    result = tf.reshape(result,
+                        tf.concat([leading_dims, [self.output_dim]], axis=0))
+    result.set_shape(input_shape[:-1] + [self.output_dim])
     return result
 
   def compute_output_shape(self, input_shape: List[int]) -> Tuple[int, int]:
diff --git a/tensornetwork/tn_keras/entangler.py b/tensornetwork/tn_keras/entangler.py
index 0422ed8..23e9be7 100644
--- a/tensornetwork/tn_keras/entangler.py
+++ b/tensornetwork/tn_keras/entangler.py
@@ -177,13 +177,16 @@ class DenseEntangler(Layer):
       return result
 
     input_shape = list(inputs.shape)
+    leading_dims = tf.shape(inputs)[:-1]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.nodes, self.num_nodes, self.num_legs, self.
                       leg_dim, self.use_bias, self.bias_var), inputs)
     if self.activation is not None:
       result = self.activation(result)
-    result = tf.reshape(result, [-1] + input_shape[1:-1] + [self.output_dim,])
+    result = tf.reshape(result,
+                        tf.concat([leading_dims, [self.output_dim]], axis=0))
+    result.set_shape(input_shape[:-1] + [self.output_dim])
     return result
 
   def compute_output_shape(self, input_shape: List[int]) -> Tuple[int, int]:
diff --git a/tensornetwork/tn_keras/expander.py b/tensornetwork/tn_keras/expander.py
index d453cf0..f6d6b87 100644
--- a/tensornetwork/tn_keras/expander.py
+++ b/tensornetwork/tn_keras/expander.py
@@ -141,13 +141,16 @@ class DenseExpander(Layer):
       return result
 
     input_shape = list(inputs.shape)
+    leading_dims = tf.shape(inputs)[:-1]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.nodes, self.num_nodes, self.use_bias, self.
                       bias_var), inputs)
     if self.activation is not None:
       result = self.activation(result)
-    result = tf.reshape(result, [-1] + input_shape[1:-1] + [self.output_dim,])
+    result = tf.reshape(result,
+                        tf.concat([leading_dims, [self.output_dim]], axis=0))
+    result.set_shape(input_shape[:-1] + [self.output_dim])
     return result
 
   def compute_output_shape(self, input_shape: List[int]) -> Tuple[int, int]:
diff --git a/tensornetwork/tn_keras/mpo.py b/tensornetwork/tn_keras/mpo.py
index 8599b4a..a1f665e 100644
--- a/tensornetwork/tn_keras/mpo.py
+++ b/tensornetwork/tn_keras/mpo.py
@@ -176,13 +176,16 @@ class DenseMPO(Layer):
       return result
 
     input_shape = list(inputs.shape)
+    leading_dims = tf.shape(inputs)[:-1]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.nodes, self.num_nodes, self.in_leg_dim, self.
                       output_dim, self.use_bias, self.bias_var), inputs)
     if self.activation is not None:
       result = self.activation(result)
-    result = tf.reshape(result, [-1] + input_shape[1:-1] + [self.output_dim,])
+    result = tf.reshape(result,
+                        tf.concat([leading_dims, [self.output_dim]], axis=0))
+    result.set_shape(input_shape[:-1] + [self.output_dim])
     return result
 
   def compute_output_shape(self, input_shape: List[int]) -> Tuple[int, int]:
-- 
2.43.0


From 65b35c111d8b6bd92d90a4081b3eac715daf8b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:02 +0000
Subject: [PATCH 85/95] fix: transfer_matrix_eigs and canonicalize refused
 every given initial state

---
 tensornetwork/matrixproductstates/infinite_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index ff7d4ed..3b396da 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -131,7 +131,7 @@ class InfiniteMPS(BaseMPS):
           direction, self.backend.reshape(vector, (D, D)))
       return self.backend.reshape(result, (D * D,))
 
-    if not initial_state:
+    if initial_state is None:
       initial_state = self.backend.randn((self.bond_dimensions[0]**2,),
                                          dtype=self.dtype)
     else:
-- 
2.43.0


From d58dfea8555c0cd7d6e40075b53e5635ffd61b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:02 +0000
Subject: [PATCH 86/95] fix: the transfer operators ignored the connector
 matrix, so canonicalizing a canonical InfiniteMPS changed its state

---
 tensornetwork/matrixproductstates/base_mps.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 896394a..08e5ca5 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -288,12 +288,13 @@ class BaseMPS:
     Returns:
       `Tensor`: The result of applying the MPS transfer-operator to `matrix`
     """
+    tensor = self.get_tensor(site)  # absorbs the connector_matrix
     if direction in (1, 'l', 'left'):
-      return self.left_transfer_operator(self.tensors[site], matrix,
-                                         self.backend.conj(self.tensors[site]))
+      return self.left_transfer_operator(tensor, matrix,
+                                         self.backend.conj(tensor))
     if direction in (-1, 'r', 'right'):
-      return self.right_transfer_operator(self.tensors[site], matrix,
-                                          self.backend.conj(self.tensors[site]))
+      return self.right_transfer_operator(tensor, matrix,
+                                          self.backend.conj(tensor))
     raise ValueError(f'unknown value {direction} for direction')
 
   def measure_local_operator(self, ops: List[Tensor],
-- 
2.43.0


From ecd1849c6338da4de873c9a35d4dcc6d5b56db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:45 +0000
Subject: [PATCH 87/95] fix: InfiniteMPS asked jax for more Krylov vectors than
 the transfer matrix has

---
 tensornetwork/matrixproductstates/infinite_mps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index 3b396da..fad7a0f 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -156,7 +156,8 @@ class InfiniteMPS(BaseMPS):
     eta, dens = self.backend.eigs(
         A=mv,
         initial_state=initial_state,
-        num_krylov_vecs=num_krylov_vecs,
+        # there are not more than `D * D` Krylov vectors
+        num_krylov_vecs=min(num_krylov_vecs, D * D),
         numeig=1,
         tol=precision,
         which='LR',
-- 
2.43.0


From cfc1dabaade5b9838970b39726ee95861eadf980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:45 +0000
Subject: [PATCH 88/95] fix: canonicalize turned real InfiniteMPS tensors into
 complex ones

---
 tensornetwork/matrixproductstates/infinite_mps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index fad7a0f..39ee29f 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -165,6 +165,8 @@ class InfiniteMPS(BaseMPS):
         dtype=self.dtype)
     result = self.backend.reshape(
         dens[0], (self.bond_dimensions[0], self.bond_dimensions[0]))
+    if np.issubdtype(self.dtype, np.floating):
+      return eta[0].real, result.real
     return eta[0], result
 
   def right_envs(self, sites: Sequence[int]) -> Dict:
-- 
2.43.0


From 476503a7ac29500c39b0f0d157b11cf2d401feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:45 +0000
Subject: [PATCH 89/95] fix: check_canonical reported a deviation for canonical
 infinite MPS whose center was moved

---
 tensornetwork/matrixproductstates/base_mps.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 08e5ca5..2bb01b8 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -642,9 +642,11 @@ class BaseMPS:
       raise ValueError(
           "Wrong value `which`={}. "
           "`which` as to be 'l','left', 'r' or 'right.".format(which))
-    n1 = Node(
-        self.get_tensor(site),
-        backend=self.backend)  #we need to absorb the connector_matrix
+    # the connector_matrix is on the right of the last tensor: it is part
+    # of the left orthogonality only
+    tensor = (
+        self.get_tensor(site) if which in ('l', 'left') else self.tensors[site])
+    n1 = Node(tensor, backend=self.backend)
     n2 = conj(n1)
     if which in ('l', 'left'):
       n1[0] ^ n2[0]
-- 
2.43.0


From d120f8581758edf78d1a77bc068a7b8d999c1c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:21 +0000
Subject: [PATCH 90/95] fix: jax eigs and eigsh accept maxiter=None as the
 other backends do (transfer_matrix_eigs passes it)

---
 tensornetwork/backends/jax/jax_backend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index 4d850ef..04e0fa8 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -241,7 +241,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
            numeig: int = 6,
            tol: float = 1E-8,
            which: Text = 'LR',
-           maxiter: int = 20) -> Tuple[Tensor, List]:
+           maxiter: Optional[int] = 20) -> Tuple[Tensor, List]:
     """
     Implicitly restarted Arnoldi method for finding the lowest
     eigenvector-eigenvalue pairs of a linear operator `A`.
@@ -315,6 +315,9 @@ class JaxBackend(abstract_backend.AbstractBackend):
     if numeig > num_krylov_vecs:
       raise ValueError('`num_krylov_vecs` >= `numeig` required!')
 
+    if maxiter is None:
+      maxiter = 20
+
     if initial_state is None:
       if (shape is None) or (dtype is None):
         raise ValueError("if no `initial_state` is passed, then `shape` and"
@@ -356,7 +359,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
       numeig: int = 6,
       tol: float = 1E-8,
       which: Text = 'SA',
-      maxiter: int = 20) -> Tuple[Tensor, List]:
+      maxiter: Optional[int] = 20) -> Tuple[Tensor, List]:
     """
     Implicitly restarted Lanczos method for finding the lowest
     eigenvector-eigenvalue pairs of a symmetric (hermitian) linear operator `A`.
@@ -430,6 +433,9 @@ class JaxBackend(abstract_backend.AbstractBackend):
     if numeig > num_krylov_vecs:
       raise ValueError('`num_krylov_vecs` >= `numeig` required!')
 
+    if maxiter is None:
+      maxiter = 20
+
     if initial_state is None:
       if (shape is None) or (dtype is None):
         raise ValueError("if no `initial_state` is passed, then `shape` and"
-- 
2.43.0


From 8bb4ed87b26de21d1cde3979e13939c2db9a5c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:21 +0000
Subject: [PATCH 91/95] fix: QuOperator times a python number has the number
 type of the operator

---
 tensornetwork/quantum/quantum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/quantum/quantum.py b/tensornetwork/quantum/quantum.py
index a6fe1bf..6a32597 100644
--- a/tensornetwork/quantum/quantum.py
+++ b/tensornetwork/quantum/quantum.py
@@ -382,7 +382,11 @@ class QuOperator():
       if isinstance(other, AbstractNode):
         node = other
       else:
-        node = Node(other, backend=self.nodes.pop().backend)
+        ref_node = self.nodes.pop()
+        if isinstance(other, (int, float, complex)):
+          # backends without type promotion need a number of the right type
+          other = ref_node.backend.zeros((), dtype=ref_node.dtype) + other
+        node = Node(other, backend=ref_node.backend)
       if node.shape:
         raise ValueError("Cannot perform elementwise multiplication by a "
                          "non-scalar tensor.")
-- 
2.43.0


From 36bffc9102921fe5031b8c8e6cc63468cc90fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:06 +0000
Subject: [PATCH 92/95] fix: path_solver('auto') accepts any iterable of nodes
 as the other algorithms do

---
 .../contractors/opt_einsum_paths/path_contractors.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index cd709f9..e461fda 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -306,8 +306,8 @@ def path_solver(
   elif algorithm == "greedy":
     alg = functools.partial(opt_einsum.paths.greedy, memory_limit=memory_limit)
   elif algorithm == "auto":
-    n = len(list(nodes))  #pytype thing
-    _nodes = nodes
+    nodes = list(nodes)
+    n = len(nodes)
     if n <= 1:
       return []
     if n < 5:
-- 
2.43.0


From 63267e922fb33d632e09cf57b0e3e5583811afc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:45 +0000
Subject: [PATCH 93/95] fix: charges with more than 32767 different values were
 silently corrupted (16 bit labels)

---
 tensornetwork/block_sparse/charge.py | 6 ++----
 tensornetwork/block_sparse/utils.py  | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 07ff3c0..4c2dc26 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -58,10 +58,8 @@ class BaseCharge:
           "`len(charge_types) = {}` does not match `charges.shape[1]={}`"
           .format(len(charge_types), charges.shape[1]))
     self.num_symmetries = charges.shape[1]
-    if charges.shape[1] < 3:
-      self.label_dtype = np.int16
-    else:
-      self.label_dtype = np.int32
+    # there can be more unique charges than an int16 can count
+    self.label_dtype = np.int32
     if charge_types is None:
       charge_types = [type(self)] * self.num_symmetries
     self.charge_types = charge_types
diff --git a/tensornetwork/block_sparse/utils.py b/tensornetwork/block_sparse/utils.py
index ab57f4f..e012f14 100644
--- a/tensornetwork/block_sparse/utils.py
+++ b/tensornetwork/block_sparse/utils.py
@@ -241,7 +241,7 @@ def unique(array: np.ndarray,
            return_index: bool = False,
            return_inverse: bool = False,
            return_counts: bool = False,
-           label_dtype: Type[np.number] = np.int16) -> Any:
+           label_dtype: Type[np.number] = np.int32) -> Any:
   """
   Compute the unique elements of 1d or 2d `array` along the 
   zero axis of the array.
-- 
2.43.0


From 610285cd539c7be8ed85d87d846d6f8a4cd5068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:05 +0000
Subject: [PATCH 94/95] fix: jit with backend_argnum swapped the static
 arguments and refused an integer static_argnums

---
 tensornetwork/backends/decorators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/decorators.py b/tensornetwork/backends/decorators.py
index f5dc677..ea185ed 100644
--- a/tensornetwork/backends/decorators.py
+++ b/tensornetwork/backends/decorators.py
@@ -60,6 +60,8 @@ def jit(fun: Callable,
     if backend is not None:
       raise ValueError("backend must be None if backend_argnum is specified.")
     argnum_mode = True
+    if isinstance(static_argnums, int):
+      static_argnums = (static_argnums,)
     static_argnums = tuple(list(static_argnums) + [backend_argnum,])
 
   if not argnum_mode:
@@ -83,7 +85,10 @@ def jit(fun: Callable,
                   f"but the corresponding argument {args[backend_argnum]}"
                   f"did not specify a backend.")
         raise ValueError(errstr) from error
-      jitted = backend_obj.jit(fun, static_argnums=static_argnums,
+      # jax mixes up the values of static arguments that are not in order
+      argnums = tuple(sorted({n + len(args) if n < 0 else n
+                              for n in static_argnums}))
+      jitted = backend_obj.jit(fun, static_argnums=argnums,
                                device=device, backend=xla_backend)
       return jitted(*args, **kwargs)
   return wrapper
-- 
2.43.0


From 2c8f88817bdd4d57d835283b99e84c36d6533f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:47 +0000
Subject: [PATCH 95/95] fix: switch_backend switched some of the nodes before
 it refused the others

---
 tensornetwork/network_operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index b29190d..43c5454 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -822,11 +822,13 @@ def switch_backend(nodes: Iterable[AbstractNode], new_backend: Text) -> None:
     raise ValueError("switching to `symmetric` backend not possible")
 
   backend = backend_factory.get_backend(new_backend)
+  nodes = list(nodes)
   for node in nodes:
     if node.backend.name != "numpy":
       raise NotImplementedError("Can only switch backends when the current "
                                 "backend is 'numpy'. Current backend "
                                 "is '{}'".format(node.backend))
+  for node in nodes:
     node.tensor = backend.convert_to_tensor(node.tensor)
     node.backend = backend
 
-- 
2.43.0

