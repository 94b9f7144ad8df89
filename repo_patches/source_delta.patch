From b4d2f3f15fbea4e60140f39a9ecb30088e571582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 001/123] fix: FullTensor.eval_at_indices used row-major linear
 indices on a column-major matricization (partial evaluation in several
 dimensions)

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index d4a117f..218f162 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -331,7 +331,7 @@ class FullTensor:
         else:
             no_dims = tensap.fast_setdiff(np.arange(self.order), dims)
             indices = np.ravel_multi_index(
-                np.transpose(indices), [self.shape[i] for i in dims]
+                np.transpose(indices), [self.shape[i] for i in dims], order="F"
             )
             evaluations = self.matricize(dims).sub_tensor(indices, ":")
             evaluations = evaluations.reshape(
-- 
2.43.0


From 35b0136eb293d79c0146346d02350f3ee7c86f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 002/123] fix: FullTensor.kron failed for tensors of different
 orders

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 218f162..5e572e4 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -675,7 +675,7 @@ class FullTensor:
             ),
             shape1 * shape2,
         )
-        return FullTensor(data, shape=self.shape * tensor2.shape)
+        return FullTensor(data)
 
     def orth(self, dim=None):
         """
-- 
2.43.0


From 4d329467598cfd5a67f59980e8b551cf454aa9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 003/123] fix: FullTensor.matricize failed when all the
 dimensions are in dims1

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 5e572e4..bf608a0 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -1110,7 +1110,7 @@ class FullTensor:
 
         tensor = FullTensor(self)
         tensor = tensor.transpose(np.concatenate((dims1, dims2)))
-        tensor = tensor.reshape([np.prod(shape1), np.prod(shape2)])
+        tensor = tensor.reshape([np.prod(shape1, dtype=int), np.prod(shape2, dtype=int)])
         return FullTensor(tensor)
 
     def outer_product_eval_diag(self, tensor2, dims1, dims2, diag=False):
-- 
2.43.0


From 5938e04111a74983a93d73b2d2115b6b6a62ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 004/123] fix: TreeBasedTensor.full reordered the dimensions of
 the nodes of the tree of the tensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 04074de..7d2a9e3 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -531,6 +531,7 @@ class TreeBasedTensor:
             return a
 
         tensors = np.array(self.tensors)
+        node_dims = list(tree.dims)
 
         for level in np.arange(np.max(tree.level), -1, -1):
             nod_level = tensap.fast_setdiff(tree.nodes_with_level(level), tree.dim2ind)
@@ -545,10 +546,10 @@ class TreeBasedTensor:
                             [dims.size],
                         )
                         tensors[child - 1] = None
-                        dims = np.concatenate((tree.dims[child - 1], dims))
+                        dims = np.concatenate((node_dims[child - 1], dims))
                     else:
-                        dims = np.concatenate((dims, tree.dims[child - 1]))
-                tree.dims[nod - 1] = dims
+                        dims = np.concatenate((dims, node_dims[child - 1]))
+                node_dims[nod - 1] = dims
 
         tensor = tensors[tree.root - 1]
         if tensor.order > self.order:
-- 
2.43.0


From 03120c0457f48ecc52bf551bb37fbec5391014e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 005/123] fix: wrong root rank after the product of a matrix
 and a TreeBasedTensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 7d2a9e3..57432f5 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -347,7 +347,7 @@ class TreeBasedTensor:
             tensor.tensors[root] = tensor.tensors[root].tensor_matrix_product(
                 arg, tensor.tensors[root].order - 1
             )
-            tensor.ranks[root] = arg.shape[1]
+            tensor.ranks[root] = arg.shape[0]
         else:
             raise ValueError("Wrong shapes.")
         return tensor
-- 
2.43.0


From ab2daffe3341760fab699c918ff61a0ad67a7558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 006/123] fix: TreeBasedTensor.eval_diag over the dimensions of
 a node modified the tensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 57432f5..ae41f97 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1268,7 +1268,8 @@ class TreeBasedTensor:
             subtree, nodes = tree.sub_dimension_tree(alpha)
             xs = tensap.TreeBasedTensor(self.tensors[nodes - 1], subtree)
             xs = xs.eval_diag()
-            self.tensors[alpha - 1] = xs
+            tensors = np.array(self.tensors)
+            tensors[alpha - 1] = xs
             # indices of the nodes that are kept
             keep_ind = tensap.fast_setdiff(
                 np.arange(tree.nb_nodes), tree.descendants(alpha) - 1
@@ -1286,7 +1287,7 @@ class TreeBasedTensor:
             mu = np.where(alpha == keep_ind + 1)[0][0] + 1
             dim2ind.insert(0, mu)
             newtree = tensap.DimensionTree(dim2ind, adj)
-            return TreeBasedTensor(self.tensors[keep_ind], newtree)
+            return TreeBasedTensor(tensors[keep_ind], newtree)
 
     def cat(self, tensor2):
         """
-- 
2.43.0


From 6e5752e718b5300cf6d2c5f7ce9be52d82d3e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 007/123] fix: TreeBasedTensor.gramians for several nodes with
 common ascendants

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index ae41f97..eea6466 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1721,7 +1721,7 @@ class TreeBasedTensor:
                 dtype=alpha.dtype,
             )
             list_nodes = tensap.fast_intersect(
-                list_nodes, np.concatenate((ascendants, alpha))
+                list_nodes, np.unique(np.concatenate((ascendants, alpha)))
             )
 
         for level in range(max_level + 1):
-- 
2.43.0


From fc21ba3136792e601c9c15e4d48fe666fe3b381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 008/123] fix: TreeBasedTensor.is_active_dim failed for a
 single dimension

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index eea6466..a3b93af 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -226,7 +226,7 @@ class TreeBasedTensor:
         """
         result = np.isin(self.tree.dim2ind[dim], self.active_nodes)
         if result.size == 1:
-            result = result[0]
+            result = result.item()
         return result
 
     def __repr__(self):
-- 
2.43.0


From d8fddd54b52db30e33c061deb10cba3c23cd0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 009/123] fix: TreeBasedTensor.change_root failed for a tensor
 with a root rank greater than one

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index a3b93af..87e9629 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -609,8 +609,12 @@ class TreeBasedTensor:
         assert x.is_active_node[nod - 1], "Can not make an inactive node the root node."
 
         if x.ranks[x.tree.root - 1] > 1:
-            x.tree = x.tree.addChild(x.tree.root)
-            x.tensors = np.concatenate((x.tensors, []))
+            x.tree = x.tree.add_child(x.tree.root)
+            x.order = x.tree.dim2ind.size
+            tensors = np.empty(x.tree.nb_nodes, dtype=object)
+            tensors[:-1] = x.tensors
+            tensors[-1] = tensap.FullTensor([])
+            x.tensors = tensors
             x = x.update_attributes()
             x = x.change_root(nod)
         else:
-- 
2.43.0


From 8a84516df4bb3ed012f77867eec4a63638771983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 010/123] fix: TreeBasedTensor.nodes_permutation_cost modified
 the ranks of the tensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 87e9629..cdaffc5 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -711,7 +711,7 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        ranks = self.ranks
+        ranks = np.array(self.ranks)
         ranks[self.non_active_nodes - 1] = self.shape[
             np.logical_not(self.is_active_node[tree.dim2ind - 1])
         ]
-- 
2.43.0


From 4a416d9adbe17f144c0926368347e47f6ef8b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 011/123] fix: TreeBasedTensor.optimize_dimension_tree did not
 terminate when no nodes can be permuted

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index cdaffc5..34caf87 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -786,8 +786,7 @@ class TreeBasedTensor:
 
             sigma = np.zeros([m_current, 2])
             tensor_current = copy.deepcopy(tensor_sigma)
-            i = 0
-            while i < m_current:
+            for i in range(m_current):
                 proba_alpha = (
                     tensor_current.ranks[tensor_current.tree.parent(nodes) - 1] ** 2
                 )
@@ -804,7 +803,6 @@ class TreeBasedTensor:
                     tensor_current = tensor_current.permute_nodes(
                         sigma[i, :], tolerance / (m_current + m_star)
                     )
-                    i += 1
 
             c_current = tensor_current.storage()
             if c_current < c_star and tensor_current.is_admissible_rank():
-- 
2.43.0


From 4f34c0b9595ea64efc870ff34d10777e9080fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 012/123] fix: TreeBasedTensor.remove_unique_children modified
 the tensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 34caf87..157f8a4 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1622,10 +1622,10 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        tensors = self.tensors
+        tensors = np.array(self.tensors)
         nb_children = np.count_nonzero(tree._children, 0)
         unique_children = tree._children[0, (nb_children == 1)]
-        adj = tree.adjacency_matrix
+        adj = np.copy(tree.adjacency_matrix)
         dim2ind = np.array(tree.dim2ind)
 
         for level in np.arange(np.max(tree.level), -1, -1):
-- 
2.43.0


From 85433b221f5ef19af1ba1137a5141dee5655bdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 013/123] fix: TreeBasedTensor.permute_leaves modified the
 given permutation

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 157f8a4..2319697 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1056,7 +1056,7 @@ class TreeBasedTensor:
 
         """
         tensor = self
-        perm = np.atleast_1d(perm)
+        perm = np.array(perm, ndmin=1)
         if not np.array_equal(perm, np.sort(perm)):
             # Decomposition of the permutation into a sequence of elementary
             # permutations of two dimensions
-- 
2.43.0


From 3e07b31f15e88ee570e9a4c95a739169d8993758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 014/123] fix: TreeBasedTensor.tensor_train failed for a list
 of cores with given dims

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 2319697..1135ad0 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2695,7 +2695,7 @@ class TreeBasedTensor:
         tree = tensap.DimensionTree.linear(order)
         tensors = np.empty(tree.nb_nodes, dtype="object")
         if dims is not None:
-            cores = cores[np.argsort(dims)]
+            cores = [cores[i] for i in np.argsort(dims)]
 
         dim2ind = tree.dim2ind
         nod = dim2ind[0]
-- 
2.43.0


From 928f41ec700f3d5d80cd9d0e8e1ae89234b2db26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 015/123] fix: TreeBasedTensor: shapes of the inactive leaves
 attributed to the wrong nodes in is_admissible_rank and
 nodes_permutation_cost

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 1135ad0..3449f84 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -447,9 +447,8 @@ class TreeBasedTensor:
             print("Inactive nodes must have an alpha-rank equal to 0.")
         else:
             is_admiss = True
-            ranks[tensap.fast_intersect(tree.dim2ind, self.non_active_nodes) - 1] = (
-                self.shape[self.non_active_dims]
-            )
+            dims = self.non_active_dims
+            ranks[tree.dim2ind[dims] - 1] = self.shape[dims]
             for nod in tensap.fast_intersect(tree.internal_nodes, self.active_nodes):
                 children = tree.children(nod)
                 active_ch = tensap.fast_intersect(children, self.active_nodes)
@@ -712,9 +711,8 @@ class TreeBasedTensor:
         """
         tree = self.tree
         ranks = np.array(self.ranks)
-        ranks[self.non_active_nodes - 1] = self.shape[
-            np.logical_not(self.is_active_node[tree.dim2ind - 1])
-        ]
+        dims = self.non_active_dims
+        ranks[tree.dim2ind[dims] - 1] = self.shape[dims]
 
         cost = np.zeros(tree.nb_nodes)
         for beta in np.arange(1, tree.nb_nodes + 1):
-- 
2.43.0


From b8cc20be22b46520f2a67238ce55c672815a2432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 016/123] fix: TreeBasedTensor.change_root left the tensor
 flagged as orthogonalised with respect to its former root

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 3449f84..55b95f1 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -645,6 +645,7 @@ class TreeBasedTensor:
                 r = np.concatenate([np.where(chp == l0)[0] for l0 in chnew])
                 x.tensors[nod - 1] = x.tensors[nod - 1].transpose(r)
             x.tree = tnew
+            x.is_orth = False
             x = x.update_attributes()
         return x
 
-- 
2.43.0


From c4df84b431add7adc1167a08583ad1de58c8a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 017/123] fix: TreeBasedTensor.eval_diag_below discarded the
 tensor of the node alpha instead of the first of its ascendants

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 55b95f1..4f53021 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2084,7 +2084,7 @@ class TreeBasedTensor:
         else:
             exclude_list = np.array([], dtype=int)
         exclude_list = exclude_list.astype(int)
-        diag_below[exclude_list[1:] - 1] = None
+        diag_below[exclude_list[exclude_list != alpha] - 1] = None
 
         for level in np.arange(np.max(tree.level) - 1, -1, -1):
             nod_level = reduce(
-- 
2.43.0


From ed41d92cd4a10565fbef62f4761e9ef006c7e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 018/123] fix: FunctionalTensor.parameter_gradient_eval_dmrg
 failed for a root rank greater than one

---
 tensap/functions/functional_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 8f48b53..f402575 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -678,7 +678,7 @@ class FunctionalTensor(tensap.Function):
                         fH.tensors[alpha - 1].order + fH.tensors[gamma - 1].order - 2
                     ]
                 perm_3 = []
-                if alpha != tree.root and self.tensor.ranks[tree.root - 1] > 1:
+                if gamma != tree.root and self.tensor.ranks[tree.root - 1] > 1:
                     perm_3 = [grad.order - 1]
                 grad = grad.transpose(
                     np.concatenate(([0], perm_1 + 1, perm_2, perm_3)).astype(int)
@@ -690,8 +690,8 @@ class FunctionalTensor(tensap.Function):
                     # TODO Checks
                     perm_2 = [fH.tensors[gamma - 1].order - 1]
                 perm_3 = []
-                if alpha != tree.root and self.tensor.ranks[tree.root - 1] > 1:
-                    perm_3 = [grad.order - 1]
+                if gamma != tree.root and self.tensor.ranks[tree.root - 1] > 1:
+                    perm_3 = [g_gamma.order - 1]
                 g_gamma = g_gamma.transpose(
                     np.concatenate(([0], perm_1b + 1, perm_2, perm_3)).astype(int)
                 )
-- 
2.43.0


From 3a0e8c4a47059452ed0c3ce3079b999dfcf0db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 019/123] fix: TreeBasedTensor.parameter_gradient_eval_diag
 failed at the root when all its children are inactive

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 4f53021..4bb334a 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2255,13 +2255,18 @@ class TreeBasedTensor:
         tree = self.tree
         tensors = np.array(self.tensors)
 
-        diag_below = self.eval_diag_below(alpha)
-        diag_above = self.eval_diag_above(diag_below, alpha)
-
         children = tree.children(alpha)
         active_ch = children[self.is_active_node[children - 1]]
         inactive_ch = tensap.fast_setdiff(children, active_ch)
 
+        if alpha == tree.root and active_ch.size == 0 and matrices is not None:
+            # The gradient only depends on the matrices
+            diag_below = tensors
+            diag_above = tensap.FullTensor.ones(matrices[0].shape[0])
+        else:
+            diag_below = self.eval_diag_below(alpha)
+            diag_above = self.eval_diag_above(diag_below, alpha)
+
         if tree.is_leaf[alpha - 1]:
             out = tensap.FullTensor.ones(diag_above.shape[0])
             if matrices is not None:
-- 
2.43.0


From f48d48a6a8a30d9a4388f8c8c69d1d8f583aa74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 020/123] fix: FunctionalTensor.parameter_gradient_eval looked
 for the root rank at the wrong node with inactive nodes

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index f402575..8dc3c29 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -594,7 +594,7 @@ class FunctionalTensor(tensap.Function):
             else:
                 perm_2 = [fH.tensors[alpha - 1].order]
 
-            if alpha != tree.root and self.tensor.ranks[tree.root - 1] > 1:
+            if alpha != tree.root and fH.ranks[fH.tree.root - 1] > 1:
                 perm_3 = [grad.order - 1]
             else:
                 perm_3 = []
-- 
2.43.0


From 44138992514f34ef6fd4ee295c90b5a11fc33f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 021/123] fix: Truncator.hosvd and hsvd modified the attribute
 max_rank of the truncator

---
 tensap/tensor_algebra/tools/truncator.py | 38 +++++++++++++++++-------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index 207a7d7..c1a1400 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -133,7 +133,7 @@ class Truncator:
             raise ValueError("Wrong tensor order.")
         return out
 
-    def trunc_svd(self, matrix, tolerance=None, power=2):
+    def trunc_svd(self, matrix, tolerance=None, power=2, max_rank=None):
         """
         Compute the truncated svd of the matrix x with relative precision
         self.tolerance (or tolerance if provided) in Schatten p-norm (with p
@@ -149,6 +149,8 @@ class Truncator:
         power : int or 'inf' or float('inf') or numpy.inf, optional
             The integer p of the Schatten-p norm (1 <= p <= inf, p = 2 for
             Frobenius). The default is 2.
+        max_rank : int, optional
+            The maximal rank. The default is self.max_rank.
 
         Returns
         -------
@@ -158,6 +160,8 @@ class Truncator:
         """
         if tolerance is None:
             tolerance = self.tolerance
+        if max_rank is None:
+            max_rank = self.max_rank
 
         left, sin_val, right = np.linalg.svd(matrix, full_matrices=False)
         if power in ("inf", float("inf"), np.inf):
@@ -175,7 +179,7 @@ class Truncator:
         else:
             ind = np.min(ind) + 1
 
-        ind = int(np.min([ind, self.max_rank]))
+        ind = int(np.min([ind, max_rank]))
         if self.thresholding_parameter is not None and self.thresholding_parameter != 0:
             if self.thresholding_type == "soft":
                 sin_val -= self.thresholding_parameter
@@ -269,8 +273,11 @@ class Truncator:
             if isinstance(tensor, tensap.FullTensor):
                 vec = np.empty(order, dtype=object)
                 for dim in range(order):
-                    self.max_rank = max_rank[dim]
-                    vec[dim] = self.trunc_svd(tensor.matricize(dim).numpy(), local_tol)
+                    vec[dim] = self.trunc_svd(
+                        tensor.matricize(dim).numpy(),
+                        local_tol,
+                        max_rank=max_rank[dim],
+                    )
                     vec[dim] = vec[dim].space[0]
                 core = tensor.tensor_matrix_product(np.transpose(vec[0]), 0)
                 for dim in np.arange(1, order):
@@ -354,8 +361,11 @@ class Truncator:
                         if root_rank_greater_than_one:
                             rep_c = np.concatenate((rep_c, [tensor.order - 1]))
 
-                        self.max_rank = max_rank[nod - 1]
-                        tmp = self.trunc_svd(tensor.matricize(rep).numpy(), local_tol)
+                        tmp = self.trunc_svd(
+                            tensor.matricize(rep).numpy(),
+                            local_tol,
+                            max_rank=max_rank[nod - 1],
+                        )
                         tensors[nod - 1] = tmp.space[0]
                         ranks[nod - 1] = tensors[nod - 1].shape[1]
                         shape_loc = np.hstack((shape[rep], ranks[nod - 1]))
@@ -398,8 +408,12 @@ class Truncator:
                     # Truncation of the Gramian in trace norm for a control
                     # of Frobenius norm of the tensor
                     if gram[nod] is not None:
-                        self.max_rank = max_rank[nod]
-                        tmp = self.trunc_svd(gram[nod], tolerance=local_tol**2, power=1)
+                        tmp = self.trunc_svd(
+                            gram[nod],
+                            tolerance=local_tol**2,
+                            power=1,
+                            max_rank=max_rank[nod],
+                        )
                         shape[nod] = tmp.core.shape[0]
                         mat[nod] = np.transpose(tmp.space[0])
 
@@ -444,8 +458,12 @@ class Truncator:
                     ):
                         # Truncation of the Gramian in trace norm for a control
                         # of Frobenius norm of the tensor
-                        self.max_rank = max_rank[nod - 1]
-                        tmp = self.trunc_svd(gram[nod - 1], local_tol**2, power=1)
+                        tmp = self.trunc_svd(
+                            gram[nod - 1],
+                            local_tol**2,
+                            power=1,
+                            max_rank=max_rank[nod - 1],
+                        )
                         tmp = np.transpose(tmp.space[0])
                         order = out.tensors[nod - 1].order
                         out.tensors[nod - 1] = out.tensors[
-- 
2.43.0


From 2a0ef841fc96785dd58b8017a838907b188fc787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 022/123] fix: Truncator.hsvd declared as orthogonal a tensor
 which is not

---
 tensap/tensor_algebra/tools/truncator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index c1a1400..b52d3ac 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -475,8 +475,7 @@ class Truncator:
                             parent - 1
                         ].tensor_matrix_product(tmp, ch_nb - 1)
                 out = out.update_attributes()
-                out.is_orth = True
-                out.orth_node = tree.root
+                out.is_orth = False
             else:
                 raise ValueError("Wrong value of _hsvd_type.")
         else:
-- 
2.43.0


From d90dded83f7319cd18d920d59d41dfa4961fa674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 023/123] fix: DimensionTree.__eq__ for trees with levels of
 different sizes

---
 tensap/tensor_algebra/tensors/dimension_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/dimension_tree.py b/tensap/tensor_algebra/tensors/dimension_tree.py
index 15fc3ad..0228824 100644
--- a/tensap/tensor_algebra/tensors/dimension_tree.py
+++ b/tensap/tensor_algebra/tensors/dimension_tree.py
@@ -154,7 +154,7 @@ class DimensionTree:
                 nodes1 = self.nodes_with_level(level)
                 nodes2 = T.nodes_with_level(level)
                 if len(nodes1) != len(nodes2):
-                    return is_equal
+                    return False
                 dims1 = [self.dims[i] for i in nodes1 - 1]
                 dims2 = [T.dims[i] for i in nodes2 - 1]
                 for i, dim1 in enumerate(dims1):
-- 
2.43.0


From 05865e9f2516c1aa329bdf7c55f01aabb07de18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 024/123] fix: DiagonalTensor.dot_with_rank_one_metric with
 different ranks or non-symmetric matrices

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 5b2cb11..8ba51e2 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -501,7 +501,7 @@ class DiagonalTensor:
 
         """
         if isinstance(matrix, list):
-            matrix = np.hstack([np.reshape(x, [-1, 1]) for x in matrix])
+            matrix = np.hstack(matrix)
         matrix = np.reshape(
             np.expand_dims(matrix, 1),
             (self.shape[0], y.shape[0], self.order),
-- 
2.43.0


From 74e2eae005083449734e90402370846eb25adb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 025/123] fix: CanonicalTensor.eval_diag modified the tensor

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index 8d9f6cd..d144d76 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -343,7 +343,7 @@ class CanonicalTensor:
             dims = np.sort(dims)
             new_dims = np.setdiff1d(range(self.order), dims[1:])
 
-        out = self.space[dims[0]]
+        out = np.array(self.space[dims[0]])
         for k in dims[1:]:
             out *= self.space[k]
 
-- 
2.43.0


From a786b079359e607cf481c469b83cb7b5bc100612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 026/123] fix: CanonicalTensor.eval_diag along some of the
 dimensions

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index d144d76..5e576c9 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -354,7 +354,7 @@ class CanonicalTensor:
             core = deepcopy(self.core)
 
             space[dims[0]] = out
-            space = space[new_dims]
+            space = [space[i] for i in new_dims]
             core.shape = core.shape[new_dims]
             core.order = new_dims.size
             out = CanonicalTensor(space, core)
-- 
2.43.0


From 7e26c1894956633f488195a748335579f596d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 027/123] fix: DiagonalTensor.eval_diag along non contiguous
 dimensions

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 8ba51e2..ff6961f 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -577,9 +577,7 @@ class DiagonalTensor:
             out = np.array(self.data)
         else:
             dims = np.sort(np.atleast_1d(dims))
-            rep = np.concatenate(
-                (np.arange(dims[0] + 1), np.arange(dims[-1] + 1, self.order))
-            )
+            rep = np.setdiff1d(range(self.order), dims[1:])
             out = deepcopy(self)
             out.shape = out.shape[rep]
             out.order = np.size(rep)
-- 
2.43.0


From d8027490628cb6698af21e3480994faffb68d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 028/123] fix: SparseTensor of order 1 or with only one
 non-zero entry

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 28c880b..cc5fdb4 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -108,8 +108,8 @@ class SparseTensor:
             ), "data and indices must have the same number of elements."
         else:
             raise ValueError("Wrong input arguments.")
-        self.data = np.squeeze(self.data)
-        self.shape = np.squeeze(self.shape)
+        self.data = np.ravel(self.data)
+        self.shape = np.array(self.shape, dtype=int).ravel()
 
     @property
     def size(self):
-- 
2.43.0


From 36a21421bc5a42a1145aef82838042c7b940815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 029/123] fix: MultiIndices.add_indices, keep_dims and
 remove_dims for empty sets

---
 tensap/tools/multi_indices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 5138081..5ee3424 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -319,7 +319,7 @@ class MultiIndices:
         """
         array = np.vstack((self.array, J.array))
         ind = np.unique(array, axis=0, return_index=True)[1]
-        array = np.array([array[index, :] for index in sorted(ind)])
+        array = array[np.sort(ind), :]
         return MultiIndices(array.astype(int))
 
     def remove_indices(self, J):
@@ -362,7 +362,7 @@ class MultiIndices:
         """
         array = self.array[:, np.setdiff1d(range(self.ndim()), dims)]
         ind = np.unique(array, axis=0, return_index=True)[1]
-        array = np.array([array[index, :] for index in sorted(ind)])
+        array = array[np.sort(ind), :]
         return MultiIndices(array.astype(int))
 
     def intersect_indices(self, J):
@@ -422,7 +422,7 @@ class MultiIndices:
         """
         array = self.array[:, dims]
         ind = np.unique(array, axis=0, return_index=True)[1]
-        array = np.array([array[index, :] for index in sorted(ind)])
+        array = array[np.sort(ind), :]
         return MultiIndices(array.astype(int))
 
     def get_indices(self, k):
@@ -551,7 +551,7 @@ class MultiIndices:
         ind_marg = neighbours[np.setdiff1d(range(neighbours.shape[0]), ind_marg), :]
 
         ind = np.unique(ind_marg, axis=0, return_index=True)[1]
-        ind_marg = np.array([ind_marg[index, :] for index in sorted(ind)])
+        ind_marg = ind_marg[np.sort(ind), :]
 
         return MultiIndices(ind_marg.astype(int))
 
-- 
2.43.0


From 60d41260ea07f39e1596a71e369896d9e70d1884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 030/123] fix: SparseTensor.tensor_vector_product along all the
 dimensions or with a zero result

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index cc5fdb4..7d6803b 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -329,14 +329,15 @@ class SparseTensor:
                 :, np.setdiff1d(range(out.indices.array.shape[1]), dims[i])
             ]
             out.indices.array = out.indices.array[a != 0, :]
+            out.data = a[a != 0]
 
-            if out.indices.array.size != 0:
+            if out.indices.array.shape[1] == 0:
+                out.data = np.sum(out.data)
+            elif out.data.size != 0:
                 out.indices.array, ind = np.unique(
                     out.indices.array, axis=0, return_inverse=True
                 )
-
-                a = a[a != 0]
-                out.data = np.bincount(ind, weights=a)
+                out.data = np.bincount(ind, weights=out.data)
 
             dims -= dims > dims[i]
 
-- 
2.43.0


From 6ecf0eb73dd1d7e6955aaf6788b53ba91f66480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 031/123] fix: SparseTensor.tensor_matrix_product for tensors
 of order 1 or equal to zero

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 7d6803b..aa5250a 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -388,8 +388,6 @@ class SparseTensor:
         for mu in dims:
             perm_dims = np.concatenate(([mu], np.setdiff1d(np.arange(out.order), mu)))
             out = out.transpose(perm_dims)
-            if out.order == 1:
-                out.shape[1] = 1
             ind = tensap.MultiIndices(out.indices.array[out.data != 0, :]).sub2ind(
                 out.shape
             )
@@ -399,7 +397,7 @@ class SparseTensor:
             x2u, x2uind = np.unique(x2, return_inverse=True)
             s = coo_matrix(
                 (out.data[out.data != 0], (x1, x2uind)),
-                shape=(out.shape[0], np.max(x2uind) + 1),
+                shape=(out.shape[0], x2u.size),
             )
             a = np.transpose(s.transpose().dot(np.transpose(matrices[k])))
             y1, y2 = np.nonzero(a)
-- 
2.43.0


From 0bfe8210450f0da02f6f21289e91d85869e59038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 032/123] fix: SparseTensor.tensor_diagonal_matrix_product

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index aa5250a..7a1340c 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -531,7 +531,7 @@ class SparseTensor:
                 len(matrices) == dims.size
             ), "len(matrices) must be equal to dims.size."
 
-        matrices = [tensap.FullTensor(np.diag(np.reshape(x, [-1]))) for x in matrices]
+        matrices = [np.diag(np.reshape(x, [-1])) for x in matrices]
         return self.tensor_matrix_product(matrices, dims)
 
     def dot(self, y):
-- 
2.43.0


From ba77fc4c05c8a00a8817e9c1ea221f84a882b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 033/123] fix: MultiIndices.__radd__ and __rsub__ modified the
 object and returned None

---
 tensap/tools/multi_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 5ee3424..b6bc9ea 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -92,13 +92,13 @@ class MultiIndices:
         return MultiIndices(self.array + m)
 
     def __radd__(self, m):
-        self.array += m
+        return self + m
 
     def __sub__(self, m):
         return MultiIndices(self.array - m)
 
     def __rsub__(self, m):
-        self.array -= m
+        return MultiIndices(m - self.array)
 
     def cardinal(self):
         """
-- 
2.43.0


From e5bfb693a2f64b91454ebbb497de7bacdf332d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 034/123] fix: MultiIndices.__eq__ and __le__ modified the
 second operand

---
 tensap/tools/multi_indices.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index b6bc9ea..55d9838 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -77,15 +77,11 @@ class MultiIndices:
         if not isinstance(J, MultiIndices):
             ok = False
         else:
-            if J.cardinal() == 1:
-                J.array = np.tile(J.array, (self.cardinal(), 1))
             ok = np.all(self.array == J.array, axis=1)
         return ok
 
     def __le__(self, J):
         assert isinstance(J, MultiIndices), "Must provide a MultiIndices."
-        if J.cardinal() == 1:
-            J.array = np.tile(J.array, (self.cardinal(), 1))
         return np.all(self.array <= J.array, axis=1)
 
     def __add__(self, m):
-- 
2.43.0


From 347510a364a552e1a5d4792ebeb63bda6fede6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 035/123] fix: MultiIndices.sort in descending order along
 several columns

---
 tensap/tools/multi_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 55d9838..563ecce 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -293,9 +293,9 @@ class MultiIndices:
                 ind = np.argsort(array[:, k])
             else:
                 ind = np.argsort(array[:, k], kind="mergesort")
-            if mode == "descend":
-                ind = np.flip(ind)
             array = array[ind, :]
+        if mode == "descend":
+            array = np.flip(array, axis=0)
         return MultiIndices(array.astype(int))
 
     def add_indices(self, J):
-- 
2.43.0


From cfd0210ff93dee1d2319954a7b3ebca0027c5362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 036/123] fix: MultiIndices.envelope of a list

---
 tensap/tools/multi_indices.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 563ecce..921033d 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -493,6 +493,7 @@ class MultiIndices:
             + "of multi-indices."
         )
 
+        u = np.array(u)
         env = np.array(u)
         for i in range(n):
             ind_sup = np.all(array >= np.tile(array[i, :], (n, 1)), axis=1)
-- 
2.43.0


From 81b1fee7abd92319bc1c3bc1f04c1acc257a5302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 037/123] fix: MultiIndices.product_set of a set of indices to
 the power d, and modification of the argument

---
 tensap/tools/multi_indices.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 921033d..3a0ac66 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -734,10 +734,13 @@ class MultiIndices:
 
         """
 
+        L = list(L)
+        if np.all([np.isscalar(x) for x in L]):
+            L = [np.array(L)]
         if d is None:
             d = len(L)
         if len(L) == 1 and d > 1:
-            L = list(L) * d
+            L = L * d
 
         for i in range(len(L)):
             if isinstance(L[i], MultiIndices):
-- 
2.43.0


From 227eafc6f8f7acce9f6360657123d4a6d8d63dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 038/123] fix: early stop in the construction of sets of
 multi-indices when only the first element of the margin is admissible

---
 tensap/tools/multi_indices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 3a0ac66..69ea5d8 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -638,7 +638,7 @@ class MultiIndices:
                 M = ind.get_margin()
                 n = M.norm(p)
                 k = np.nonzero(n <= m)[0]
-                if np.all(np.logical_not(k)):
+                if len(k) == 0:
                     add = False
                 else:
                     j = np.argsort(n[k])
@@ -851,7 +851,7 @@ class MultiIndices:
             M = M.remove_indices(rem)
             n = np.delete(n, rem)
             k = np.nonzero(n <= m)[0]
-            if np.all(np.logical_not(k)):
+            if len(k) == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
@@ -886,7 +886,7 @@ class MultiIndices:
             M = ind.get_margin()
             n = np.prod((M.array + 1) ** w_k, axis=-1)
             k = np.nonzero(n <= p + 1)[0]
-            if np.all(np.logical_not(k)):
+            if len(k) == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
-- 
2.43.0


From 65cce7c5122ee89620adba969946c085d60f1fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 039/123] fix: integer2baseb returned a useless leading digit
 for some integers b^d - 1 and failed for zero

---
 tensap/tools/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/tools/utils.py b/tensap/tools/utils.py
index bdb6756..7059a02 100644
--- a/tensap/tools/utils.py
+++ b/tensap/tools/utils.py
@@ -55,7 +55,9 @@ def integer2baseb(i, b, d=None):
 
     """
     if d is None:
-        d = int(np.ceil(np.log(np.max(i) + 1) / np.log(b)))
+        d = 1
+        while b**d <= np.max(i):
+            d += 1
 
     I0 = np.unravel_index(np.ravel(i), np.full(d, b), order="F")
     return np.fliplr(np.transpose(np.array(I0)))
-- 
2.43.0


From 8326e8b1f71534d5e8dea963f24df4367aa0e6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 040/123] fix: RandomVariable.__eq__ failed for random
 variables defined by a sample or a set of values

---
 tensap/functions/measures/random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index fccc011..5e61ca3 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -75,7 +75,7 @@ class RandomVariable(tensap.ProbabilityMeasure):
             param_1 = self.get_parameters()
             param_2 = rv_2.get_parameters()
             for ind in zip(param_1, param_2):
-                is_equal = is_equal and (ind[0] == ind[1])
+                is_equal = is_equal and np.array_equal(ind[0], ind[1])
         return is_equal
 
     def __neq__(self, rv_2):
-- 
2.43.0


From 3a7ed850124b3c6983033529f6100a036b075a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 041/123] fix: OrthonormalPolynomials.__eq__ failed for Hermite
 and Legendre polynomials

---
 .../functions/polynomials/orthonormal_polynomials.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 0e19241..c8a95da 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -65,15 +65,17 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
             out = False
         else:
             out = (
-                self.measure == poly_2.measure
+                isinstance(self, type(poly_2))
+                and self.measure == poly_2.measure
                 and np.array_equal(
-                    self._recurrence_coefficients, poly_2._recurrence_coefficients
+                    getattr(self, "_recurrence_coefficients", None),
+                    getattr(poly_2, "_recurrence_coefficients", None),
                 )
                 and np.array_equal(
-                    self._orthogonal_polynomials_norms,
-                    poly_2._orthogonal_polynomials_norms,
+                    getattr(self, "_orthogonal_polynomials_norms", None),
+                    getattr(poly_2, "_orthogonal_polynomials_norms", None),
                 )
-                and self.is_orthonormal == poly_2.is_orthonormal
+                and self.is_orthonormal() == poly_2.is_orthonormal()
             )
         return out
 
-- 
2.43.0


From be627758a4c37f880dc6494cde0a7897a57bc2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 042/123] fix: derivatives of canonical polynomials of order
 greater than their degrees

---
 tensap/functions/polynomials/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/polynomials.py b/tensap/functions/polynomials/polynomials.py
index db54d37..44de866 100644
--- a/tensap/functions/polynomials/polynomials.py
+++ b/tensap/functions/polynomials/polynomials.py
@@ -104,7 +104,7 @@ class UnivariatePolynomials(ABC):
         )
         coef = self.poly_coeff(ind)[:, n:] * np.tile(coef, (len(ind), 1))
         if coef.size == 0:
-            coef = np.zeros(len(ind))
+            coef = np.zeros((len(ind), 1))
         return coef
 
     def d_polyval(self, ind, x):
-- 
2.43.0


From 9ab8bcbd0ff88c6a54056995fc4430160a1bf971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 043/123] fix: orthonormal polynomials of a Lebesgue measure
 (or of a discrete measure with a mass different from one): normalization,
 constant function, coefficients, derivatives and moments

---
 .../polynomials/orthonormal_polynomials.py    | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index c8a95da..42e59f6 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -56,9 +56,8 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
     def is_orthonormal():
         return True
 
-    @staticmethod
-    def one():
-        return 1, 0
+    def one(self):
+        return np.sqrt(self.measure.mass()), 0
 
     def __eq__(self, poly_2):
         if not isinstance(poly_2, OrthonormalPolynomials):
@@ -111,7 +110,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
         ):
             out = np.zeros(ind.shape[0])
             if ind.shape[1] == 1:
-                out[ind[:, 0] == 0] = 1
+                out[ind[:, 0] == 0] = np.sqrt(self.measure.mass())
             else:
                 out[ind[:, 0] == ind[:, 1]] = 1
         else:
@@ -140,6 +139,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
                     - np.sqrt(b[deg]) * coef[deg - 1, :]
                 ) / np.sqrt(b[deg + 1])
 
+        coef /= np.sqrt(self.measure.mass())
         return coef[ind, :]
 
     def polyval(self, ind, x):
@@ -181,7 +181,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
             out[:, 0] = 0
             if max_ind > 0:
                 if k == 1:
-                    out[:, 1] = 1 / np.sqrt(b[1])
+                    out[:, 1] = 1 / np.sqrt(b[1] * self.measure.mass())
                 else:
                     out[:, 1] = 0
             for deg in np.arange(2, max_ind + 1):
@@ -303,6 +303,7 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
         self.polynomials = polynomials
         self.shift = shift
         self.scaling = scaling
+        self._mass_ratio = self.measure.mass() / polynomials.measure.mass()
 
     def __repr__(self):
         return "<{}>".format(self.__class__.__name__)
@@ -311,9 +312,8 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
     def is_orthonormal():
         return True
 
-    @staticmethod
-    def one():
-        return 1, 0
+    def one(self):
+        return np.sqrt(self.measure.mass()), 0
 
     def __eq__(self, poly_2):
         if not isinstance(poly_2, ShiftedOrthonormalPolynomials):
@@ -365,15 +365,19 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
 
     def polyval(self, ind, x):
         x = (x - self.shift) / self.scaling
-        return self.polynomials.polyval(ind, x)
+        return self.polynomials.polyval(ind, x) / np.sqrt(self._mass_ratio)
 
     def d_polyval(self, ind, x):
         x = (x - self.shift) / self.scaling
-        return self.polynomials.d_polyval(ind, x) / self.scaling
+        return self.polynomials.d_polyval(ind, x) / (
+            self.scaling * np.sqrt(self._mass_ratio)
+        )
 
     def dn_polyval(self, n, ind, x):
         x = (x - self.shift) / self.scaling
-        return self.polynomials.dn_polyval(n, ind, x) / (self.scaling**n)
+        return self.polynomials.dn_polyval(n, ind, x) / (
+            self.scaling**n * np.sqrt(self._mass_ratio)
+        )
 
     def random(self, ind, n=1, measure=None):
         """
-- 
2.43.0


From 8f6ea4727fa82bf4a68f070a1af92df217bc65d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 044/123] fix: moments and means of shifted orthonormal
 polynomials with respect to another measure

---
 .../polynomials/orthonormal_polynomials.py       | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 42e59f6..3ec916c 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -350,18 +350,12 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
         """
         return self.shift + self.scaling * self.polynomials.truncated_domain()
 
-    def mean(self, ind, *measure):
-        return self.polynomials.mean(ind, *measure)
-
     def moment(self, ind, *measure):
-        if measure:
-            if measure[0] == self.measure:
-                measure = ()
-            else:
-                measure = tuple(
-                    [measure[0].shift(-self.shift / self.scaling, 1 / self.scaling)]
-                )
-        return self.polynomials.moment(ind, *measure)
+        if measure and measure[0] != self.measure:
+            return super().moment(ind, *measure)
+        nb_factors = np.atleast_2d(ind).shape[1]
+        out = self.polynomials.moment(ind)
+        return out * self._mass_ratio ** (1 - nb_factors / 2)
 
     def polyval(self, ind, x):
         x = (x - self.shift) / self.scaling
-- 
2.43.0


From b95800f4da6e2a56c295365070303cfa6f54c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 045/123] fix: coefficients of derivatives of order much
 greater than the degrees of the polynomials

---
 tensap/functions/polynomials/polynomials.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tensap/functions/polynomials/polynomials.py b/tensap/functions/polynomials/polynomials.py
index 44de866..2e371a3 100644
--- a/tensap/functions/polynomials/polynomials.py
+++ b/tensap/functions/polynomials/polynomials.py
@@ -95,11 +95,10 @@ class UnivariatePolynomials(ABC):
             of order contained in ind.
 
         """
+        nb_coef = max(np.max(ind) - n + 1, 0)
         coef = np.prod(
-            np.tile(np.arange(np.max(ind) - n + 1), (n, 1))
-            + np.tile(
-                np.expand_dims(np.arange(1, n + 1), axis=1), (1, np.max(ind) - n + 1)
-            ),
+            np.tile(np.arange(nb_coef), (n, 1))
+            + np.tile(np.expand_dims(np.arange(1, n + 1), axis=1), (1, nb_coef)),
             0,
         )
         coef = self.poly_coeff(ind)[:, n:] * np.tile(coef, (len(ind), 1))
-- 
2.43.0


From 7eac71c4c439d1aa73fd047731469647fce3513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 046/123] fix: moments of polynomials with respect to a
 discrete measure: use the measure itself, the Gauss rule being missing or
 limited by the number of values

---
 tensap/functions/polynomials/polynomials.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/polynomials.py b/tensap/functions/polynomials/polynomials.py
index 2e371a3..e228c33 100644
--- a/tensap/functions/polynomials/polynomials.py
+++ b/tensap/functions/polynomials/polynomials.py
@@ -222,7 +222,12 @@ class UnivariatePolynomials(ABC):
         max_deg = np.max(np.sum(ind, 1))  # Maximum degree of the product
         nb_pts = int(np.ceil((max_deg + 1) / 2))  # Number of points
 
-        G = measure.gauss_integration_rule(nb_pts)
+        if isinstance(
+            measure, (tensap.DiscreteMeasure, tensap.DiscreteRandomVariable)
+        ):
+            G = measure.integration_rule()
+        else:
+            G = measure.gauss_integration_rule(nb_pts)
         for i in range(ind.shape[0]):
             # Creation of the function to integrate
             def poly(x):
-- 
2.43.0


From d407fc74c8fc1bb614486ebf610a7b17b47669e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 047/123] fix: ShiftedOrthonormalPolynomials.random with a
 given measure shifted the points drawn from it

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 3ec916c..d29f1c8 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -398,7 +398,9 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
             The randomly drawn input points.
 
         """
-        fx, x = self.polynomials.random(ind, n, measure)
+        if measure is not None:
+            return OrthonormalPolynomials.random(self, ind, n, measure)
+        fx, x = self.polynomials.random(ind, n)
         x = self.shift + self.scaling * x
         return fx, x
 
-- 
2.43.0


From 739cdca75157c04504963d07f0797cc6b7d97728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 048/123] fix: EmpiricalPolynomials could not be built from a
 sample

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index d29f1c8..b2e48b9 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -634,7 +634,7 @@ class EmpiricalPolynomials(OrthonormalPolynomials):
             self.measure = sample.get_standard_random_variable()
         else:
             # Standardization of the sample
-            x = np.reshape(self.sample, [-1, 1])
+            x = np.reshape(sample, [-1, 1])
             x = (x - np.tile(np.mean(x, 0), (x.shape[0], 1))) / np.tile(
                 np.std(x, 0), (x.shape[0], 1)
             )
-- 
2.43.0


From ea84a060b0543da902998441ad6f400643bb0052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 049/123] fix: cdf of EmpiricalRandomVariable not consistent
 with its pdf unless the standard deviation of the sample is one

---
 tensap/functions/measures/empirical_random_variable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 941f106..17489d7 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -159,7 +159,11 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
         return self.sample, self.bandwidth
 
     def cdf(self, x):
-        kde = scipy.stats.gaussian_kde(self.sample, self.bandwidth)
+        # The bandwidth of gaussian_kde is relative to the standard deviation
+        sample = np.ravel(self.sample)
+        kde = scipy.stats.gaussian_kde(
+            sample, self.bandwidth / np.std(sample, ddof=1)
+        )
         return np.vectorize(lambda z: kde.integrate_box_1d(-np.inf, z))(x)
 
     def icdf(self, x, *args, **kwargs):
-- 
2.43.0


From 473ce24f5769c321bb2b71ad31a51299f4dd7afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 050/123] fix: infinite recursion in
 EmpiricalRandomVariable.icdf, and in the methods using it (random, transfer,
 truncated_support, discretize)

---
 .../measures/empirical_random_variable.py      | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 17489d7..261077c 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -184,13 +184,21 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
             The evaluations of the icdf at points x.
 
         """
+
         # TODO Optimize the method
-        sup = self.truncated_support()
-        return np.vectorize(
-            lambda p: scipy.optimize.brentq(
-                lambda y: self.cdf(y) - p, sup[0], sup[1], *args, **kwargs
+        def quantile(p):
+            # The quantile of order p of the mixture is between the smallest
+            # and the greatest quantiles of its components
+            z = scipy.stats.norm.ppf(p) * self.bandwidth
+            if not np.isfinite(z):
+                return z
+            inf = np.min(self.sample) + z - self.bandwidth
+            sup = np.max(self.sample) + z + self.bandwidth
+            return scipy.optimize.brentq(
+                lambda y: self.cdf(y) - p, inf, sup, *args, **kwargs
             )
-        )(x)
+
+        return np.vectorize(quantile, otypes=[float])(x)
 
     def pdf(self, x):
         xi, h = self.get_parameters()
-- 
2.43.0


From cedf7911b6e7c620a683333740b4678617ee08b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 051/123] fix: moments of a discrete random variable of order
 greater than twice the number of its values

---
 tensap/functions/measures/random_variable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index 5e61ca3..6384e49 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -388,8 +388,11 @@ class RandomVariable(tensap.ProbabilityMeasure):
             out = self.moments[ind]
         else:
             out = np.zeros(np.size(ind))
-            nb_pts = int(np.ceil((np.max(ind) + 1) / 2))
-            G = self.gauss_integration_rule(nb_pts)
+            if isinstance(self, tensap.DiscreteRandomVariable):
+                G = self.integration_rule()
+            else:
+                nb_pts = int(np.ceil((np.max(ind) + 1) / 2))
+                G = self.gauss_integration_rule(nb_pts)
             for nb, ind_loc in enumerate(ind):
                 out[nb] = G.integrate(lambda x: x**ind_loc)
 
-- 
2.43.0


From 5ce23db7ec53b4e615e7af41a2f8f6a9792b8f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 052/123] fix: RandomVariable.moment stored the moments asked
 for as if they were those of orders 0, 1, ...

---
 tensap/functions/measures/random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index 6384e49..c6c0a76 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -399,7 +399,7 @@ class RandomVariable(tensap.ProbabilityMeasure):
         if nargout == 1:
             return out
         X = deepcopy(self)
-        X.moments = out
+        X.moments = self.moment(np.arange(np.max(ind) + 1))
         return out, X
 
     def mean(self):
-- 
2.43.0


From e54180004a7de4c4b6a269cf460916a133e240bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 053/123] fix: quantiles of a discrete random variable whose
 values are not sorted, or for a probability greater than the rounded sum of
 its probabilities

---
 .../measures/discrete_random_variable.py          | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index bc7a4a5..5e0e215 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -225,15 +225,12 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         """
         p = np.array(p)
         shape = p.shape
-        v = np.vstack(([-np.inf], np.reshape(self.values, (-1, 1))))
-        F = np.vstack(([0], np.reshape(self.probabilities, (-1, 1))))
-
-        M = p.size
-        p = np.tile(np.reshape(p, (1, M)), (F.size, 1))
-        F = np.tile(np.reshape(np.cumsum(F), (-1, 1)), (1, M))
-        return np.reshape(
-            v[np.nonzero(np.cumsum(np.transpose(F >= p), 1) == 1)[1]], shape
-        )
+        ind = np.argsort(np.ravel(self.values))
+        v = np.concatenate(([-np.inf], np.ravel(self.values)[ind]))
+        F = np.concatenate(([0], np.cumsum(self.probabilities[ind])))
+
+        ind = np.searchsorted(F, np.ravel(p))
+        return np.reshape(v[np.minimum(ind, F.size - 1)], shape)
 
     def mean(self):
         return np.matmul(np.transpose(self.probabilities), self.values)
-- 
2.43.0


From c0382cea7ba2d9d7c5f1b62961c5e6809801b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 054/123] fix: EmpiricalRandomVariable.icdf for probabilities
 close to one, when the values of the cdf are rounded below them

---
 tensap/functions/measures/empirical_random_variable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 261077c..1a27223 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -194,6 +194,8 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
                 return z
             inf = np.min(self.sample) + z - self.bandwidth
             sup = np.max(self.sample) + z + self.bandwidth
+            if self.cdf(sup) <= p:  # cdf rounded below one
+                return sup
             return scipy.optimize.brentq(
                 lambda y: self.cdf(y) - p, inf, sup, *args, **kwargs
             )
-- 
2.43.0


From f07d4dce8bd6a0b53c08b9b4c64df6fee5f2ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 055/123] fix: transfer between two empirical random variables
 with samples of different sizes

---
 tensap/functions/measures/empirical_random_variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 1a27223..11f28ac 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -91,6 +91,7 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
         # If Y is the standard random variable associated to X
         if (
             isinstance(Y, (EmpiricalRandomVariable, tensap.EmpiricalRandomVariable))
+            and np.shape(Y.sample) == np.shape(self.sample)
             and np.linalg.norm(
                 Y.sample - (self.sample - np.mean(self.sample)) / np.std(self.sample)
             )
-- 
2.43.0


From 5fb3ae65b2e5f781b8c277f03f8875c299d980a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 056/123] fix: pdf of a random vector with a copula whose pdf
 returns a column, as IndependentCopula does

---
 tensap/functions/measures/random_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index 08d2edf..984a24f 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -230,7 +230,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             u = np.zeros(x.shape)
             for i in range(self.size):
                 u[:, i] = np.ravel(self.random_variables[i].cdf(x[:, i]))
-            p = p * self.copula.pdf(u)
+            p = p * np.ravel(self.copula.pdf(u))
 
         return p
 
-- 
2.43.0


From 1a4ee2ff3089d181dd1115a77e16f688b0134be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 057/123] fix: mean, standard deviation and variance of a
 random vector with discrete and continuous components

---
 tensap/functions/measures/random_vector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index 984a24f..4caf73d 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -301,7 +301,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The mean of the random variable.
 
         """
-        return np.atleast_1d([x.mean() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.mean()) for x in self.random_variables])
 
     def std(self):
         """
@@ -313,7 +313,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The standard deviation of the random variable.
 
         """
-        return np.atleast_1d([x.std() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.std()) for x in self.random_variables])
 
     def variance(self):
         """
@@ -325,7 +325,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The variance of the random variable.
 
         """
-        return np.atleast_1d([x.variance() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.variance()) for x in self.random_variables])
 
     def transfer(self, Y, x):
         """
-- 
2.43.0


From 4f18ae5cd0e9954842876abd5075d5c437703f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 058/123] fix: orthonormal polynomials of a random vector with
 normal or discrete components when a maximal degree is given

---
 tensap/functions/measures/discrete_random_variable.py | 2 +-
 tensap/functions/measures/normal_random_variable.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index 5e0e215..bf87b11 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -167,7 +167,7 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         """
         return tensap.IntegrationRule(self.values, self.probabilities)
 
-    def orthonormal_polynomials(self):
+    def orthonormal_polynomials(self, *max_degree):
         """
         Return orthonormal polynomials associated with
         the DiscreteRandomVariable.
diff --git a/tensap/functions/measures/normal_random_variable.py b/tensap/functions/measures/normal_random_variable.py
index 5f4b2fa..0229e19 100644
--- a/tensap/functions/measures/normal_random_variable.py
+++ b/tensap/functions/measures/normal_random_variable.py
@@ -174,7 +174,7 @@ class NormalRandomVariable(tensap.RandomVariable):
         """
         return array([-inf, inf])
 
-    def orthonormal_polynomials(self):
+    def orthonormal_polynomials(self, *max_degree):
         """
         Return orthonormal polynomials associated with
         the NormalRandomVariable.
-- 
2.43.0


From ab227e72f4f3dea044d5c7345dd1f392908ee338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 059/123] fix: equality of product measures of different
 dimensions, or of a product measure and another measure

---
 tensap/functions/measures/product_measure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/product_measure.py b/tensap/functions/measures/product_measure.py
index f3630ba..979ad0b 100644
--- a/tensap/functions/measures/product_measure.py
+++ b/tensap/functions/measures/product_measure.py
@@ -68,7 +68,11 @@ class ProductMeasure(tensap.Measure):
         )
 
     def __eq__(self, measure_2):
-        return np.all([x == y for x, y in zip(self.measures, measure_2.measures)])
+        return (
+            isinstance(measure_2, ProductMeasure)
+            and len(self.measures) == len(measure_2.measures)
+            and np.all([x == y for x, y in zip(self.measures, measure_2.measures)])
+        )
 
     def is_discrete(self):
         return np.all([x.is_discrete() for x in self.measures])
-- 
2.43.0


From 02c003e0e4f1e4833a4b382f5ddd7673e634f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 060/123] fix: random samples of discrete measures and random
 variables with values in R^d

---
 tensap/functions/measures/discrete_measure.py         | 3 ++-
 tensap/functions/measures/discrete_random_variable.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/measures/discrete_measure.py b/tensap/functions/measures/discrete_measure.py
index 852ffd3..10835a4 100644
--- a/tensap/functions/measures/discrete_measure.py
+++ b/tensap/functions/measures/discrete_measure.py
@@ -166,4 +166,5 @@ class DiscreteMeasure(tensap.Measure):
             self.weights / np.sum(self.weights),
         )
         ind = Y.icdf(np.random.rand(n)).astype(int)
-        return np.squeeze(self.values[ind, :], 1)
+        x = self.values[ind, :]
+        return np.squeeze(x, 1) if x.shape[1] == 1 else x
diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index bf87b11..6f19b71 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -282,4 +282,5 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         """
 
         ind = np.random.choice(len(self.probabilities), int(n), p=self.probabilities)
-        return np.squeeze(self.values[ind.astype(int), :], 1)
+        x = self.values[ind.astype(int), :]
+        return np.squeeze(x, 1) if x.shape[1] == 1 else x
-- 
2.43.0


From 28e6d668a3863bfe98eaeca0c7cde256b6d660f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 061/123] fix: random_multi_indices modified its argument

---
 tensap/functions/measures/random_multi_indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_multi_indices.py b/tensap/functions/measures/random_multi_indices.py
index f8eff61..a059149 100644
--- a/tensap/functions/measures/random_multi_indices.py
+++ b/tensap/functions/measures/random_multi_indices.py
@@ -44,7 +44,7 @@ def random_multi_indices(shape):
     order = len(shape)
 
     if np.all([isinstance(x, (list, np.ndarray)) for x in shape]):
-        ind = shape
+        ind = list(shape)
     else:
         ind = []
         for dim in range(order):
-- 
2.43.0


From 7d1f39aefafbc2745bf6b2797e124bd0c842c523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 062/123] fix: iso_probabilistic_grid of a random vector of
 dimension one with a scalar number of cells

---
 tensap/functions/measures/random_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index 4caf73d..8cb702e 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -167,7 +167,7 @@ class RandomVector(tensap.ProbabilityMeasure):
         if np.size(n) == 1 and n < 1:
             n = int(np.ceil(n ** (-1 / d)))
 
-        if np.size(n) != d:
+        if np.size(n) == 1:
             n = np.full(d, n)
 
         b = [x.iso_probabilistic_grid(y) for x, y in zip(self.random_variables, n)]
-- 
2.43.0


From d4f2a17e4173a435543511d06ae834195ba79d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 063/123] fix: IntegrationRule.ndim for a rule on the line

---
 tensap/approximation/integration/integration_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/integration/integration_rules.py b/tensap/approximation/integration/integration_rules.py
index 22acae2..b51446d 100644
--- a/tensap/approximation/integration/integration_rules.py
+++ b/tensap/approximation/integration/integration_rules.py
@@ -65,7 +65,7 @@ class IntegrationRule:
             The number of integration points.
 
         """
-        return self.points.shape[1]
+        return 1 if self.points.ndim == 1 else self.points.shape[1]
 
     def integrate(self, fun):
         """
-- 
2.43.0


From 90019742f591abde7f351eaf5797ef96a3f5ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 064/123] fix: FullTensorGrid modified the list of grids given
 to it

---
 tensap/tools/grids.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/grids.py b/tensap/tools/grids.py
index 37950ad..9a4940a 100644
--- a/tensap/tools/grids.py
+++ b/tensap/tools/grids.py
@@ -182,6 +182,7 @@ class FullTensorGrid(TensorGrid):
                 np.ndim(grids) == 1
             ), "The first argument must be a unidimensional grid."
             grids = [np.reshape(grids, (-1, 1))] * dim
+        grids = list(grids)
         for i in range(len(grids)):
             if len(grids[i].shape) == 1:
                 grids[i] = np.reshape(grids[i], (-1, 1))
-- 
2.43.0


From f8a87acb988cdb5304810699b8296c2152d6cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 065/123] fix: IntegrationRule.tensorize failed for the rule of
 a discrete measure, whose points are a column

---
 tensap/approximation/integration/integration_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/integration/integration_rules.py b/tensap/approximation/integration/integration_rules.py
index b51446d..132c695 100644
--- a/tensap/approximation/integration/integration_rules.py
+++ b/tensap/approximation/integration/integration_rules.py
@@ -101,7 +101,7 @@ class IntegrationRule:
             The integration rule in dimension dim.
 
         """
-        points = tensap.FullTensorGrid(self.points, dim)
+        points = tensap.FullTensorGrid([self.points] * dim)
         weights = [self.weights] * dim
         return tensap.FullTensorProductIntegrationRule(points, weights)
 
-- 
2.43.0


From 9d8d6a1a4a96ac1b1cf853aee4508cbf679d25ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 066/123] fix: SubFunctionalBasis.eval_derivative gave its
 arguments to the underlying basis in the wrong order

---
 tensap/approximation/bases/sub_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 4fceb56..aa10891 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -140,7 +140,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
             self.basis of degrees in self.indices at points x.
 
         """
-        return np.matmul(self.underlying_basis.eval_derivative(x, n), self.basis)
+        return np.matmul(self.underlying_basis.eval_derivative(n, x), self.basis)
 
     def derivative(self, n):
         """
-- 
2.43.0


From a9e199e519520c8e4f6e7364a6d60e8ba060b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 067/123] fix: Jacobian of a SubFunctionalBasis used the
 transpose of its matrix

---
 tensap/approximation/bases/sub_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index aa10891..48c9669 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -180,7 +180,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
 
         """
         jac = self.underlying_basis.eval_jacobian(x)
-        out = np.einsum("ij,ajk", self.basis, jac)
+        out = np.einsum("ji,ajk->aik", self.basis, jac)
         return out
 
     def mean(self):
-- 
2.43.0


From 2dca2283b424b2530fa2667343300864927267ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 068/123] fix: mean of piecewise polynomial bases

---
 .../bases/piecewise_polynomial_functional_basis.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
index 51c855c..188ea21 100644
--- a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
+++ b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
@@ -140,7 +140,7 @@ class PiecewisePolynomialFunctionalBasis(tensap.FunctionalBasis):
         p2 = self.points[1:]
         h = p2 - p1
         m = np.zeros(self.cardinal())
-        q = np.cumsum(np.concatenate((0, self.p[:-1] + 1)))
+        q = np.cumsum(np.concatenate(([0], self.p[:-1] + 1)))
         m[q] = np.sqrt(h)
         return m
 
-- 
2.43.0


From 6813b8c7c7db9b71185e59adda60a77f42659454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 069/123] fix: DilatedBSplinesFunctionalBasis did not define
 its dimension (ndims instead of ndim)

---
 tensap/approximation/bases/BSplines_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/BSplines_functional_basis.py b/tensap/approximation/bases/BSplines_functional_basis.py
index 8a7df1e..da0cf3b 100644
--- a/tensap/approximation/bases/BSplines_functional_basis.py
+++ b/tensap/approximation/bases/BSplines_functional_basis.py
@@ -376,7 +376,7 @@ class DilatedBSplinesFunctionalBasis(tensap.FunctionalBasis):
     def cardinal(self):
         return self.indices[0].size
 
-    def ndims(self):
+    def ndim(self):
         return 1
 
     def eval_derivative(self, k, x):
-- 
2.43.0


From e1ee5d42b846d1af9ed24d5a813c3fb8ccf849c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 070/123] fix: DilatedBSplinesFunctionalBasis modified the list
 of indices given to it

---
 tensap/approximation/bases/BSplines_functional_basis.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/BSplines_functional_basis.py b/tensap/approximation/bases/BSplines_functional_basis.py
index da0cf3b..183a97e 100644
--- a/tensap/approximation/bases/BSplines_functional_basis.py
+++ b/tensap/approximation/bases/BSplines_functional_basis.py
@@ -359,10 +359,9 @@ class DilatedBSplinesFunctionalBasis(tensap.FunctionalBasis):
         if not isinstance(B, DilatedBSplines):
             raise ValueError("must provide a DilatedBSplines")
 
-        if isinstance(Ind, tuple):
-            Ind = list(Ind)
-        elif not isinstance(Ind, list):
+        if not isinstance(Ind, (list, tuple)):
             raise ValueError("must provide a list or tuple")
+        Ind = list(Ind)
 
         Ind[0] = np.ravel(Ind[0])
         Ind[1] = np.ravel(Ind[1])
-- 
2.43.0


From a8f1528e68606ec1b950ded25b7587c62354c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 071/123] fix: Jacobian of univariate functional bases

---
 tensap/approximation/bases/functional_basis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index 727db80..ffeb0ff 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -469,8 +469,11 @@ class FunctionalBasis:
         """
         dnHx_lst = []
         for ind in range(self.ndim()):
-            n = self.ndim() * [0]
-            n[ind] = 1
+            if self.ndim() == 1:
+                n = 1
+            else:
+                n = self.ndim() * [0]
+                n[ind] = 1
             # add an axis to concatenate
             dnHx_i = self.eval_derivative(n, x)[:, :, None]
             dnHx_lst.append(dnHx_i)
-- 
2.43.0


From 24ccb3dd767ec2289ad7eb45a4e86c4aa30634c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 072/123] fix: B-splines with repeated knots were not a number

---
 .../bases/BSplines_functional_basis.py        | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/tensap/approximation/bases/BSplines_functional_basis.py b/tensap/approximation/bases/BSplines_functional_basis.py
index 183a97e..cfd1b4d 100644
--- a/tensap/approximation/bases/BSplines_functional_basis.py
+++ b/tensap/approximation/bases/BSplines_functional_basis.py
@@ -101,9 +101,15 @@ class BSplinesFunctionalBasis(tensap.FunctionalBasis):
 
         for j in np.arange(1, self.degree + 1):
             for i in range(m - 1 - j):
-                Bx[:, i, j] = (x - t[i]) / (t[i + j] - t[i]) * Bx[:, i, j - 1] + (
-                    t[i + j + 1] - x
-                ) / (t[i + j + 1] - t[i + 1]) * Bx[:, i + 1, j - 1]
+                # Terms with zero denominators (repeated knots) are zero
+                if t[i + j] > t[i]:
+                    Bx[:, i, j] += (x - t[i]) / (t[i + j] - t[i]) * Bx[:, i, j - 1]
+                if t[i + j + 1] > t[i + 1]:
+                    Bx[:, i, j] += (
+                        (t[i + j + 1] - x)
+                        / (t[i + j + 1] - t[i + 1])
+                        * Bx[:, i + 1, j - 1]
+                    )
 
         return Bx
 
@@ -155,14 +161,15 @@ class BSplinesFunctionalBasis(tensap.FunctionalBasis):
 
             for j in np.arange(1, self.degree + 1):
                 for i in range(t.size - 1 - j):
-                    dBx[:, i, j] = (
-                        k / (t[i + j] - t[i]) * dBx_old[:, i, j - 1]
-                        - k / (t[i + j + 1] - t[i + 1]) * dBx_old[:, i + 1, j - 1]
-                        + (x - t[i]) / (t[i + j] - t[i]) * dBx[:, i, j - 1]
-                        + (t[i + j + 1] - x)
-                        / (t[i + j + 1] - t[i + 1])
-                        * dBx[:, i + 1, j - 1]
-                    )
+                    if t[i + j] > t[i]:
+                        dBx[:, i, j] += (
+                            k * dBx_old[:, i, j - 1] + (x - t[i]) * dBx[:, i, j - 1]
+                        ) / (t[i + j] - t[i])
+                    if t[i + j + 1] > t[i + 1]:
+                        dBx[:, i, j] += (
+                            (t[i + j + 1] - x) * dBx[:, i + 1, j - 1]
+                            - k * dBx_old[:, i + 1, j - 1]
+                        ) / (t[i + j + 1] - t[i + 1])
 
         dBx = dBx[:, : t.size - 1 - self.degree, -1]
         return dBx
-- 
2.43.0


From 0d502d4fef7de666da923b826262c0ad0884d5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 073/123] fix: DeltaFunctionalBasis: number of functions,
 dimension, message printed at each evaluation

---
 tensap/approximation/bases/delta_functional_basis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/delta_functional_basis.py b/tensap/approximation/bases/delta_functional_basis.py
index 99dce90..d016672 100755
--- a/tensap/approximation/bases/delta_functional_basis.py
+++ b/tensap/approximation/bases/delta_functional_basis.py
@@ -79,12 +79,13 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
 
         if measure is not None:
             self.input_dimension = measure.ndim()
+        elif values is not None:
+            self.input_dimension = values.shape[1]
         else:
             self.input_dimension = 1
 
     def eval(self, x):
         x = np.atleast_1d(x)
-        print(x)
         dim = self.values.shape[0]
         out = np.zeros((np.shape(x)[0], dim))
         for mu in range(dim):
@@ -99,4 +100,4 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
         return self.input_dimension
 
     def cardinal(self):
-        return self.values.shape[1]
+        return self.values.shape[0]
-- 
2.43.0


From 575315bc42ad7e045c47067e3e339414ca5395f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 074/123] fix: PolynomialFunctionalBasis.kron projected the
 products on the first basis instead of the polynomials of sufficient degree

---
 tensap/approximation/bases/polynomial_functional_basis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 97f81fc..2157c5d 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -121,7 +121,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
 
     def kron(self, q):
         m = np.max(self.indices) + np.max(q.indices)
-        b = PolynomialFunctionalBasis(self.basis, range(m))
+        b = PolynomialFunctionalBasis(self.basis, range(m + 1))
         b.measure = self.measure
 
         def fun(x):
@@ -136,8 +136,8 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             )
 
         measure = b.measure
-        int_rule = measure.gauss_integration_rule(2 * m)
-        return tensap.SubFunctionalBasis(b, self.projection(fun, int_rule).data)
+        int_rule = measure.gauss_integration_rule(m + 1)
+        return tensap.SubFunctionalBasis(b, b.projection(fun, int_rule).data)
 
     def derivative(self, k, measure=None):
         """
-- 
2.43.0


From 524e1c671d6dd1232b45c16141b44e6cee49141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 075/123] fix: derivatives of polynomial bases projected on
 themselves: number of integration points

---
 tensap/approximation/bases/polynomial_functional_basis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 2157c5d..1e360b1 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -168,7 +168,11 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             assert self.measure is not None, "Must specify a Measure."
             measure = self.measure
 
-        nb_pts = int(np.ceil(np.max(self.indices) - (k - 1) / 2))
+        if self.is_orthonormal:
+            nb_pts = max(int(np.ceil(np.max(self.indices) - (k - 1) / 2)), 1)
+        else:
+            # The least-squares projection needs the points to be unisolvent
+            nb_pts = np.max(self.indices) + 1
         int_rule = measure.gauss_integration_rule(nb_pts)
 
         def fun(x):
-- 
2.43.0


From 4b9b28c65c13116cfa6b96816cf1ac9b31a27ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 076/123] fix: coefficients of array-valued functions were
 permuted by the constructor of FunctionalBasisArray

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index bbc4228..020a930 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -74,7 +74,7 @@ class FunctionalBasisArray(tensap.Function):
         self.shape = np.atleast_1d(shape)
         self.output_shape = self.shape
         self.data = np.reshape(
-            self.data, np.concatenate(([basis.cardinal()], self.shape))
+            self.data, np.concatenate(([basis.cardinal()], self.shape)), order="F"
         )
 
     def __add__(self, g):
-- 
2.43.0


From 3c87d578b6a5fc92bd2f992ecccf6dbf8c7c3467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 077/123] fix: PolynomialFunctionalBasis.hessian required a
 measure

---
 tensap/approximation/bases/polynomial_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 1e360b1..14b1b51 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -200,7 +200,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
         """
         return self.derivative(1, measure)
 
-    def hessian(self, measure):
+    def hessian(self, measure=None):
         """
         Compute the second order derivative of the functions of the basis
         projected on itself.
-- 
2.43.0


From d9985416082dbe7cd8da30ccf7944586299c3137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 078/123] fix: FunctionalBases: keep the measure and the array
 of bases consistent with the kept, removed, permuted or multiplied bases

---
 tensap/approximation/bases/functional_bases.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 1739018..1e2b70d 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -173,9 +173,7 @@ class FunctionalBases:
             The bases obtained by the Kronecker product of two bases.
 
         """
-        out = deepcopy(self)
-        out.bases = [x.kron(y) for x, y in zip(self.bases, g.bases)]
-        return out
+        return FunctionalBases([x.kron(y) for x, y in zip(self.bases, g.bases)])
 
     def remove_bases(self, ind):
         """
@@ -193,7 +191,8 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = np.delete(self.bases, ind)
+        out.bases = np.delete(out.bases, ind)
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def keep_bases(self, ind):
@@ -212,7 +211,8 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = out.bases[ind]
+        out.bases = np.atleast_1d(out.bases[ind])
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def transpose(self, perm):
@@ -232,6 +232,7 @@ class FunctionalBases:
         """
         out = deepcopy(self)
         out.bases = out.bases[perm]
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def __eq__(self, bases_2):
-- 
2.43.0


From e444238237f5cbf0500b43d5d057b4aaf1bb7502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 079/123] fix: random evaluations of multivariate bases with
 their own product measure (was always refused), get_random_vector

---
 .../approximation/bases/functional_bases.py   | 30 +++++++++++--------
 .../approximation/bases/functional_basis.py   |  2 ++
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 1e2b70d..bcd67e8 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -398,20 +398,22 @@ class FunctionalBases:
             The input points, grouped by basis.
 
         """
-        if measure is not None:
-            assert isinstance(
-                measure, tensap.ProbabilityMeasure
-            ), "Must provide a ProbabilityMeasure."
-            x = measure.marginal(dims).random(int(n))
-            bases_eval, x = self.eval(x, dims, 2)
+        if measure is None:
+            measure = self.measure
+        if isinstance(measure, tensap.ProductMeasure):
+            measure = measure.random_vector()
+        assert isinstance(
+            measure, tensap.ProbabilityMeasure
+        ), "Must provide a ProbabilityMeasure."
+        x = measure.marginal(dims).random(int(n))
+        bases_eval, x = self.eval(x, dims, 2)
 
-            if len(bases_eval) == 1:
-                bases_eval = bases_eval[0]
+        if len(bases_eval) == 1:
+            bases_eval = bases_eval[0]
 
-            if nargout == 1:
-                return bases_eval
-            return bases_eval, x
-        return self.random_dims(dims, n, self.measure, nargout)
+        if nargout == 1:
+            return bases_eval
+        return bases_eval, x
 
     def get_random_vector(self):
         """
@@ -425,7 +427,9 @@ class FunctionalBases:
         """
         if isinstance(self.measure, tensap.RandomVector):
             measure = self.measure
-        elif isinstance(self.measure, tensap.ProbabilityMeasure):
+        elif isinstance(self.measure, tensap.ProductMeasure) and np.all(
+            [isinstance(x, tensap.ProbabilityMeasure) for x in self.measure.measures]
+        ):
             measure = self.measure.random_vector()
         else:
             measure = None
diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index ffeb0ff..6466abf 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -81,6 +81,8 @@ class FunctionalBasis:
         """
         if measure is None:
             measure = self.measure
+        if isinstance(measure, tensap.ProductMeasure):
+            measure = measure.random_vector()
         if not isinstance(measure, tensap.ProbabilityMeasure):
             raise ValueError("Must provide a ProbabilityMeasure.")
 
-- 
2.43.0


From 9f572a299b8c87ad2ae2243145b703833b7b9707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 080/123] fix: FullTensorProductFunctionalBasis: measure and
 orthonormality of the derived bases

---
 .../full_tensor_product_functional_basis.py     | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 41e62db..aa1892d 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -20,7 +20,6 @@ Module full_tensor_product_functional_basis.
 
 """
 
-from copy import deepcopy
 import numpy as np
 import tensap
 
@@ -95,9 +94,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         return self.bases.domain()
 
     def orthonormalize(self):
-        out = deepcopy(self)
-        out.bases = out.bases.orthonormalize()
-        return out
+        return FullTensorProductFunctionalBasis(self.bases.orthonormalize())
 
     def remove_bases(self, ind):
         """
@@ -114,9 +111,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
             The FullTensorProductFunctionalBasis with removed bases.
 
         """
-        out = deepcopy(self)
-        out.bases = out.bases.remove_bases(ind)
-        return out
+        return FullTensorProductFunctionalBasis(self.bases.remove_bases(ind))
 
     def keep_bases(self, ind):
         """
@@ -133,9 +128,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
             The FullTensorProductFunctionalBasis with kept bases.
 
         """
-        out = deepcopy(self)
-        out.bases = out.bases.keep_bases(ind)
-        return out
+        return FullTensorProductFunctionalBasis(self.bases.keep_bases(ind))
 
     def remove_mapping(self, ind):
         # TODO remove_mapping
@@ -160,9 +153,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
             The FullTensorProductFunctionalBasis with permuted bases.
 
         """
-        out = deepcopy(self)
-        out.bases = out.bases.transpose(perm)
-        return out
+        return FullTensorProductFunctionalBasis(self.bases.transpose(perm))
 
     def mean(self, *args):
         H = self.bases.mean(None, *args)
-- 
2.43.0


From 33f1a65eebc9694ea36118cc61b9da38887463c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 081/123] fix: FullTensorProductFunctionalBasis.mean: same
 ordering of the functions as eval

---
 .../approximation/bases/full_tensor_product_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index aa1892d..6fe9ef6 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -158,7 +158,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
     def mean(self, *args):
         H = self.bases.mean(None, *args)
         H = tensap.CanonicalTensor([np.reshape(x, [-1, 1]) for x in H], [1])
-        return np.ravel(H.full().numpy())
+        return np.ravel(H.full().numpy(), order="F")
 
     def conditional_expectation(self, dims, *args):
         ind = tensap.MultiIndices.bounded_by(self.bases.cardinals() - 1)
-- 
2.43.0


From 7bec11180ae77f59e6cc158a1bab4ae62f71053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 082/123] fix: conditional expectations: recognize numpy
 booleans

---
 tensap/approximation/bases/functional_basis_array.py            | 2 +-
 .../bases/sparse_tensor_product_functional_basis.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 020a930..09f2201 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -390,7 +390,7 @@ class FunctionalBasisArray(tensap.Function):
         v = np.zeros((np.shape(alpha)[0], np.prod(self.shape)))
         for i in range(np.shape(alpha)[0]):
             u = alpha[i, :]
-            if np.all([isinstance(x, bool) for x in u]):
+            if np.all([isinstance(x, (bool, np.bool_)) for x in u]):
                 u = np.nonzero(u)[0]
 
             if np.size(u) == 0:
diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 66bfa28..89971ba 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -174,7 +174,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
     def conditional_expectation(self, dims, *args):
         dims = np.atleast_1d(dims)
-        if np.all([isinstance(x, bool) for x in dims]):
+        if np.all([isinstance(x, (bool, np.bool_)) for x in dims]):
             dims = np.nonzero(dims)[0]
 
         dims_C = np.setdiff1d(range(self.ndim()), dims)
-- 
2.43.0


From 9eec789951abd29a3cb6387f0d0dd02e6f3c1034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 083/123] fix: SparseTensorProductFunctionalBasis: indices and
 measure of the kept, removed or permuted bases

---
 .../sparse_tensor_product_functional_basis.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 89971ba..68b74a5 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -115,9 +115,9 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
             The SparseTensorProductFunctionalBasis with removed bases.
 
         """
-        out = deepcopy(self)
-        out.bases = out.bases.remove_bases(ind)
-        return out
+        return SparseTensorProductFunctionalBasis(
+            self.bases.remove_bases(ind), self.indices.remove_dims(ind)
+        )
 
     def keep_bases(self, ind):
         """
@@ -134,9 +134,9 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
             The SparseTensorProductFunctionalBasis with kept bases.
 
         """
-        out = deepcopy(self)
-        out.bases = out.bases.keep_bases(ind)
-        return out
+        return SparseTensorProductFunctionalBasis(
+            self.bases.keep_bases(ind), self.indices.keep_dims(np.atleast_1d(ind))
+        )
 
     def remove_mapping(self, ind):
         # TODO remove_mapping
@@ -161,9 +161,10 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
             The SparseTensorProductFunctionalBasis with permuted bases.
 
         """
-        out = deepcopy(self)
-        out.bases = out.bases.transpose(perm)
-        return out
+        return SparseTensorProductFunctionalBasis(
+            self.bases.transpose(perm),
+            tensap.MultiIndices(self.indices.array[:, perm]),
+        )
 
     def mean(self, *args):
         M = self.bases.mean(None, *args)
-- 
2.43.0


From d88fe84815b0f97eedb154ccbde2d38c8d2b35cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 084/123] fix: FunctionalBasisArray: (conditional) expectations
 and projections for any shape and basis, with or without averaged variables

---
 .../bases/functional_basis_array.py           | 19 +++++++++++--------
 .../sparse_tensor_product_functional_basis.py |  2 +-
 .../bases/sub_functional_basis.py             |  4 ++--
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 09f2201..af31e85 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -204,7 +204,7 @@ class FunctionalBasisArray(tensap.Function):
             The expectation of the function.
 
         """
-        M = self.basis.mean(measure)
+        M = self.basis.mean() if measure is None else self.basis.mean(measure)
         M = np.tile(np.ravel(M), np.concatenate((self.shape, [1])))
         M = np.transpose(M, np.concatenate(([np.ndim(M) - 1], range(np.ndim(M) - 1))))
         return np.sum(self.data * M, 0, keepdims=True)
@@ -364,7 +364,9 @@ class FunctionalBasisArray(tensap.Function):
                 self.data, [self.basis.cardinal(), np.prod(self.shape)], order="F"
             ),
         )
-        f.data = np.reshape(f.data, (f.data.shape[0], f.shape), order="F")
+        f.data = np.reshape(
+            f.data, np.concatenate(([f.data.shape[0]], f.shape)), order="F"
+        )
         f.basis = h.basis
         return f
 
@@ -398,7 +400,7 @@ class FunctionalBasisArray(tensap.Function):
             else:
                 mi = self.conditional_expectation(u)
                 vi = mi.dot_product_expectation(mi) - m**2
-                v[i, :] = np.ravel(vi)
+                v[i, :] = np.ravel(vi, order="F")
 
         return np.reshape(
             v, np.concatenate(([np.shape(alpha)[0]], self.shape)), order="F"
@@ -408,7 +410,7 @@ class FunctionalBasisArray(tensap.Function):
         if np.ndim(x) == 1:
             x = np.expand_dims(x, 1)
         H = self.basis.eval(x, *args)
-        return self.eval_with_bases_evals(H, *args)
+        return self.eval_with_bases_evals(H)
 
     def eval_with_bases_evals(self, H):
         """
@@ -617,12 +619,13 @@ class FunctionalBasisArray(tensap.Function):
         ):
             d = np.zeros((basis.cardinal(), np.prod(self.shape)))
             _, ia, ib = self.basis.indices.intersect_indices(indices)
-            d[ib, :] = self.data[ia, :]
-            if np.ndim(self.data) != np.ndim(d):
-                d = np.reshape(d, [basis.cardinal(), self.shape], order="F")
+            d[ib, :] = np.reshape(self.data, (-1, d.shape[1]), order="F")[ia, :]
+            d = np.reshape(
+                d, np.concatenate(([basis.cardinal()], self.shape)), order="F"
+            )
 
             if isinstance(basis, tensap.FullTensorProductFunctionalBasis):
-                H = tensap.FullTensorProductIntegrationRule(basis.bases)
+                H = tensap.FullTensorProductFunctionalBasis(basis.bases)
             elif isinstance(basis, tensap.SparseTensorProductFunctionalBasis):
                 H = tensap.SparseTensorProductFunctionalBasis(basis.bases, indices)
             g = FunctionalBasisArray(d, H, self.shape)
diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 68b74a5..50b6b9d 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -206,7 +206,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
         else:
             h = tensap.FunctionalBasisArray(
-                np.eye(self.cardinal()), self, [self.cardinal(), 1]
+                np.eye(self.cardinal()), self, self.cardinal()
             )
         return h
 
diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 48c9669..e744308 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -183,8 +183,8 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
         out = np.einsum("ji,ajk->aik", self.basis, jac)
         return out
 
-    def mean(self):
-        return np.matmul(self.underlying_basis.mean(), self.basis)
+    def mean(self, *args):
+        return np.matmul(self.underlying_basis.mean(*args), self.basis)
 
     def gram_matrix(self):
         return self.basis.T @ self.underlying_basis.gram_matrix() @ self.basis
-- 
2.43.0


From 939aa765716f03e0e9219c718dc3f42cf7a68f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 085/123] fix: FunctionalBases: derivatives of bases of one
 variable given by an integer

---
 tensap/approximation/bases/functional_bases.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index bcd67e8..6a75b1b 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -328,6 +328,7 @@ class FunctionalBases:
             ind = np.atleast_1d(self.ndim())
             x = np.hsplit(x, np.cumsum(ind[dims])[:-1])
 
+        n = np.atleast_1d(n)
         assert len(n) == len(dims), "n and dims should have the same length"
         out = [y.eval_derivative(m, z) for y, m, z in zip(self.bases[dims], n, x)]
         if nargout == 1:
@@ -351,6 +352,7 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
+        n = np.atleast_1d(n)
         out.bases = np.array([x.derivative(m) for x, m in zip(self.bases, n)])
         return out
 
-- 
2.43.0


From a53e3e833ae44238a5ee6da4ad18c14364a65c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 086/123] fix: SubFunctionalBasis.derivative: the derivatives
 do not inherit the orthonormality of the functions

---
 tensap/approximation/bases/sub_functional_basis.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index e744308..12ac458 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -159,9 +159,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
             on itself.
 
         """
-        d_f = deepcopy(self)
-        d_f.underlying_basis = self.underlying_basis.derivative(n)
-        return d_f
+        return SubFunctionalBasis(self.underlying_basis.derivative(n), self.basis)
 
     def eval_jacobian(self, x):
         """
-- 
2.43.0


From f29a08722461ee455095d2544fadb65786e59207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 087/123] fix: projections on a functional basis accept the
 values of the function, and do not hide its errors

---
 tensap/approximation/bases/functional_basis.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index 6466abf..9f9727c 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -290,10 +290,7 @@ class FunctionalBasis:
 
         """
 
-        try:
-            y = fun(G.points)
-        except Exception:
-            pass
+        y = fun(G.points) if callable(fun) else np.asarray(fun)
 
         A = self.eval(G.points)
         W = diags(np.sqrt(G.weights))
@@ -328,10 +325,7 @@ class FunctionalBasis:
 
         A = self.eval(G.points)
         W = diags(G.weights)
-        try:
-            y = fun(G.points)
-        except Exception:
-            pass
+        y = fun(G.points) if callable(fun) else np.asarray(fun)
 
         u = np.matmul(np.transpose(A), W.dot(y))
 
-- 
2.43.0


From beb6eb4b0ce5d4a1956e6ef191d28ba57ddb4916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 088/123] fix: tensor_product_projection: integration rules
 with different numbers of points in each dimension

---
 .../approximation/bases/full_tensor_product_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 6fe9ef6..dd7c735 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -226,7 +226,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
         u = fun.eval_on_tensor_grid(I0.points)
         output = {"number_of_evaluations": u.storage()}
-        Hx = self.bases.eval(np.hstack(I0.points.grids))
+        Hx = self.bases.eval(I0.points.grids)
 
         Mx = [
             np.matmul(np.transpose(x), np.matmul(np.diag(y), x))
-- 
2.43.0


From e290e777fd9c0f8907a4787c11e60756eadaf4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 089/123] fix: tensor_product_interpolation: accept a tensor of
 evaluations

---
 .../bases/full_tensor_product_functional_basis.py         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index dd7c735..9d4365f 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -294,8 +294,12 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         # TODO Create an empty class Tensor for when using isinstance?
         elif isinstance(
             fun,
-            (tensap.FullTensor, tensap.CanonicalTensor, tensap.TreeBasedTensor),
-            tensap.DiagonalTensor,
+            (
+                tensap.FullTensor,
+                tensap.CanonicalTensor,
+                tensap.TreeBasedTensor,
+                tensap.DiagonalTensor,
+            ),
         ):
             y = fun
         else:
-- 
2.43.0


From aac1acb3712c6a83bdc12ac5e7e59fbf99cc2041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 090/123] fix: FunctionalTensor: sums, norms and inner
 products, gradients and evaluations on partial grids (all raised errors)

---
 .../approximation/bases/functional_bases.py   |  6 ++++--
 tensap/functions/functional_tensor.py         | 19 ++++++++-----------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 6a75b1b..8fdf587 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -458,7 +458,7 @@ class FunctionalBases:
             dims = range(len(self))
         return [x.one() for x in self.bases[dims]]
 
-    def gram_matrices(self, dims=None):
+    def gram_matrices(self, dims=None, *measure):
         """
         Return the gram matrices of each basis of self, or of a selection of
         them if dims is provided.
@@ -468,6 +468,8 @@ class FunctionalBases:
         dims : list or numpy.ndarray, optional
             The dimensions of the bases for which the gram matrix is computed.
             The default is None, indicating all the bases.
+        *measure : tensap.Measure, optional
+            The measure used for the computation of the gram matrices.
 
         Returns
         -------
@@ -477,7 +479,7 @@ class FunctionalBases:
         """
         if dims is None:
             dims = range(len(self))
-        return [x.gram_matrix() for x in self.bases[dims]]
+        return [x.gram_matrix(*measure) for x in self.bases[dims]]
 
     def storage(self):
         """
diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 8dc3c29..a0b7276 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -97,7 +97,7 @@ class FunctionalTensor(tensap.Function):
             self.measure = self.bases.measure
             self.dim = np.sum(self.bases.ndim())
 
-    def __plus__(self, y):
+    def __add__(self, y):
         if isinstance(y, FunctionalTensor) and self.bases == y.bases:
             tensor = self.tensor + y.tensor
         else:
@@ -242,7 +242,7 @@ class FunctionalTensor(tensap.Function):
                     + "order, must specify fdims."
                 )
         if self.bases == f_2.bases:
-            gram_matrix = self.bases.gram_matrix(fdims, *measure)
+            gram_matrix = self.bases.gram_matrices(fdims, *measure)
         else:
             raise NotImplementedError("Method not implemented.")
         tensor = self.tensor.tensor_matrix_product(gram_matrix, fdims)
@@ -269,7 +269,7 @@ class FunctionalTensor(tensap.Function):
 
         """
         if not self.evaluated_bases:
-            gram_matrix = self.bases.gram_matrix(range(self.tensor.order), *measure)
+            gram_matrix = self.bases.gram_matrices(range(self.tensor.order), *measure)
         else:
             gram_matrix = [np.eye(x.shape[1]) for x in self.bases]
         tensor = self.tensor.tensor_matrix_product(
@@ -750,13 +750,10 @@ class FunctionalTensor(tensap.Function):
         """
         g = []
         for ind in range(self.bases.length()):
-            n = self.length() * [0]
+            n = self.bases.length() * [0]
             n[ind] = 1
-            dHx = self.bases.eval_derivative(n, x)
-            y = self.eval_with_bases_evals(dHx)
-            g.append(y)
-        out = np.concatenate(g, axis=1)
-        return out
+            g.append(self.eval_derivative(n, x))
+        return np.stack(g, axis=1)
 
     def derivative(self, n):
         """
@@ -804,9 +801,9 @@ class FunctionalTensor(tensap.Function):
             out = self.tensor.tensor_matrix_product(H, dims)
         else:
             out = deepcopy(self)
-            out.tensor = self.tensor.tensor_matrix_product(H, dims)
+            out.tensor = self.tensor.tensor_matrix_product(H, self.fdims[dims])
             out.bases = out.bases.remove_bases(dims)
-            out.fdims = out.fdims[np.setdiff1d(np.range(np.size(out.fdims)), dims)]
+            out.fdims = np.delete(out.fdims, dims)
             if np.size(out.fdims) == 0:
                 out = out.tensor
         return out
-- 
2.43.0


From f66e082807c7569eb241d7d87eac3e1f64b2d4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 091/123] fix: PolynomialFunctionalBasis.kron: order the
 products as the Kronecker product of tensors, products of FunctionalTensor
 were wrong

---
 tensap/approximation/bases/polynomial_functional_basis.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 14b1b51..f5acc01 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -132,7 +132,6 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
                     (1, self.cardinal(), 1),
                 ),
                 (np.shape(x)[0], self.cardinal() * q.cardinal()),
-                order="F",
             )
 
         measure = b.measure
-- 
2.43.0


From 07efef06d3077b6caee3f62c9ff7c016656537a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 092/123] fix: FunctionalTensor.__mul__: products of
 vector-valued functions in tree-based format multiplied wrong components

---
 tensap/functions/functional_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index a0b7276..1ad8416 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -415,7 +415,7 @@ class FunctionalTensor(tensap.Function):
                     c = out.tensor.tensors[root - 1]
                     n = self.tensor.ranks[root - 1]
                     s = [":"] * c.order
-                    s[-1] = np.arange(n**2, step=n)
+                    s[-1] = np.arange(0, n**2, n + 1)
                     c = c.sub_tensor(*s)
                     out.tensor.tensors[root - 1] = c
                     out.tensor.ranks[root - 1] = n
@@ -884,7 +884,7 @@ class FunctionalTensor(tensap.Function):
                 bases_eval, fdims_eval
             )
             fdims_eval.sort()
-            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval[2:])
+            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval[1:])
             if out.tensor.shape[fdims_eval[0]] == 1:
                 out.tensor = out.tensor.squeeze(fdims_eval[0])
                 old_dims = np.delete(old_dims, fdims_eval[0])
-- 
2.43.0


From 35b996c8e62a7828ac5f343ea1178835ebd1b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 093/123] fix: evaluations of functional tensors in some of the
 variables, one-node trees

---
 tensap/functions/functional_tensor.py         | 10 +++++--
 .../tensors/tree_based_tensor.py              | 27 ++++++++++---------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 1ad8416..a8ebe78 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -306,7 +306,7 @@ class FunctionalTensor(tensap.Function):
 
         """
         dims = np.atleast_1d(dims)
-        if np.all([isinstance(x, bool) for x in dims]):
+        if np.all([isinstance(x, (bool, np.bool_)) for x in dims]):
             dims = np.nonzero(dims)[0]
 
         d = self.tensor.order
@@ -358,7 +358,7 @@ class FunctionalTensor(tensap.Function):
         v = np.zeros(alpha.shape[0])
         for i in range(alpha.shape[0]):
             u = alpha[i, :]
-            if np.all([isinstance(x, bool) for x in u]):
+            if np.all([isinstance(x, (bool, np.bool_)) for x in u]):
                 u = np.nonzero(u)[0]
             if u.size == 0:
                 v[i] = 0
@@ -884,6 +884,12 @@ class FunctionalTensor(tensap.Function):
                 bases_eval, fdims_eval
             )
             fdims_eval.sort()
+            if isinstance(out.tensor, tensap.FullTensor):
+                # The points are in the first dimension of the tensor, while
+                # they are expected in the first of the evaluated dimensions.
+                perm = np.arange(1, out.tensor.order)
+                perm = np.insert(perm, fdims_eval[0], 0)
+                out.tensor = out.tensor.transpose(perm)
             old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval[1:])
             if out.tensor.shape[fdims_eval[0]] == 1:
                 out.tensor = out.tensor.squeeze(fdims_eval[0])
diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 4bb334a..6d7417e 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1535,12 +1535,12 @@ class TreeBasedTensor:
             data = tensors[tree.root - 1]
         else:
             data = self.tensor_matrix_product(matrices, dims)
-            dims = np.atleast_1d(dims)
-            if np.all([self.shape[d] == 1 for d in dims]):
-                if dims.size > 1:
+            dims = np.sort(np.atleast_1d(dims))
+            if dims.size > 1:
+                if np.all([data.shape[d] == 1 for d in dims]):
                     data = data.squeeze(dims[1:]).full()
-            else:
-                raise NotImplementedError("Method not implemented.")
+                else:
+                    raise NotImplementedError("Method not implemented.")
         return data
 
     def squeeze(self, dims=None):
@@ -1884,9 +1884,10 @@ class TreeBasedTensor:
             if self.is_active_node[nod - 1]:
                 tmp = tensors2[nod - 1].tensor_matrix_product(out[nod - 1], 0)
                 out[nod - 1] = tensors1[nod - 1].tensordot(tmp, 0, 0)
-                out[nod - 1] = out[nod - 1].reshape(
-                    [tensors1[nod - 1].shape[-1], tensors2[nod - 1].shape[-1]]
-                )
+                if nod != tree.root or self.ranks[tree.root - 1] > 1:
+                    out[nod - 1] = out[nod - 1].reshape(
+                        [tensors1[nod - 1].shape[-1], tensors2[nod - 1].shape[-1]]
+                    )
                 out[nod - 1] = out[nod - 1].numpy()
 
         for level in np.arange(np.max(tree.level) - 1, -1, -1):
@@ -1908,10 +1909,7 @@ class TreeBasedTensor:
                         [tensors1[nod - 1].shape[-1], tensors2[nod - 1].shape[-1]]
                     )
                 out[nod - 1] = out[nod - 1].numpy()
-        out = out[nod_level - 1]
-        if out.size == 1:
-            out = out[0]
-        return out
+        return out[tree.root - 1]
 
     def tensordot_matrix_product_except_dim(self, tensor2, matrices, dim):
         """
@@ -2468,7 +2466,10 @@ class TreeBasedTensor:
                 self.shape[dim] = self.tensors[parent_nod - 1].shape[ind - 1]
             else:
                 self.shape[dim] = self.tensors[nod - 1].shape[0]
-                self.ranks[nod - 1] = self.tensors[nod - 1].shape[-1]
+                if nod != self.tree.root or self.tensors[nod - 1].order > 1:
+                    self.ranks[nod - 1] = self.tensors[nod - 1].shape[-1]
+                else:
+                    self.ranks[nod - 1] = 1
         return self
 
     @staticmethod
-- 
2.43.0


From cc2a332765fd5a0b6fc4c42c0a552a8bb5ee4506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 094/123] fix: least-squares learning: weights, l0
 regularization, shared coefficients, several outputs, Gram matrix of the
 correction, stopping of the path, unchanged training data

---
 .../linear_model_learning_square_loss.py      | 79 ++++++++++++++-----
 1 file changed, 58 insertions(+), 21 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index d5c355a..83989ce 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -20,7 +20,6 @@ Module linear_model_learning_square_loss.
 """
 
 import numpy as np
-from scipy.sparse import diags
 import tensap
 
 
@@ -86,8 +85,27 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         """
         self.initialize()
 
+        basis_eval, training_data = self.basis_eval, self.training_data
+        try:
+            return self._solve()
+        finally:
+            self.basis_eval, self.training_data = basis_eval, training_data
+
+    def _solve(self):
+        """
+        Solution of the least-squares problem once the evaluations of the
+        basis functions are known.
+
+        Returns
+        -------
+        numpy.ndarray or tensap.FunctionalBasisArray
+            The solution of the least-squares problem.
+        dict
+            Outputs of the algorithm.
+
+        """
         A = self.basis_eval
-        y = self.training_data[1]
+        y = np.array(self.training_data[1])
 
         if self.shared_coefficients:
             if np.ndim(A) == 3:
@@ -98,8 +116,6 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 A = np.transpose(A, [0, 2, 1])
                 A = np.reshape(A, [-1, A.shape[2]], order="F")
                 y = np.reshape(y, [-1, 1], order="F")
-                self.basis_eval = A
-                self.training_data[1] = y
         if np.ndim(y) == 2:
             n = y.shape[1]
         else:
@@ -108,9 +124,13 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         output = {}
 
         if self.weights is not None:
-            weights = diags(np.sqrt(self.weights))
-            A = np.matmul(weights, A)
-            y = np.matmul(weights, y)
+            weights = np.sqrt(np.ravel(self.weights))
+            weights = np.tile(weights, A.shape[0] // weights.size)
+            A = weights[:, np.newaxis] * A
+            y = np.reshape(weights, (-1,) + (1,) * (np.ndim(y) - 1)) * y
+
+        self.basis_eval = A
+        self.training_data = [self.training_data[0], y]
 
         if not self.basis_adaptation:
             if not self.regularization:
@@ -125,7 +145,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     for ind in range(n):
                         self.training_data[1] = y[:, ind]
                         sol[:, ind], output_tmp = self._solve_regularized_ls()
-                        output["error"][ind] = output_tmp["error"]
+                        output["error"][ind] = output_tmp.get("error", np.nan)
                         output["outputs"][ind] = output_tmp
         else:
             if n == 1:
@@ -142,17 +162,20 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         if self.test_error:
             if n == 1:
-                f_eval = np.matmul(self.basis_eval_test, sol)
+                if np.ndim(self.basis_eval_test) == 3:
+                    f_eval = np.tensordot(self.basis_eval_test, np.ravel(sol), (1, 0))
+                else:
+                    f_eval = np.matmul(self.basis_eval_test, sol)
                 output["test_error"] = self.loss_function.test_error(
                     f_eval, self.test_data
                 )
             else:
-                output["test_error"] = np.zeros([1, n])
+                output["test_error"] = np.zeros(n)
                 f_eval = np.matmul(self.basis_eval_test, sol)
                 for ind in range(n):
                     test_data = [self.test_data[0], self.test_data[1][:, ind]]
                     output["test_error"][ind] = self.loss_function.test_error(
-                        f_eval, test_data
+                        f_eval[:, ind], test_data
                     )
 
         if self.basis is not None:
@@ -238,9 +261,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         options = self.regularization_options
         if self.regularization_type == "l0":
-            options_loc = {i: output[i] for i in output if i != "alpha"}
+            options_loc = {i: options[i] for i in options if i != "alpha"}
             D = np.linalg.norm(A, axis=0)
-            A_omp = np.matmul(A, diags(1 / D))
+            A_omp = A / D
             solpath = linear_model.orthogonal_mp(
                 A_omp,
                 y,
@@ -249,8 +272,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 return_path=True,
                 **options_loc
             )
-            solpath = np.atleast_2d(solpath)
-            sol = np.matmul(diags(1 / D), solpath[:, -1])
+            solpath = np.reshape(solpath, (P, -1))
+            sol = solpath[:, -1] / D
         elif self.regularization_type == "l1":
             reg = linear_model.LassoLars(copy_X=True, fit_intercept=False, **options)
             reg.fit(A, y)
@@ -266,7 +289,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         if (self.model_selection and np.linalg.norm(
                 solpath) != 0) and solpath.shape[1] > 1:
             if "non_zero_blocks" in self.options:
-                rep = np.true(solpath.shape[1])
+                rep = np.full(solpath.shape[1], True)
                 rep = np.logical_and(rep, np.any(solpath, 0))
                 for block in self.options["non_zero_blocks"]:
                     rep = np.logical_and(rep, np.any(solpath[block, :], 0))
@@ -284,10 +307,15 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 error = np.mean(delta ** 2, 0) / second_moment
             else:
                 # if len(sol) > 1:
-                if np.all(sol != 0):
+                gram_matrix = self.error_estimation_options.get("gram_matrix")
+                if np.any(sol != 0) and not np.all(sol != 0):
                     ind = np.nonzero(sol)[0]
                     A_red = A[:, ind]
                     sol_ind = sol[ind]
+                    if gram_matrix is not None:
+                        self.error_estimation_options["gram_matrix"] = gram_matrix[
+                            np.ix_(ind, ind)
+                        ]
                 else:
                     # ind = 0
                     A_red = A
@@ -306,6 +334,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     error, delta = self._compute_cv_error(
                         y, second_moment, A_red, sol_ind, self.linear_solver, q_A, r_A
                     )
+                if gram_matrix is not None:
+                    self.error_estimation_options["gram_matrix"] = gram_matrix
             output["error"] = error
             output["delta"] = delta
 
@@ -408,7 +438,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
             A_red = A[:, ind]
             if "gram_matrix" in self.error_estimation_options:
-                self.error_estimation_options["gram_matrix"] = gram_matrix[ind, ind]
+                self.error_estimation_options["gram_matrix"] = gram_matrix[
+                    np.ix_(ind, ind)
+                ]
 
             if A_red.shape[1] > A_red.shape[0]:
                 self.linear_solver = "solve"
@@ -448,6 +480,10 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 print("stop_if_error_increase")
                 err[i + 1:] = np.inf
                 delta[:, i + 1:] = np.inf
+                break
+
+        if "gram_matrix" in self.error_estimation_options:
+            self.error_estimation_options["gram_matrix"] = gram_matrix
 
         ind = np.argmin(err)
 
@@ -570,7 +606,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 T = np.sum(q_A**2, 1)
 
             with np.errstate(divide="ignore", invalid="ignore"):
-                delta = (y - np.matmul(A, sol)) / (1 - np.reshape(T, y.shape))
+                T = np.reshape(T, (-1,) + (1,) * (np.ndim(y) - 1))
+                delta = (y - np.matmul(A, sol)) / (1 - T)
             delta = np.squeeze(delta)
             # Compute the absolute cross-validation error
             err = np.mean(delta**2, 0)
@@ -611,14 +648,14 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 )
                 # Compute the absolute cross-validation error for the current
                 # fold
-                errors.append(np.mean(delta_loc**2))
+                errors.append(np.mean(delta_loc**2, 0))
                 if n == 1:
                     delta[test] = delta_loc
                 else:
                     delta[test, :] = delta_loc
 
             # Average over the folds
-            err = np.mean(errors)
+            err = np.mean(errors, 0)
             delta = np.squeeze(delta)
         else:
             raise NotImplementedError(
-- 
2.43.0


From a018f01bd473caabd52d26323ab4c56e3d2a044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 095/123] fix: SquareLossFunction.eval: one loss per sample for
 vectors of values, column and vector of values are compared entry by entry

---
 tensap/approximation/learning/loss_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/loss_functions.py b/tensap/approximation/learning/loss_functions.py
index d1f1105..478d1b1 100644
--- a/tensap/approximation/learning/loss_functions.py
+++ b/tensap/approximation/learning/loss_functions.py
@@ -163,8 +163,10 @@ class SquareLossFunction(LossFunction):
             except Exception:
                 y_pred = fun
 
-        y_pred = np.atleast_2d(y_pred)
-        y_true = np.atleast_2d(sample[1])
+        y_true = np.asarray(sample[1])
+        y_true = np.reshape(y_true, (np.shape(y_true) or (1,))[:1] + (-1,))
+        if np.size(y_pred) == np.size(y_true):
+            y_pred = np.reshape(y_pred, y_true.shape)
         loss = np.sum((y_pred - y_true) ** 2, 1)
 
         if nargout == 1:
-- 
2.43.0


From 7d2bb09fb5f8ae42a9cefcb885a86f5b798de8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 096/123] fix: LinearModelLearningDensityL2: loss function,
 test error, included coefficients with a shift, stopping of the path

---
 .../learning/linear_model_learning_density_l2.py           | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 68a2af4..c683957 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -45,7 +45,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         None.
 
         """
-        super().__init__(tensap.SquareLossFunction())
+        super().__init__(tensap.DensityL2LossFunction())
 
         self.is_basis_orthonormal = True
 
@@ -74,7 +74,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         if self.test_error:
             f_eval = np.matmul(self.basis_eval_test, sol)
             output["test_error"] = self.loss_function.test_error(
-                f_eval, self.test_data, sol.norm() ** 2
+                f_eval, self.test_data, np.linalg.norm(sol)
             )
 
         if self.basis is not None:
@@ -188,7 +188,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
                     / (N * (N - 1) ** 2)
                     * np.sum(np.ravel(A_square_sum)[incl_coef])
                     - 2 / (N - 1) * np.sum(np.matmul(A, sol_incl_coef))
-                    + 2 * np.sum(sol_incl_coef * b_incl_coef)
+                    + 2 * np.sum(sol_incl_coef[incl_coef] * b_incl_coef)
                 )
 
         if list_sort.size == 0:
@@ -357,6 +357,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
             ):
                 print("stop_if_error_increase")
                 err[i + 1:] = np.inf
+                break
 
         ind = np.argmin(err)
 
-- 
2.43.0


From b00fb473a27b98f1ffd225c66b88447632f0d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 097/123] fix: ModelSelection: paths with ties, families whose
 best model is the simplest, spurious jumps due to rounding

---
 tensap/approximation/tools/model_selection.py | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/tensap/approximation/tools/model_selection.py b/tensap/approximation/tools/model_selection.py
index 9c05a7b..23507d1 100644
--- a/tensap/approximation/tools/model_selection.py
+++ b/tensap/approximation/tools/model_selection.py
@@ -98,32 +98,34 @@ class ModelSelection:
         m_path = []
         lambda_0 = 0
         lambda_current = 0
-        ind = np.argmin(risk)
+        # When several models minimize the penalized risk, the simplest one
+        # is selected.
+        ind = np.nonzero(risk == np.min(risk))[0]
+        pen = self.pen_shape(comp)
+        ind = ind_min = ind[np.argmin(pen[ind])]
         ok = True
 
         while ok:
             with np.errstate(all="ignore"):
-                lambda_current = (risk - risk[ind]) / (
-                    self.pen_shape(comp[ind]) - self.pen_shape(comp)
-                )
-                lambda_current[lambda_current <= lambda_0] = np.nan
-                lambda_current[lambda_current == np.inf] = np.nan
+                lambda_current = (risk - risk[ind]) / (pen[ind] - pen)
+                # Only simpler models can be selected for larger lambda
+                lambda_current[pen >= pen[ind]] = np.nan
 
             ok = not np.all(np.isnan(lambda_current))
             if ok:
                 lambda_0 = np.nanmin(lambda_current)
                 if not np.isnan(lambda_0):
-                    ind = np.nanargmin(lambda_current)
+                    ind = np.nonzero(lambda_current <= lambda_0 * (1 + 1e-12))[0]
+                    ind = ind[np.argmin(pen[ind])]
                     path.append(lambda_0)
                     m_path.append(ind)
 
         if path == []:
             path = 0
-            m_path = 0
+            m_path = ind_min
         else:
             path = np.atleast_1d(path)
             m_path = np.atleast_1d(m_path)
-            ind_min = np.argmin(risk)
             path = np.concatenate(([path[0] / 2], path, [path[-1] * 2]))
             m_path = np.concatenate(([ind_min], m_path, [m_path[-1]]))
         return np.array(path), np.array(m_path)
@@ -170,6 +172,10 @@ class ModelSelection:
 
         if lambda_path is None and m_path is None:
             lambda_path, m_path = self.lambda_path()
+        # If the model with the lowest risk is also the simplest one, it is
+        # selected for all the values of lambda
+        if np.ndim(lambda_path) == 0:
+            return 0, m_path, lambda_path, m_path
         l_mid = (lambda_path[:-1] + lambda_path[1:]) / 2
         gaps = comp[self.m_lambda(l_mid[:-1])] - comp[self.m_lambda(l_mid[1:])]
         ind = np.argmax(gaps)
-- 
2.43.0


From 2295564bb7aed3b170807395cd83819497e51b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 098/123] fix: CanonicalTensorLearning: exploration of
 truncated initializations, one by one factor updates, greedy algorithm
 (raised errors, modified the data), initial guess and options modified

---
 .../canonical_tensor_learning.py              | 151 +++++++++++-------
 1 file changed, 91 insertions(+), 60 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index da8472a..efb5d25 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -64,23 +64,6 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             print("tree_adaptation not defined for CanonicalTensorLearning.")
             self.tree_adaptation = False
 
-        if (
-            "one_by_one_factor" in self.alternating_minimization_parameters
-            and self.alternating_minimization_parameters["one_by_one_factor"]
-            and self.rank != 1
-        ):
-            self._exploration_strategy = np.arange(
-                1,
-                self.alternating_minimization_parameters["inner_loops"]
-                * self.rank
-                * self.order
-                + 2,
-            )
-            self._number_of_parameters = self._exploration_strategy.size
-        else:
-            self.alternating_minimization_parameters["one_by_one_factor"] = False
-            self._exploration_strategy = np.arange(1, self.order + 2)
-            self._number_of_parameters = self.order + 1
 
         shape = [x.shape[1] for x in self.bases_eval]
         if self.initialization_type == "random":
@@ -88,7 +71,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         elif self.initialization_type == "ones":
             f = tensap.CanonicalTensor.ones(self.rank, shape)
         elif self.initialization_type == "initial_guess":
-            f = self.initial_guess
+            f = deepcopy(self.initial_guess)
         elif (
             self.initialization_type == "mean"
             or self.initialization_type == "mean_randomized"
@@ -118,7 +101,10 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.algorithm = "greedy"
             s_ini.initialization_type = "mean"
             s_ini.alternating_minimization_parameters["display"] = False
-            s_ini.linear_model_learning.error_estimation = False
+            s_ini.model_selection = False
+            s_ini.error_estimation = False
+            for linear_solver in np.ravel(s_ini.linear_model_learning):
+                linear_solver.error_estimation = False
             s_ini.test_error = False
             s_ini.display = False
             f, output_ini = s_ini.solve()
@@ -143,11 +129,14 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.initialization_type = "greedy"
             s_ini.rank = self.rank - len(f.core.data)
             s_ini.alternating_minimization_parameters["display"] = False
-            s_ini.linear_model_learning.error_estimation = False
+            s_ini.model_selection = False
+            s_ini.error_estimation = False
+            for linear_solver in np.ravel(s_ini.linear_model_learning):
+                linear_solver.error_estimation = False
             s_ini.test_error = False
             s_ini.display = False
             if isinstance(s_ini.training_data, list) and len(s_ini.training_data) == 2:
-                s_ini.training_data[1] -= fx
+                s_ini.training_data[1] = s_ini.training_data[1] - fx
             elif isinstance(s_ini.loss_function, tensap.DensityL2LossFunction):
                 s_ini.training_data = [s_ini.training_data, fx]
 
@@ -163,6 +152,26 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 f = tr.truncate(f)
                 f = tensap.CanonicalTensor(f.space, f.core.data)
                 self.rank = len(f.core.data)
+
+        if (
+            "one_by_one_factor" in self.alternating_minimization_parameters
+            and self.alternating_minimization_parameters["one_by_one_factor"]
+            and self.rank != 1
+        ):
+            self._exploration_strategy = np.arange(
+                1,
+                self.alternating_minimization_parameters["inner_loops"]
+                * self.rank
+                * self.order
+                + 2,
+            )
+            self._number_of_parameters = self._exploration_strategy.size
+        else:
+            self.alternating_minimization_parameters = dict(
+                self.alternating_minimization_parameters, one_by_one_factor=False
+            )
+            self._exploration_strategy = np.arange(1, self.order + 2)
+            self._number_of_parameters = self.order + 1
         return self, f
 
     def pre_processing(self, f):
@@ -201,6 +210,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         ), "Method not implemented for this loss function."
         y = self.training_data[1]
         N = self.bases_eval[0].shape[0]
+        solver = self.linear_model_learning[mu - 1]
 
         if mu != self._number_of_parameters:
             if self.alternating_minimization_parameters["one_by_one_factor"]:
@@ -230,26 +240,24 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 A = self.bases_eval[mu - 1] * np.transpose(
                     np.tile(fH_mu[:, ind - 1], (f.tensor.shape[mu - 1], 1))
                 )
-                if self.linear_model_learning[mu - 1].basis_adaptation:
-                    self.linear_model_learning[mu - 1].basis_adaptation_path = (
-                        self.bases_adaptation_path[mu - 1]
-                    )
+                if solver.basis_adaptation:
+                    solver.basis_adaptation_path = self.bases_adaptation_path[mu - 1]
             else:
                 coef = f.tensor.space[mu - 1]
                 grad = f.parameter_gradient_eval(mu).transpose([0, 2, 1])
                 A = np.reshape(grad.data, [grad.shape[0], -1], order="F")
 
-                if self.linear_model_learning[mu - 1].basis_adaptation:
-                    self.linear_model_learning[mu - 1].basis_adaptation_path = np.tile(
+                if solver.basis_adaptation:
+                    solver.basis_adaptation_path = np.tile(
                         self.bases_adaptation_path[mu - 1], (self.rank, 1)
                     )
                 elif self.rank > 1:
-                    self.linear_model_learning[mu - 1].options["non_zero_blocks"] = (
-                        np.empty(self.rank, dtype=object)
+                    solver.options["non_zero_blocks"] = np.empty(
+                        self.rank, dtype=object
                     )
                     for kk in range(self.rank):
                         shape_mu = f.tensor.shape[mu - 1]
-                        self.linear_model_learning[mu - 1].options["non_zero_blocks"][
+                        solver.options["non_zero_blocks"][
                             kk
                         ] = kk * shape_mu + np.arange(shape_mu)
                 b = y
@@ -260,9 +268,9 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             grad = f.parameter_gradient_eval(mu)
             A = np.reshape(grad.data, [grad.shape[0], -1], order="F")
             b = y
-            self.linear_model_learning[mu - 1].basis_adaptation = False
+            solver.basis_adaptation = False
 
-        self.linear_model_learning[mu - 1].initial_guess = np.reshape(coef, -1)
+        solver.initial_guess = np.reshape(coef, -1)
 
         return self, A, b, f
 
@@ -278,7 +286,11 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 f.tensor.space[mu - 1] = coef
                 f.tensor.core.data = np.ravel(norm_coef)
 
-                if len(f.tensor.space) == 2 and mu == 1:
+                if (
+                    len(f.tensor.space) == 2
+                    and mu == 1
+                    and self.rank <= f.tensor.shape[0]
+                ):
                     f.tensor.space[0] = np.linalg.qr(f.tensor.space[0])[0]
             else:
                 ind = mu
@@ -354,6 +366,11 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         bases_eval = self.bases_eval
         output = {}
         output["sequence"] = np.empty(self.rank, dtype=object)
+        if self.test_error:
+            output["test_error_iterations"] = []
+
+        # The rank-one corrections have one parameter per dimension, and a core
+        self._number_of_parameters = self.order + 1
 
         # Replication of the LinearModelLearning objects
         if self.linear_model_learning_parameters[
@@ -384,20 +401,24 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         s_local = deepcopy(self)
         s_local.algorithm = "standard"
         s_local.rank = 1
+        s_local.rank_adaptation = False
         s_local.display = False
         s_local.test_error = False
         s_local.model_selection = False
 
         f = tensap.CanonicalTensor.zeros(0, [x.shape[1] for x in bases_eval])
         f_0 = deepcopy(f)
-        stagnation = np.zeros((1, self.rank))
+        stagnation = np.zeros(self.rank)
 
         ls_local = deepcopy(
             s_local.linear_model_learning[self._number_of_parameters - 1]
         )
 
+        if self.error_estimation:
+            ls_local.error_estimation = True
+
         is_error = False
-        error = np.ones((1, self.rank))
+        error = np.ones(self.rank)
         pure_greedy = False
         if not pure_greedy:
             for linear_solver in self.linear_model_learning:
@@ -434,19 +455,32 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 is_error = True
                 if self.alternating_minimization_parameters["display"]:
                     print(
-                        "Alternating minimization (greedy): rank = %i, "
-                        + "error = %2.5e, stagnation = %2.5e",
-                        current_rank,
-                        error[k - 1],
-                        stagnation[k - 1],
+                        (
+                            "Alternating minimization (greedy): rank = %i, "
+                            + "error = %2.5e, stagnation = %2.5e"
+                        )
+                        % (current_rank, error[k - 1], stagnation[k - 1])
                     )
             else:
                 if self.alternating_minimization_parameters["display"]:
                     print(
-                        "Alternating minimization (greedy): rank = %i, "
-                        + "stagnation = %2.5e",
-                        current_rank,
-                        stagnation[k - 1],
+                        (
+                            "Alternating minimization (greedy): rank = %i, "
+                            + "stagnation = %2.5e"
+                        )
+                        % (current_rank, stagnation[k - 1])
+                    )
+
+            if self.test_error:
+                f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
+                output["test_error"] = self.loss_function.test_error(
+                    f_eval_test, self.test_data
+                )
+                output["test_error_iterations"].append(output["test_error"])
+                if self.display:
+                    print(
+                        "Greedy: iteration %i, test error = %2.5e"
+                        % (k, output["test_error"])
                     )
 
             if (
@@ -461,28 +495,25 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 break
 
             f_0 = deepcopy(f)
-            if self.test_error:
-                f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
-                output["test_error"] = self.loss_function.test_error(
-                    f_eval_test, self.test_data
-                )
-                output["test_error_iterations"].append(output["test_error"])
-                if self.display:
-                    print(
-                        "Greedy: iteration %i, test error = %2.5e",
-                        k,
-                        output["test_error"],
-                    )
 
-        output["stagnation"] = stagnation[: k - 1]
+        output["sequence"] = output["sequence"][:k]
+        output["stagnation"] = stagnation[:k]
         if is_error:
-            output["errors"] = error[: k - 1]
+            output["errors"] = error[:k]
             K = np.argmin(output["errors"])
             f = output["sequence"][K]
             output["selected_iterate"] = K
             output["error"] = output["errors"][K]
+            if self.test_error:
+                output["test_error"] = output["test_error_iterations"][K]
 
+        bases = bases_eval
         if isinstance(self.bases, tensap.FunctionalBases):
-            f = tensap.FunctionalTensor(f, self.bases)
+            bases = self.bases
+        output["iterates"] = [
+            tensap.FunctionalTensor(deepcopy(x), bases) for x in output["sequence"]
+        ]
+        if is_error:
+            output["error_iterations"] = output["errors"]
 
-        return f, output
+        return tensap.FunctionalTensor(f, bases), output
-- 
2.43.0


From 559ad259a8df17932291116b89ed67394d8edd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 099/123] fix: TreeBasedTensorLearning: modified ranks, initial
 guesses and data of the user, initializations and random orders with inactive
 leaves, stale ranks in dmrg, aliased iterates, shifted densities

---
 .../tree_based_tensor_learning.py             | 78 +++++++++++--------
 1 file changed, 46 insertions(+), 32 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 36a9778..3cdc1e7 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -79,10 +79,16 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             self.tree is not None
         ), "Must provide a DimensionTree object in property tree."
 
+        if self.initialization_type == "initial_guess":
+            self.tree = self.initial_guess.tree
+            self.is_active_node = self.initial_guess.is_active_node
+
         if np.isscalar(self.rank) or len(self.rank) == self.order:
             rank = np.zeros(self.tree.nb_nodes, dtype=int)
             rank[self.is_active_node] = self.rank
             self.rank = rank
+        else:
+            self.rank = np.array(self.rank)
         self.rank[self.tree.root - 1] = self.output_dimension
 
         shape = [x.shape[1] for x in self.bases_eval]
@@ -95,7 +101,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 self.tree, self.rank, shape, self.is_active_node
             )
         elif self.initialization_type == "initial_guess":
-            f = self.initial_guess
+            f = deepcopy(self.initial_guess)
             if not np.all(f.ranks == self.rank):
                 tr = tensap.Truncator(tolerance=np.finfo(float).eps, max_rank=self.rank)
                 f = tr.truncate(f)
@@ -103,7 +109,9 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             self.initialization_type == "mean"
             or self.initialization_type == "mean_randomized"
         ):
-            if not np.all(self.rank == 1):
+            rank = np.array(self.rank)
+            rank[np.logical_not(self.is_active_node)] = 1
+            if not np.all(np.delete(rank, self.tree.root - 1) == 1):
                 raise NotImplementedError(
                     "Initialization only implemented " + "if np.all(self.rank == 1)."
                 )
@@ -118,12 +126,12 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if isinstance(self.bases, tensap.FunctionalBases):
                 means = self.bases.mean()
             else:
-                means = [np.mean(x) for x in self.bases_eval]
+                means = [np.mean(x, 0) for x in self.bases_eval]
             if self.initialization_type == "mean_randomized":
                 means = [x + 0.01 * np.random.randn(*x.shape) for x in means]
             means = [tensap.FullTensor(x, 2, [x.shape[0], 1]) for x in means]
 
-            f = tensap.TreeBasedTensor.ones(self.tree, self.rank, shape)
+            f = tensap.TreeBasedTensor.ones(self.tree, rank, shape)
             f.tensors[self.tree.dim2ind - 1] = means
             nb_child = len(self.tree.children(self.tree.root))
             if np.ndim(self.training_data[1]) == 2:
@@ -133,7 +141,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             else:
                 shape = np.full(nb_child, 1)
             f.tensors[self.tree.root - 1] = tensap.FullTensor(
-                np.mean(self.training_data[1]), shape=shape
+                np.mean(self.training_data[1], 0), shape=shape
             )
             f.update_attributes()
 
@@ -186,12 +194,13 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         return self, f
 
     def randomize_exploration_strategy(self):
-        strategy = np.zeros(self._number_of_parameters)
+        strategy = np.zeros(self._exploration_strategy.size, dtype=int)
         for level in np.arange(np.max(self.tree.level), -1, -1):
             active_nodes = np.intersect1d(
-                self.tree.nodes_with_level(level), np.nonzero(self.is_active_node)[0]
+                self.tree.nodes_with_level(level),
+                np.nonzero(self.is_active_node)[0] + 1,
             )
-            _, ind = np.intersect1d(
+            _, ind, _ = np.intersect1d(
                 self._exploration_strategy, active_nodes, return_indices=True
             )
             strategy[ind] = self._exploration_strategy[np.random.permutation(ind)]
@@ -240,22 +249,17 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 y = self.training_data[1]
                 if isinstance(y, tensap.FunctionalTensor):
                     y = y.tensor
-                y = y.orth()
-                if tree.is_leaf[mu - 1]:
-                    a = deepcopy(y)
-                    for nod in tree.internal_nodes:
-                        a.tensors[nod - 1] = tensap.FullTensor(
-                            y.tensors[nod - 1].data * f.tensor.tensors[nod - 1].data,
-                            shape=y.tensors[nod - 1].shape,
-                        )
-                    ind = np.setdiff1d(
-                        range(self.order), np.nonzero(tree.dim2ind == mu)[0]
+                # Inner products of y with the derivatives of f with respect
+                # to the entries of the parameter
+                f_mu = deepcopy(f.tensor)
+                f_mu.is_orth = False
+                shape = f.tensor.tensors[mu - 1].shape
+                b = np.zeros(np.prod(shape))
+                for ind, entry in enumerate(np.eye(b.size)):
+                    f_mu.tensors[mu - 1] = tensap.FullTensor(
+                        np.reshape(entry, shape, order="F")
                     )
-                    C = [x.data for x in f.tensor.tensors[tree.dim2ind - 1]]
-                    b = a.tensor_vector_product([C[x] for x in ind], ind)
-                    b = b.tensors[0].data
-                else:
-                    b = f.tensor.dot(y) / f.tensor.tensors[mu - 1].data
+                    b[ind] = f_mu.dot(y)
             else:
                 b = []
         elif isinstance(self.training_data, list) and len(self.training_data) == 2:
@@ -350,7 +354,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
 
         solver = deepcopy(self)
         if isinstance(solver.training_data, list) and len(solver.training_data) == 2:
-            solver.training_data[1] -= fx
+            solver.training_data[1] = solver.training_data[1] - fx
         elif isinstance(solver.loss_function, tensap.DensityL2LossFunction):
             solver.training_data = [solver.training_data, f]
 
@@ -393,7 +397,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         solver = deepcopy(self)
         solver.model_selection = False
         if isinstance(solver.training_data, list) and len(solver.training_data) == 2:
-            solver.training_data[1] -= fx
+            solver.training_data[1] = solver.training_data[1] - fx
         elif isinstance(solver.loss_function, tensap.DensityL2LossFunction):
             solver.training_data = [solver.training_data, f]
         solver.rank_adaptation = False
@@ -491,8 +495,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             s_local.display = False
             s_local.alternating_minimization_parameters["display"] = False
             tensor_for_selection = s_local.solve()[0].tensor
+            rank_for_selection = s_local.rank
         else:
             tensor_for_selection = f.tensor
+            rank_for_selection = f.tensor.ranks
 
         sin_val = tensor_for_selection.singular_values()
 
@@ -505,7 +511,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         dim2ind = np.intersect1d(f.tensor.tree.dim2ind, f.tensor.active_nodes)
         ind = [len(set(x.size)) == 1 for x in f.tensor.tensors[dim2ind - 1]]
         sin_val[dim2ind[ind] - 1] = np.nan
-        sin_val[s_local.rank != tensor_for_selection.ranks] = np.nan
+        sin_val[rank_for_selection != tensor_for_selection.ranks] = np.nan
 
         sin_val_min = np.array([np.min(x) for x in sin_val])
         sin_val_min[
@@ -652,6 +658,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
 
     # %% Inner rank adaptation solver
     def _solve_dmrg_rank_adaptation(self):
+        if np.count_nonzero(self.is_active_node) == 1:
+            # Only the root is active: no rank to adapt
+            return self._solve_standard()
+
         if "max_rank" not in self.rank_adaptation_options:
             self.rank_adaptation_options["max_rank"] = 100
         if "post_alternating_minimization" not in self.rank_adaptation_options:
@@ -952,6 +962,8 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 f.tensor.tensors[gamma - 1] = tensap.FullTensor(
                     a_gamma, np.size(sz_2), sz_2
                 )
+                f.tensor.is_orth = False
+                f.tensor = f.tensor.update_attributes()
 
             if self.rank_adaptation_options["post_alternating_minimization"]:
                 print("\t\tPost alternating minimization.")
@@ -993,13 +1005,15 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(deepcopy(f.tensor), self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
+                    output["iterates"].append(
+                        tensap.FunctionalTensor(deepcopy(f.tensor), f.bases)
+                    )
 
             if "error" in output_tmp:
-                output["error"] = output_tmp["error"]
+                output["error"] = self._total_error(output_tmp["error"])
                 output["error_iterations"].append(output["error"])
 
             if self.test_error:
@@ -1240,7 +1254,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         """
         f.is_orth = False
         tree = f.tree
-        enriched_dims = np.nonzero(new_rank > f.ranks)[0]
+        enriched_dims = np.nonzero(new_rank > f.ranks)[0] + 1
 
         for level in np.arange(1, np.max(tree.level) + 1):
             nod_lvl = np.intersect1d(tree.nodes_with_level(level), enriched_dims)
@@ -1258,7 +1272,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                         * (1 + np.random.randn(A.shape[0], rank)),
                     )
                 )
-                A[:, -1 - rank - 1:] /= np.sqrt(np.sum(A[:, -1 - rank - 1:] ** 2, 0))
+                A[:, -rank:] /= np.sqrt(np.sum(A[:, -rank:] ** 2, 0))
                 shape = np.array(f.tensors[alpha - 1].shape)
                 shape[-1] += rank
                 f.tensors[alpha - 1].data = np.reshape(A, shape, order="F")
@@ -1274,7 +1288,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                         * (1 + np.random.randn(A.shape[0], rank)),
                     )
                 )
-                A[:, -1 - rank - 1:] /= np.sqrt(np.sum(A[:, -1 - rank - 1:] ** 2, 0))
+                A[:, -rank:] /= np.sqrt(np.sum(A[:, -rank:] ** 2, 0))
                 shape = np.array(f.tensors[gamma - 1].shape)
                 shape[ch] += rank
                 A = np.reshape(A, shape[ind], order="F")
-- 
2.43.0


From 996f7c30d095e0ecf5d992031d758e23a0060415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 100/123] fix: TensorLearning.solve: modified the solver
 (options, linear models), aliased iterates, column outputs, errors for
 several outputs

---
 .../tensor_learning/tensor_learning.py        | 43 ++++++++++++++++---
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index bd6fbb0..f4c3fea 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -20,7 +20,7 @@ Module tensor_learning.
 """
 
 from abc import abstractmethod
-from copy import deepcopy
+from copy import copy, deepcopy
 import pprint
 import numpy as np
 import tensap
@@ -167,6 +167,11 @@ class TensorLearning(tensap.Learning):
             The outputs of the solver.
 
         """
+        # The resolution modifies some attributes, work on a copy
+        self = copy(self)
+        self.linear_model_learning = deepcopy(self.linear_model_learning)
+        self.rank_adaptation_options = dict(self.rank_adaptation_options)
+
         # If possible, deduce from training_data the output dimension
         if (
             isinstance(self.training_data, list)
@@ -174,6 +179,11 @@ class TensorLearning(tensap.Learning):
             and np.ndim(self.training_data[1]) == 2
         ):
             self.output_dimension = self.training_data[1].shape[1]
+            if self.output_dimension == 1:
+                self.training_data = [
+                    self.training_data[0],
+                    np.ravel(self.training_data[1]),
+                ]
         if self.output_dimension > 1 and (
             not isinstance(self, tensap.TreeBasedTensorLearning)
             or not isinstance(
@@ -190,7 +200,8 @@ class TensorLearning(tensap.Learning):
         if (
             self.output_dimension > 1
             and "type" in self.rank_adaptation_options
-            and self.rank_adaptation_options["type"] == "inner"
+            and self.rank_adaptation_options["type"]
+            in ("inner", "dmrg", "dmrg_low_rank")
         ):
             print(
                 "Inner rank adaptation not implemented for "
@@ -470,13 +481,15 @@ class TensorLearning(tensap.Learning):
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(deepcopy(f.tensor), self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
+                    output["iterates"].append(
+                        tensap.FunctionalTensor(deepcopy(f.tensor), f.bases)
+                    )
 
             if "error" in output_tmp:
-                output["error"] = output_tmp["error"]
+                output["error"] = self._total_error(output_tmp["error"])
                 output["error_iterations"].append(output["error"])
 
             if self.test_error:
@@ -539,6 +552,26 @@ class TensorLearning(tensap.Learning):
 
         return f, output
 
+    def _total_error(self, error):
+        """
+        Combine the relative errors of several outputs into a single one.
+
+        Parameters
+        ----------
+        error : float or numpy.ndarray
+            The relative error of each output (ratios of second moments).
+
+        Returns
+        -------
+        float
+            The relative error for all the outputs.
+
+        """
+        if np.size(error) <= 1:
+            return error
+        second_moment = np.mean(np.asarray(self.training_data[1]) ** 2, 0)
+        return np.sum(error * second_moment) / np.sum(second_moment)
+
     def _solve_adaptation(self):
         """
         Solver for the learning problem with tensor formats using the adaptive
-- 
2.43.0


From 3a507f1d8113c7ca1d079eb71065a8c1edd029e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:37 +0000
Subject: [PATCH 101/123] fix: TensorPrincipalComponentAnalysis: samples
 returned with permuted dimensions (and only the last ones with adaptive
 sampling), tolerance given as a list of one value

---
 .../tensor_principal_component_analysis.py    | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
index 8393e4f..817a400 100644
--- a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
+++ b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
@@ -147,22 +147,25 @@ class TensorPrincipalComponentAnalysis:
             A = tensap.FullTensor(
                 np.zeros((I_alpha.shape[0], 0)), 2, [I_alpha.shape[0], 0]
             )
+            samples = []
             for k in range(N):
                 product_grid = tensap.FullTensorGrid(
                     [I_alpha, np.reshape(I_not_alpha[k, :], (1, -1))]
                 ).array()
+                samples.append(product_grid[:, ind])
 
-                A_k = np.linalg.solve(B_alpha, fun(product_grid[:, ind]))
+                A_k = np.linalg.solve(B_alpha, fun(samples[-1]))
                 A.data = np.column_stack((A.data, A_k))
                 pc, sin_val = A.principal_components(tol)
                 if sin_val[-1, -1] < 1e-15 or pc.shape[1] < np.ceil(
                     (k + 1) / self.pca_sampling_factor
                 ):
                     break
+            samples = np.concatenate(samples)
             output["number_of_evaluations"] = I_alpha.shape[0] * (k + 1)
         else:
-            product_grid = tensap.FullTensorGrid([I_alpha, I_not_alpha]).array()
-            A = fun(product_grid[:, ind])
+            samples = tensap.FullTensorGrid([I_alpha, I_not_alpha]).array()[:, ind]
+            A = fun(samples)
             A = np.reshape(A, [B_alpha.shape[0], N], "F")
             A = np.linalg.solve(B_alpha, A)
             A = tensap.FullTensor(A, 2, [B_alpha.shape[0], N])
@@ -170,7 +173,7 @@ class TensorPrincipalComponentAnalysis:
             output["number_of_evaluations"] = I_alpha.shape[0] * N
 
         output["singular_values"] = sin_val
-        output["samples"] = product_grid
+        output["samples"] = samples
         return pc, output
 
     def hopca(self, fun, shape):
@@ -401,11 +404,12 @@ class TensorPrincipalComponentAnalysis:
         if is_active_node is None:
             is_active_node = np.full(tree.nb_nodes, True)
 
-        if (np.ndim(self.tol) == 0 or len(self.tol) == 1) and self.tol < 1:
-            solver.tol /= np.sqrt(np.count_nonzero(is_active_node) - 1)
-
         if np.ndim(self.tol) == 0 or len(self.tol) == 1:
-            solver.tol = np.full(tree.nb_nodes, solver.tol)
+            tol = np.ravel(self.tol)[0]
+            nb_active_edges = np.count_nonzero(is_active_node) - 1
+            if tol < 1 and nb_active_edges > 0:
+                tol = tol / np.sqrt(nb_active_edges)
+            solver.tol = np.full(tree.nb_nodes, tol)
         elif len(self.tol) != tree.nb_nodes:
             raise ValueError(
                 "tol should be a scalar or an array of length " + "tree.nb_nodes."
@@ -522,12 +526,14 @@ class TensorPrincipalComponentAnalysis:
         I_alpha = tensap.FullTensorGrid(alpha_grids[S_alpha - 1]).array()
         shape_alpha = [x.shape[1] for x in alpha_basis[S_alpha - 1]]
         ind = [np.nonzero(tree.dims[alpha - 1] == x)[0][0] for x in range(d)]
+        samples[alpha - 1] = I_alpha[:, ind]
         tensors[alpha - 1] = tensap.FullTensor(
-            np.linalg.solve(B_alpha, fun(I_alpha[:, ind])), len(S_alpha), shape_alpha
+            np.linalg.solve(B_alpha, fun(samples[alpha - 1])),
+            len(S_alpha),
+            shape_alpha,
         )
         alpha_grids[alpha - 1] = I_alpha
         number_of_evaluations += I_alpha.shape[0]
-        samples[alpha - 1] = I_alpha
         if solver.display:
             print("Interpolation - nb_eval = %i" % I_alpha.shape[0])
 
-- 
2.43.0


From a98e55d71b2345684c94c598380cdf9868c89106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 102/123] fix: TensorLearning.solve: iterates of the tree
 adaptation did not correspond to the recorded test errors

---
 .../tensor_learning/tensor_learning.py                     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index f4c3fea..cebe118 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -717,6 +717,13 @@ class TensorLearning(tensap.Learning):
                             "\t\tStorage complexity after permutation "
                             + "= %i" % f.tensor.storage()
                         )
+                    if self.store_iterates:
+                        if isinstance(self.bases, tensap.FunctionalBases):
+                            iterates[iteration] = tensap.FunctionalTensor(
+                                f.tensor, self.bases
+                            )
+                        else:
+                            iterates[iteration] = f
                     if self.test_error:
                         f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
                         test_errors[iteration] = self.loss_function.test_error(
-- 
2.43.0


From 39afcf892e3d03b23bc362ce6e2e64d6140494f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 103/123] fix: Function: stored evaluations (tuples returned by
 calls, permuted outputs, aliased points), partial evaluation without measure
 or with several outputs, random evaluations with a given measure

---
 tensap/functions/function.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index cd7bcda..de3179f 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -66,18 +66,15 @@ class Function:
             x = np.expand_dims(x, 1)
 
         if self.store:
-            y = self.store_eval(x)
-            if np.ndim(y) == 2 and np.shape(y)[1] == 1:
-                y = np.squeeze(y, axis=1)
-            return y
+            y, f = self.store_eval(x)
         else:
             y = self.eval(x)
-            if np.ndim(y) == 2 and np.shape(y)[1] == 1:
-                y = np.squeeze(y, axis=1)
             f = self
-            if return_f:
-                return y, f
-            return y
+        if np.ndim(y) == 2 and np.shape(y)[1] == 1:
+            y = np.squeeze(y, axis=1)
+        if return_f:
+            return y, f
+        return y
 
     def store_eval(self, x):
         """
@@ -107,7 +104,7 @@ class Function:
 
             if np.prod(self.output_shape) != 1:
                 self._y_stored = np.reshape(
-                    self._y_stored, (self._y_stored.shape[0], -1), order="F"
+                    self._y_stored, (self._y_stored.shape[0], -1)
                 )
 
             y = np.zeros((x.shape[0], self._y_stored.shape[1]))
@@ -126,7 +123,6 @@ class Function:
             y = np.reshape(
                 y,
                 np.concatenate(([y.shape[0]], np.atleast_1d(self.output_shape))),
-                order="F",
             )
             if np.prod(self.output_shape) != 1:
                 self._y_stored = np.reshape(
@@ -134,7 +130,6 @@ class Function:
                     np.concatenate(
                         ([self._y_stored.shape[0]], np.atleast_1d(self.output_shape))
                     ),
-                    order="F",
                 )
         else:
             y = self.eval(x)
@@ -142,10 +137,12 @@ class Function:
                 y = np.reshape(y, [np.size(y), 1])
 
             self.store = True
-            self._x_stored = x
-            self._y_stored = y
+            self._x_stored = np.array(x)
+            self._y_stored = np.array(y)
 
-        return np.squeeze(y), self
+        if np.ndim(y) == 2 and np.shape(y)[1] == 1:
+            y = np.squeeze(y, axis=1)
+        return y, self
 
     def fplot(self, support=None, n_points=100, *args, **kwargs):
         """
@@ -269,10 +266,11 @@ class Function:
             grid = tensap.FullTensorGrid([x_alpha, x_not_alpha])
             return self.eval(grid.array()[:, ind])
 
-        f_alpha = tensap.UserDefinedFunction(fun, alpha.size)
+        f_alpha = tensap.UserDefinedFunction(fun, alpha.size, self.output_shape)
         f_alpha.store = self.store
         f_alpha.evaluation_at_multiple_points = self.evaluation_at_multiple_points
-        f_alpha.measure = self.measure.marginal(alpha)
+        if self.measure is not None:
+            f_alpha.measure = self.measure.marginal(alpha)
 
         return f_alpha
 
@@ -307,7 +305,7 @@ class Function:
                 measure = self.measure
             else:
                 raise ValueError("Must provide a ProbabilityMeasure.")
-        elif not isinstance(self.measure, tensap.ProbabilityMeasure):
+        elif not isinstance(measure, tensap.ProbabilityMeasure):
             raise ValueError("Must provide a ProbabilityMeasure.")
 
         x = measure.random(n)
-- 
2.43.0


From 521ed460c47fe156e192a7677390781c5a0f4d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 104/123] fix: CompositionalModelFunction: nodes given by
 Function objects

---
 tensap/functions/compositional_model_function.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/compositional_model_function.py b/tensap/functions/compositional_model_function.py
index 93bd3c8..8f0c485 100644
--- a/tensap/functions/compositional_model_function.py
+++ b/tensap/functions/compositional_model_function.py
@@ -99,6 +99,10 @@ class CompositionalModelFunction(tensap.Function):
             nodes = tree.nodes_with_level(level)
             for nod in tensap.fast_setdiff(nodes, tree.dim2ind):
                 ch = tree.children(nod)
-                z[nod - 1] = self.fun[nod - 1](*z[ch - 1])
+                fun = self.fun[nod - 1]
+                if isinstance(fun, tensap.Function):
+                    z[nod - 1] = fun(np.stack(list(z[ch - 1]), axis=1))
+                else:
+                    z[nod - 1] = fun(*z[ch - 1])
 
         return z[tree.root - 1]
-- 
2.43.0


From 99f84280bc593028deb039effa1259785681d3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 105/123] fix: multivariate_functions_benchmark: Genz functions
 (raised errors, several values per point), name of sin_of_a_sum

---
 .../multivariate_functions_benchmark.py       | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/tensap/functions/multivariate_functions_benchmark.py b/tensap/functions/multivariate_functions_benchmark.py
index 2cacad7..c590b16 100644
--- a/tensap/functions/multivariate_functions_benchmark.py
+++ b/tensap/functions/multivariate_functions_benchmark.py
@@ -110,7 +110,7 @@ def multivariate_functions_benchmark(case, *args):
                 + b * x[:, 2] ** 4 * np.sin(x[:, 0])
             )
 
-    elif case == "sin_of_asum":
+    elif case in ("sin_of_a_sum", "sin_of_asum"):
         if len(args) == 0:
             d = 3
         else:
@@ -237,13 +237,13 @@ def multivariate_functions_benchmark(case, *args):
         if case == "oscillatory":
 
             def fun(x):
-                return np.cos(w[0] * 2 * np.pi + np.matmul(x, np.transpose(c)))
+                return np.cos(w[0, 0] * 2 * np.pi + np.matmul(x, c[0]))
 
         elif case == "product_peak":
 
             def fun(x):
                 return 1 / np.prod(
-                    np.tile(x ** (-2), (np.shape(x)[0], 1))
+                    np.tile(c ** (-2), (np.shape(x)[0], 1))
                     + (x + np.tile(w, (np.shape(x)[0], 1))) ** 2,
                     1,
                 )
@@ -254,26 +254,20 @@ def multivariate_functions_benchmark(case, *args):
             c = c * b / d**e / np.sum(c)
 
             def fun(x):
-                return (1 + np.matmul(x, np.transpose(c))) ** (-d - 1)
+                return (1 + np.matmul(x, c[0])) ** (-d - 1)
 
         elif case == "gaussian":
 
             def fun(x):
-                return np.matmul(
-                    np.exp(
-                        -((x - np.tile(w, (np.shape(x)[0], 1))) ** 2),
-                        np.transpose(c) ** 2,
-                    )
+                return np.exp(
+                    -np.matmul((x - np.tile(w, (np.shape(x)[0], 1))) ** 2, c[0] ** 2)
                 )
 
         elif case == "continuous":
 
             def fun(x):
-                return np.matmul(
-                    np.exp(
-                        -np.abs(x - np.tile(w, (np.shape(x)[0], 1))),
-                        np.transpose(c) ** 2,
-                    )
+                return np.exp(
+                    -np.matmul(np.abs(x - np.tile(w, (np.shape(x)[0], 1))), c[0] ** 2)
                 )
 
         elif case == "discontinuous":
-- 
2.43.0


From cb031982da7820add4cd15d412f9af5a2a0908f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 106/123] fix: TreeBasedTensor.eval_diag_below ignored the
 inactive children of the root

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 6d7417e..e98250a 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2100,7 +2100,7 @@ class TreeBasedTensor:
                         tmp = tmp.outer_product_eval_diag(
                             diag_below[active_ch[child] - 1], 0, 0
                         )
-                    if inactive_ch.size != 0 and nod != tree.root:
+                    if inactive_ch.size != 0 and nod != alpha:
                         diag_below[nod - 1] = diag_below[nod - 1].tensordot_eval_diag(
                             tmp,
                             tree.child_number(active_ch) - 1,
@@ -2117,7 +2117,11 @@ class TreeBasedTensor:
                 else:
                     ch_nb = tree.child_number(inactive_ch) - 1
                     if np.size(inactive_ch) > 1:
-                        diag_below[nod - 1] = diag_below[nod - 1].eval_diag(ch_nb)
+                        tmp = diag_below[nod - 1].eval_diag(ch_nb)
+                        if not isinstance(tmp, tensap.FullTensor):
+                            # All the dimensions of the root are evaluated
+                            tmp = tensap.FullTensor(tmp)
+                        diag_below[nod - 1] = tmp
                     perm = np.concatenate(
                         (
                             [ch_nb[0]],
-- 
2.43.0


From 400d7ef5c66b40ad702a01e311406734a03e766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 107/123] fix: sub_tensor of tree-based tensors of order one
 used the list of indices as indices of several dimensions, and
 eval_at_indices failed

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index e98250a..e325b74 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -676,7 +676,7 @@ class TreeBasedTensor:
 
         """
 
-        if isinstance(indices, tuple) and len(indices) == 1:
+        if isinstance(indices, tuple) and len(indices) == 1 and self.order > 1:
             indices = indices[0]
 
         assert len(indices) == self.order, "Wrong number of input arguments."
-- 
2.43.0


From e8fe36a3489e7412f84ed3acdfe40382a0aef680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 108/123] fix: reduce_sum and reduce_mean of full tensors
 failed with dimensions given by a list or an array

---
 tensap/tensor_algebra/tensors/full_tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index bf608a0..df0bb4e 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -614,6 +614,8 @@ class FullTensor:
             The reduced tensor.
 
         """
+        if dims is not None:
+            dims = tuple(np.ravel(dims).tolist())
         return FullTensor(np.sum(self.data, dims, keepdims=True))
 
     def reduce_mean(self, dims=None):
@@ -634,6 +636,8 @@ class FullTensor:
             The reduced tensor.
 
         """
+        if dims is not None:
+            dims = tuple(np.ravel(dims).tolist())
         return FullTensor(np.mean(self.data, dims, keepdims=True))
 
     def kron(self, tensor2):
-- 
2.43.0


From 78b80981141b69db9e634bc5d323e029ac1e3d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:55 +0000
Subject: [PATCH 109/123] fix: the sum of tree-based tensors whose tree has a
 single node failed

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index e325b74..dc6c207 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -270,7 +270,9 @@ class TreeBasedTensor:
         tensors = np.array(self.tensors)
 
         for nod in np.arange(1, tree.nb_nodes + 1):
-            if tree.is_leaf[nod - 1] and self.is_active_node[nod - 1]:
+            if tree.is_leaf[nod - 1] and nod == tree.root:
+                tensors[nod - 1] = tensors[nod - 1] + arg.tensors[nod - 1]
+            elif tree.is_leaf[nod - 1] and self.is_active_node[nod - 1]:
                 tensors[nod - 1] = tensors[nod - 1].cat(arg.tensors[nod - 1], 1)
             elif not tree.is_leaf[nod - 1]:
                 children = tree.children(nod)
-- 
2.43.0


From f9d3f2e74e31e599e00a551d188bb5708dc0968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 110/123] fix: full of tree-based tensors of order one with
 several nodes returned the tensor of the root

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index dc6c207..d5e6c91 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -525,7 +525,7 @@ class TreeBasedTensor:
         """
 
         tree = self.tree
-        if self.order == 1:
+        if tree.nb_nodes == 1:
             a = self.tensors[tree.root - 1]
             if a.order == 2 and a.shape[1] == 1:
                 a = a.squeeze(1)
-- 
2.43.0


From ddd49d8d9f2939dc9df29872a852e473043bce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:33 +0000
Subject: [PATCH 111/123] fix: sub_tensor of tree-based tensors whose tree has
 a single node failed with a slice

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index d5e6c91..78b2cc7 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -692,6 +692,8 @@ class TreeBasedTensor:
                 tensors[parent - 1] = tensors[parent - 1].eval_at_indices(
                     indices[dim], child_nb - 1
                 )
+            elif tensors[nod - 1].order == 1:
+                tensors[nod - 1] = tensors[nod - 1].sub_tensor(indices[dim])
             else:
                 tensors[nod - 1] = tensors[nod - 1].eval_at_indices(indices[dim], 0)
         return TreeBasedTensor(tensors, tree)
-- 
2.43.0


From 1062e233a13a94ac640b721daae084321ca2e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:33 +0000
Subject: [PATCH 112/123] fix: remove_unique_children failed when the tree has
 a single node

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 78b2cc7..1473c82 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1626,6 +1626,8 @@ class TreeBasedTensor:
         """
         tree = self.tree
         tensors = np.array(self.tensors)
+        if tree.nb_nodes == 1:
+            return TreeBasedTensor(tensors, tree)
         nb_children = np.count_nonzero(tree._children, 0)
         unique_children = tree._children[0, (nb_children == 1)]
         adj = np.copy(tree.adjacency_matrix)
-- 
2.43.0


From da7b26c5d1d954020f8e857fc21a7924d57832d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:34 +0000
Subject: [PATCH 113/123] fix: inner products, Kronecker and entrywise products
 and concatenations of tree-based tensors with different active nodes failed
 or were wrong; different trees or shapes were accepted

---
 .../tensors/tree_based_tensor.py              | 42 ++++++++++++++++---
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 1473c82..302245d 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -259,12 +259,7 @@ class TreeBasedTensor:
                 "Addition only implemented for two TreeBasedTensor."
             )
 
-        if not np.all(self.is_active_node == arg.is_active_node):
-            self = self.activate_nodes(arg.active_nodes)
-            arg = arg.activate_nodes(self.active_nodes)
-
-        if not self.tree == arg.tree:
-            raise ValueError("Both tensors should have the same tree.")
+        self, arg = self._with_same_active_nodes(arg)
 
         tree = self.tree
         tensors = np.array(self.tensors)
@@ -319,6 +314,8 @@ class TreeBasedTensor:
             tensor = copy.deepcopy(self)
             tensor.tensors[tensor.tree.root - 1] *= arg
         elif isinstance(arg, tensap.TreeBasedTensor):
+            if not np.array_equal(self.shape, arg.shape):
+                raise ValueError("Both tensors should have the same shape.")
             tensor = self.kron(arg)
             I0 = [np.arange(0, n**2, n + 1) for n in self.shape]
             tensor = tensor.sub_tensor(*I0)
@@ -1294,6 +1291,36 @@ class TreeBasedTensor:
             newtree = tensap.DimensionTree(dim2ind, adj)
             return TreeBasedTensor(tensors[keep_ind], newtree)
 
+    def _with_same_active_nodes(self, tensor2):
+        """
+        Activate the leaf nodes of the tensors that are active in one of them.
+
+        Parameters
+        ----------
+        tensor2 : TreeBasedTensor
+            The second tensor, with the same tree.
+
+        Raises
+        ------
+        ValueError
+            If the tensors do not have the same tree.
+
+        Returns
+        -------
+        TreeBasedTensor, TreeBasedTensor
+            The tensors, with the same active nodes.
+
+        """
+        if not self.tree == tensor2.tree:
+            raise ValueError("Both tensors should have the same tree.")
+
+        if not np.all(self.is_active_node == tensor2.is_active_node):
+            return (
+                self.activate_nodes(tensor2.active_nodes),
+                tensor2.activate_nodes(self.active_nodes),
+            )
+        return self, tensor2
+
     def cat(self, tensor2):
         """
         Concatenate the tensors.
@@ -1309,6 +1336,7 @@ class TreeBasedTensor:
             The concatenated tensors.
 
         """
+        self, tensor2 = self._with_same_active_nodes(tensor2)
         tensors = np.array(self.tensors)
         for nod in np.arange(1, self.tree.nb_nodes + 1):
             if self.is_active_node[nod - 1]:
@@ -1332,6 +1360,7 @@ class TreeBasedTensor:
             The tensor resulting from the Kronecker product.
 
         """
+        self, tensor2 = self._with_same_active_nodes(tensor2)
         tensors = np.array(self.tensors)
         for nod in np.arange(1, self.tree.nb_nodes + 1):
             if self.is_active_node[nod - 1]:
@@ -1880,6 +1909,7 @@ class TreeBasedTensor:
             The weighted inner product.
 
         """
+        self, tensor2 = self._with_same_active_nodes(tensor2)
         tree = self.tree
         tensors1 = np.array(self.tensors)
         tensors2 = tensor2.tensors
-- 
2.43.0


From 463c01d2c9aa14153b4153dbcccdaae1e31d403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 114/123] fix: operations on two tree-based tensors whose equal
 trees number their nodes differently were wrong

---
 .../tensors/tree_based_tensor.py              | 39 +++++++++++++++----
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 302245d..a0771ff 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -259,7 +259,7 @@ class TreeBasedTensor:
                 "Addition only implemented for two TreeBasedTensor."
             )
 
-        self, arg = self._with_same_active_nodes(arg)
+        self, arg = self._with_same_nodes(arg)
 
         tree = self.tree
         tensors = np.array(self.tensors)
@@ -1291,9 +1291,10 @@ class TreeBasedTensor:
             newtree = tensap.DimensionTree(dim2ind, adj)
             return TreeBasedTensor(tensors[keep_ind], newtree)
 
-    def _with_same_active_nodes(self, tensor2):
+    def _with_same_nodes(self, tensor2):
         """
-        Activate the leaf nodes of the tensors that are active in one of them.
+        Represent two tensors with the same numbering of the nodes of their
+        tree and the same active nodes.
 
         Parameters
         ----------
@@ -1308,12 +1309,34 @@ class TreeBasedTensor:
         Returns
         -------
         TreeBasedTensor, TreeBasedTensor
-            The tensors, with the same active nodes.
+            The tensors, with the same tree and the same active nodes.
 
         """
-        if not self.tree == tensor2.tree:
+        tree, tree2 = self.tree, tensor2.tree
+        if not tree == tree2:
             raise ValueError("Both tensors should have the same tree.")
 
+        if not (
+            np.array_equal(tree.adjacency_matrix, tree2.adjacency_matrix)
+            and np.array_equal(tree.dim2ind, tree2.dim2ind)
+        ):
+            # Nodes of tree2 with the same dimensions (at the same level)
+            num = {
+                (lvl, tuple(np.sort(dims))): i + 1
+                for i, (lvl, dims) in enumerate(zip(tree2.level, tree2.dims))
+            }
+            num = [
+                num[lvl, tuple(np.sort(dims))]
+                for lvl, dims in zip(tree.level, tree.dims)
+            ]
+            tensors = tensor2.tensors[np.array(num) - 1]
+            for nod in tree.internal_nodes:
+                children2 = tree2.children(num[nod - 1]).tolist()
+                perm = [children2.index(num[ch - 1]) for ch in tree.children(nod)]
+                perm += list(range(len(perm), tensors[nod - 1].order))
+                tensors[nod - 1] = tensors[nod - 1].transpose(perm)
+            tensor2 = TreeBasedTensor(tensors, tree)
+
         if not np.all(self.is_active_node == tensor2.is_active_node):
             return (
                 self.activate_nodes(tensor2.active_nodes),
@@ -1336,7 +1359,7 @@ class TreeBasedTensor:
             The concatenated tensors.
 
         """
-        self, tensor2 = self._with_same_active_nodes(tensor2)
+        self, tensor2 = self._with_same_nodes(tensor2)
         tensors = np.array(self.tensors)
         for nod in np.arange(1, self.tree.nb_nodes + 1):
             if self.is_active_node[nod - 1]:
@@ -1360,7 +1383,7 @@ class TreeBasedTensor:
             The tensor resulting from the Kronecker product.
 
         """
-        self, tensor2 = self._with_same_active_nodes(tensor2)
+        self, tensor2 = self._with_same_nodes(tensor2)
         tensors = np.array(self.tensors)
         for nod in np.arange(1, self.tree.nb_nodes + 1):
             if self.is_active_node[nod - 1]:
@@ -1909,7 +1932,7 @@ class TreeBasedTensor:
             The weighted inner product.
 
         """
-        self, tensor2 = self._with_same_active_nodes(tensor2)
+        self, tensor2 = self._with_same_nodes(tensor2)
         tree = self.tree
         tensors1 = np.array(self.tensors)
         tensors2 = tensor2.tensors
-- 
2.43.0


From 02885fca43c0540cf6e4ac72b74037ee44cf207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:09 +0000
Subject: [PATCH 115/123] fix: the k-fold error estimation replaced the type
 and the number of folds asked for by those of the first sample, so that a
 solver used again with another sample estimated another error

---
 .../linear_model_learning_square_loss.py      | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 83989ce..be39ca6 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -563,11 +563,12 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         err = np.zeros(n)
         delta = np.zeros(y.shape)
 
-        if self.error_estimation_type == "k_fold":
-            if "number_of_folds" not in self.error_estimation_options:
-                self.error_estimation_options["number_of_folds"] = np.min([10, N])
-            if self.error_estimation_options["number_of_folds"] == N:
-                self.error_estimation_type = "leave_out"
+        error_estimation_type = self.error_estimation_type
+        if error_estimation_type == "k_fold":
+            n_folds = self.error_estimation_options.get("number_of_folds", 10)
+            n_folds = np.min((N, n_folds))
+            if n_folds == N:
+                error_estimation_type = "leave_out"
 
         if not args and linear_solver is None:
             if P > N:
@@ -589,7 +590,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         # estimate of the mean-squared error), also called mean predicted
         # residual sum of squares (PRESS) or empirical mean-squared predicted
         # residual
-        if self.error_estimation_type == "leave_out":
+        if error_estimation_type == "leave_out":
             if N - 1 < P:
                 err = np.full(err.shape, np.inf)
                 delta = np.squeeze(np.full(delta.shape, np.inf))
@@ -611,11 +612,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
             delta = np.squeeze(delta)
             # Compute the absolute cross-validation error
             err = np.mean(delta**2, 0)
-        elif self.error_estimation_type == "k_fold":
+        elif error_estimation_type == "k_fold":
             from sklearn.model_selection import KFold
 
-            n_folds = np.min((N, self.error_estimation_options["number_of_folds"]))
-
             if N * (1 - 1 / n_folds) < P:
                 # print('Not enough samples for performing OLS on the ' +
                 #       'training set.')
@@ -659,7 +658,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
             delta = np.squeeze(delta)
         else:
             raise NotImplementedError(
-                "Cross-validation {} not implemented".format(self.error_estimation_type)
+                "Cross-validation {} not implemented".format(error_estimation_type)
             )
 
         # Compute the relative cross-validation error
-- 
2.43.0


From 3c4af5b083fc4c99fed1c2c493522a49e0ffba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:52 +0000
Subject: [PATCH 116/123] fix: rank adaptation with an infinite error at the
 first iteration returned to a non-existing iterate

---
 .../tensor_approximation/tensor_learning/tensor_learning.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index cebe118..0703107 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -621,7 +621,7 @@ class TensorLearning(tensap.Learning):
 
             if "error" in output_local:
                 errors[iteration] = output_local["error"]
-                if np.isinf(errors[iteration]):
+                if np.isinf(errors[iteration]) and f_old is not None:
                     print("Infinite error, returning to the previous iterate.")
                     f = f_old
                     iteration -= 1
-- 
2.43.0


From 2e2292a9a37372ad441a7b5b9353e50878173227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:33 +0000
Subject: [PATCH 117/123] fix: a sub-basis of an orthonormal basis without
 given functions (the default) could not be created

---
 tensap/approximation/bases/sub_functional_basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 12ac458..cc558c4 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -71,6 +71,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
 
             if (
                 underlying_basis.is_orthonormal
+                and basis is not None
                 and np.linalg.norm(
                     np.matmul(np.transpose(basis), basis) - np.eye(basis.shape[1])
                 )
-- 
2.43.0


From e46661cb09296afc0ee0f259565eeecda10c3d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:10 +0000
Subject: [PATCH 118/123] fix: the norm, variance and products of a function in
 tensor format for another product measure (a RandomVector) could not be
 computed

---
 tensap/approximation/bases/functional_bases.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 8fdf587..ca8453c 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -469,7 +469,9 @@ class FunctionalBases:
             The dimensions of the bases for which the gram matrix is computed.
             The default is None, indicating all the bases.
         *measure : tensap.Measure, optional
-            The measure used for the computation of the gram matrices.
+            The measure used for the computation of the gram matrices. The
+            random variables of a tensap.RandomVector are used for the
+            successive bases.
 
         Returns
         -------
@@ -479,6 +481,11 @@ class FunctionalBases:
         """
         if dims is None:
             dims = range(len(self))
+        if len(measure) == 1 and isinstance(measure[0], tensap.RandomVector):
+            return [
+                x.gram_matrix(y)
+                for x, y in zip(self.bases[dims], measure[0].random_variables)
+            ]
         return [x.gram_matrix(*measure) for x in self.bases[dims]]
 
     def storage(self):
-- 
2.43.0


From e31de766c26d653789713bcbbc92fad7d62fc53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:38 +0000
Subject: [PATCH 119/123] fix: the variance, norm and products of a function
 expanded in a basis ignored the given measure

---
 .../bases/functional_basis_array.py            | 18 ++++++++++++++++--
 .../sparse_tensor_product_functional_basis.py  | 14 +++++++++-----
 .../bases/sub_functional_basis.py              |  4 ++--
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index af31e85..b40d105 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -309,10 +309,24 @@ class FunctionalBasisArray(tensap.Function):
         """
         if dims is None:
             dims = range(self.basis.cardinal())
-        if not (self.basis == g.basis) or not self.basis.is_orthonormal:
+        if not (self.basis == g.basis):
             raise NotImplementedError("Method not implemented.")
 
-        return self.dot(g, 0)
+        basis = self.basis
+        if isinstance(measure, tensap.RandomVector):
+            other = tensap.ProductMeasure(list(measure.random_variables))
+        else:
+            other = measure
+        if measure is None or basis.measure in (measure, other):
+            if not basis.is_orthonormal:
+                raise NotImplementedError("Method not implemented.")
+            return self.dot(g, 0)
+
+        if isinstance(basis, tensap.FullTensorProductFunctionalBasis):
+            ind = tensap.MultiIndices.bounded_by(basis.bases.cardinals() - 1)
+            basis = tensap.SparseTensorProductFunctionalBasis(basis.bases, ind)
+        gram = basis.gram_matrix(measure)
+        return np.sum(self.data * np.tensordot(gram, g.data, 1), 0, keepdims=True)
 
     def norm_expectation(self, measure=None):
         """
diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 50b6b9d..3588541 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -265,22 +265,26 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
             P[n <= n_unique[k], k] = True
         return P
 
-    def gram_matrix(
-        self,
-    ):
+    def gram_matrix(self, *measure):
         """
         Return the gram matrix of the basis.
 
+        Parameters
+        ----------
+        *measure : tensap.RandomVector, optional
+            The measure used for the computation of the gram matrix. If not
+            provided, indicates to use the measures of the bases.
+
         Returns
         -------
         numpy.ndarray
             The gram matrix of the basis.
 
         """
-        if self.is_orthonormal:
+        if self.is_orthonormal and not measure:
             M = speye(self.indices.cardinal())
         else:
-            G = self.bases.gram_matrices()
+            G = self.bases.gram_matrices(None, *measure)
             ind = self.indices.array
             M = G[0][np.ix_(ind[:, 0], ind[:, 0])]
             for i in np.arange(1, ind.shape[1]):
diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index cc558c4..921681a 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -185,8 +185,8 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
     def mean(self, *args):
         return np.matmul(self.underlying_basis.mean(*args), self.basis)
 
-    def gram_matrix(self):
-        return self.basis.T @ self.underlying_basis.gram_matrix() @ self.basis
+    def gram_matrix(self, *args):
+        return self.basis.T @ self.underlying_basis.gram_matrix(*args) @ self.basis
 
     def gram_matrix_h1_0(self):
         return self.basis.T @ self.underlying_basis.gram_matrix_h1_0() @ self.basis
-- 
2.43.0


From c577de128fa34f2e28c3c4919c9fdce9e94a4065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:42 +0000
Subject: [PATCH 120/123] fix: stop the adaptive sampling of principal
 components relatively to the data

---
 .../tensor_principal_component_analysis.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
index 817a400..ae72a96 100644
--- a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
+++ b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
@@ -157,7 +157,7 @@ class TensorPrincipalComponentAnalysis:
                 A_k = np.linalg.solve(B_alpha, fun(samples[-1]))
                 A.data = np.column_stack((A.data, A_k))
                 pc, sin_val = A.principal_components(tol)
-                if sin_val[-1, -1] < 1e-15 or pc.shape[1] < np.ceil(
+                if sin_val[-1, -1] <= 1e-15 * sin_val[0, 0] or pc.shape[1] < np.ceil(
                     (k + 1) / self.pca_sampling_factor
                 ):
                     break
-- 
2.43.0


From 774e612e3314fc6a9f998daed8c17c48bbb9083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:42 +0000
Subject: [PATCH 121/123] fix: regularized least-squares with very small values
 of the functions or data

---
 .../linear_model_learning_square_loss.py      | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index be39ca6..a47e539 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -259,26 +259,39 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         N, P = A.shape
         solpath = []
 
+        # The algorithms compare the data with absolute tolerances: they are
+        # used with normalized data (by powers of 2, without rounding)
+        scale_a, scale_y = [
+            2.0 ** np.round(np.log2(x)) if x > 0 else 1.0
+            for x in (np.max(np.linalg.norm(A, axis=0)), np.linalg.norm(y))
+        ]
+
         options = self.regularization_options
         if self.regularization_type == "l0":
             options_loc = {i: options[i] for i in options if i != "alpha"}
+            if options_loc.get("tol") is not None:
+                options_loc["tol"] = options_loc["tol"] / scale_y**2
             D = np.linalg.norm(A, axis=0)
             A_omp = A / D
             solpath = linear_model.orthogonal_mp(
                 A_omp,
-                y,
+                y / scale_y,
                 copy_X=True,
                 n_nonzero_coefs=np.min((N, P)),
                 return_path=True,
                 **options_loc
             )
-            solpath = np.reshape(solpath, (P, -1))
+            solpath = scale_y * np.reshape(solpath, (P, -1))
             sol = solpath[:, -1] / D
         elif self.regularization_type == "l1":
-            reg = linear_model.LassoLars(copy_X=True, fit_intercept=False, **options)
-            reg.fit(A, y)
-            sol = reg.coef_
-            solpath = reg.coef_path_
+            options_loc = dict(options)
+            options_loc["alpha"] = options.get("alpha", 1) / (scale_a * scale_y)
+            reg = linear_model.LassoLars(
+                copy_X=True, fit_intercept=False, **options_loc
+            )
+            reg.fit(A / scale_a, y / scale_y)
+            sol = reg.coef_ * (scale_y / scale_a)
+            solpath = reg.coef_path_ * (scale_y / scale_a)
         elif self.regularization_type == "l2":
             reg = linear_model.Ridge(copy_X=True, fit_intercept=False, **options)
             reg.fit(A, y)
-- 
2.43.0


From 414bc93e8ccf24efac8a619b04714e1b01215a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:49 +0000
Subject: [PATCH 122/123] fix: orthonormal polynomials of discrete measures
 with large values stopped at low degrees

---
 .../polynomials/orthonormal_polynomials.py        | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index b2e48b9..e2ce875 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -20,6 +20,7 @@ Module orthonormal_polynomials.
 """
 
 from abc import abstractmethod
+import copy
 import math
 import numpy as np
 import tensap
@@ -912,6 +913,15 @@ class DiscretePolynomials(OrthonormalPolynomials):
         a = np.zeros(n + 2)
         b = np.zeros(n + 2)
 
+        # The values are standardized, so that the tolerance does not depend
+        # on their magnitude
+        mean = np.mean(measure.values)
+        std = np.std(measure.values)
+        if std == 0:
+            std = 1
+        measure = copy.copy(measure)
+        measure.values = (measure.values - mean) / std
+
         i = 0
         cond = True
         norms[0] = dot_product(lambda x: x**0, lambda x: x**0, measure)
@@ -941,4 +951,7 @@ class DiscretePolynomials(OrthonormalPolynomials):
             # Orthogonality condition
             cond = is_orth(pnp1[i], pn[i], pnm1[i - 1], measure)
 
-        return np.vstack((a[:i], b[:i])), np.sqrt(norms[:i])
+        return (
+            np.vstack((mean + std * a[:i], std**2 * b[:i])),
+            std ** np.arange(i) * np.sqrt(norms[:i]),
+        )
-- 
2.43.0


From 5e54d8b54d2384a7f672e8f59d2039286988ac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:49 +0000
Subject: [PATCH 123/123] fix: quantiles of empirical random variables of small
 magnitude

---
 tensap/functions/measures/empirical_random_variable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 11f28ac..4bf3d2e 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -197,8 +197,11 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
             sup = np.max(self.sample) + z + self.bandwidth
             if self.cdf(sup) <= p:  # cdf rounded below one
                 return sup
+            options = dict(kwargs)
+            if len(args) < 2:  # the default tolerance of brentq is absolute
+                options.setdefault("xtol", 2e-12 * self.bandwidth)
             return scipy.optimize.brentq(
-                lambda y: self.cdf(y) - p, inf, sup, *args, **kwargs
+                lambda y: self.cdf(y) - p, inf, sup, *args, **options
             )
 
         return np.vectorize(quantile, otypes=[float])(x)
-- 
2.43.0

