From 1b7dea1b4d15d78629a9ef5d344cba30970accd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:45 +0000
Subject: [PATCH 01/41] fix: do not read outside the tree arrays when the
 projected-forest traversal reaches a child of a leaf

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 84 ++++++++++++++++++++++++++
 1 file changed, 84 insertions(+)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index da190b7..cf2e9ef 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -4051,6 +4051,8 @@ cdef double single_compute_sdp_rf_v0(double[:] & x, double & y_x,  double[:, :]
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0: # child of a leaf
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4268,6 +4270,11 @@ cdef double single_compute_exp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -4356,6 +4363,8 @@ cdef double single_compute_quantile_rf(double[:] & x, double & y_x,  double[:, :
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0: # child of a leaf
+                    continue
                 s = 0
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4450,6 +4459,8 @@ cdef double single_compute_quantile_diff_rf(double[:] & x, double & y_x,  double
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0: # child of a leaf
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4536,6 +4547,8 @@ cdef double single_compute_cdf_rf(double[:] & x, double & y_x,  double[:, :] & d
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0: # child of a leaf
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4711,6 +4724,8 @@ cdef double single_compute_sdp_rule_v0(double[:] & x, double & y_x,  double[:, :
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0: # child of a leaf
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4842,6 +4857,8 @@ cdef double single_compute_sdp_rule_biased(double[:] & x, double & y_x, vector[i
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0: # child of a leaf
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
 
@@ -4992,6 +5009,8 @@ cdef double single_compute_sdp_rule_v0_weights(double[:] & x, double & y_x,  dou
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0: # child of a leaf
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -5160,6 +5179,11 @@ cdef double single_compute_sdp_rule(double[:] & x, double & y_x,  double[:, :] &
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5266,6 +5290,11 @@ cdef double single_compute_sdp_rule_weights(double[:] & x, double & y_x,  double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5432,6 +5461,11 @@ cdef double single_compute_ddp_rule(double[:] & x, double & y_x,  double[:, :] &
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5538,6 +5572,11 @@ cdef double single_compute_ddp_rule_weights(double[:] & x, double & y_x,  double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5674,6 +5713,11 @@ cdef double single_compute_ddp_cond_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5829,6 +5873,11 @@ cdef double single_compute_sdp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5923,6 +5972,11 @@ cdef double single_compute_ddp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -6509,6 +6563,11 @@ cdef double single_compute_ddp_intv_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
@@ -6805,6 +6864,11 @@ cdef double single_compute_cdp_rule(double[:] & x, double & y_x, double & down,
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -6912,6 +6976,11 @@ cdef double single_compute_cdp_cond_rule_weights(double[:] & x, double & y_x, do
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7066,6 +7135,11 @@ cdef double single_compute_cdp_rf(double[:] & x, double & y_x,  double & down, d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7317,6 +7391,11 @@ cdef double single_compute_cdp_rule_weights(double[:] & x, double & y_x, double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7452,6 +7531,11 @@ cdef double single_compute_cdp_intv_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0: # child of a leaf
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
-- 
2.43.0


From 770d1ad1f00ea8f8df391571ad827ff470939b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 02/41] fix: size the coalition buffers on the leaves of every
 tree, not only of the last one

---
 acv_explainers/base_agnostree.py | 2 +-
 acv_explainers/base_tree.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/base_agnostree.py b/acv_explainers/base_agnostree.py
index 7707083..9ce2e34 100644
--- a/acv_explainers/base_agnostree.py
+++ b/acv_explainers/base_agnostree.py
@@ -96,6 +96,7 @@ class BaseAgnosTree:
             self.leaf_idx_trees = []
             self.leaves_nb = []
             self.scalings = []
+            self.max_var = []
             for i in tqdm(range(num_trees)):
                 self.scalings.append(self.trees[i].scaling)
                 self.children_left[i, :len(self.trees[i].children_left)] = self.trees[i].children_left
@@ -122,7 +123,6 @@ class BaseAgnosTree:
 
                 self.partition_leaves = []
                 self.node_idx = []
-                self.max_var = []
                 # self.data_leaves = []
                 for leaf_id in self.leaf_idx:
                     node_id = [-1]
diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 9980aea..50e5314 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -557,6 +557,7 @@ class BaseTree:
             self.leaf_idx_trees = []
             self.leaves_nb = []
             self.scalings = []
+            self.max_var = []
             for i in tqdm(range(num_trees)):
                 self.scalings.append(self.trees[i].scaling)
                 self.children_left[i, :len(self.trees[i].children_left)] = self.trees[i].children_left
@@ -583,7 +584,6 @@ class BaseTree:
 
                 self.partition_leaves = []
                 self.node_idx = []
-                self.max_var = []
                 self.data_leaves = []
                 for leaf_id in self.leaf_idx:
                     node_id = [-1]
-- 
2.43.0


From 38416eba51fe2bb6f36a09bd98fd651aad417d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 03/41] fix: keep the normalisation constant of normalized
 Shapley values when a leaf has no matching data

---
 acv_explainers/cyext_acv/cyext_acv.pyx       | 6 +++---
 acv_explainers/cyext_acv/cyext_acv_cache.pyx | 6 +++---
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index cf2e9ef..6bceb11 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1704,7 +1704,7 @@ cpdef shap_values_leaves_normalized(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi[va, leaf_numb, leaf_n, counter] = 1
 
-                                n_si = n_si + (csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + (csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else n_si
 
                             p_si = (csi[va, leaf_numb, leaf_numb, counter] * lm)/(lm_si[va, leaf_numb, leaf_numb, counter] * n_si) if n_si*lm_si[va, leaf_numb, leaf_numb, counter] !=0 else 0
                         else:
@@ -1729,8 +1729,8 @@ cpdef shap_values_leaves_normalized(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi[va, leaf_numb, leaf_n, counter] = 1
 
-                                n_s = n_s + (cs[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_s[va, leaf_numb, leaf_n, counter] if lm_s[va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + (cs[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_s[va, leaf_numb, leaf_n, counter] if lm_s[va, leaf_numb, leaf_n, counter] !=0 else n_s
+                                n_si = n_si + (csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else n_si
 
                             p_s = (cs[va, leaf_numb, leaf_numb, counter] * lm)/(lm_s[va, leaf_numb, leaf_numb, counter] * n_s) if n_s*lm_s[va, leaf_numb, leaf_numb, counter] !=0 else 0
                             p_si = (csi[va, leaf_numb, leaf_numb, counter] * lm)/(lm_si[va, leaf_numb,  leaf_numb, counter] * n_si) if n_si*lm_si[va, leaf_numb, leaf_numb, counter] !=0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_cache.pyx b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
index f9f46ce..61fe587 100644
--- a/acv_explainers/cyext_acv/cyext_acv_cache.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
@@ -582,7 +582,7 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else n_si
 
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
@@ -611,8 +611,8 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_s = n_s + (cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + (cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else n_s
+                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else n_si
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
                                     cs = cs_n
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 58643f6..1d579ea 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3005,7 +3005,7 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else n_si
 
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
@@ -3034,8 +3034,8 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_s = n_s + (cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + (cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else n_s
+                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else n_si
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
                                     cs = cs_n
-- 
2.43.0


From 23cd67e83ceaef74ce6dedc4987f8515baeb53e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 04/41] fix: normalise the regression SDP of a row by its own
 leaf weights, not by those of the previous row

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 16 ++++++++++++++++
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 6bceb11..ac652eb 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -630,6 +630,14 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
         ss_u = 0
         ss_d = 0
         ss_a = 0
+        for b in range(n_trees):
+            norm[b] = 0
+            norm_u[b] = 0
+            norm_d[b] = 0
+            for leaf_numb in range(leaves_nb[b]):
+                norm[b] += p_n[b, leaf_numb, leaf_numb, i]
+                norm_u[b] += p_u_n[b, leaf_numb, leaf_numb, i]
+                norm_d[b] += p_d_n[b, leaf_numb, leaf_numb, i]
         for b in range(n_trees):
             for l in range(n_trees):
                 if b == l:
@@ -1198,6 +1206,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                 ss_u = 0
                 ss_d = 0
                 ss_a = 0
+                for b in range(n_trees):
+                    norm[b] = 0
+                    norm_u[b] = 0
+                    norm_d[b] = 0
+                    for leaf_numb in range(leaves_nb[b]):
+                        norm[b] += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        norm_u[b] += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        norm_d[b] += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
                 for b in range(n_trees):
                     for l in range(n_trees):
                         if b == l:
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 1d579ea..bc93769 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -624,6 +624,14 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
         ss_u = 0
         ss_d = 0
         ss_a = 0
+        for b in range(n_trees):
+            norm[b] = 0
+            norm_u[b] = 0
+            norm_d[b] = 0
+            for leaf_numb in range(leaves_nb[b]):
+                norm[b] += p_n[b, leaf_numb, leaf_numb, i]
+                norm_u[b] += p_u_n[b, leaf_numb, leaf_numb, i]
+                norm_d[b] += p_d_n[b, leaf_numb, leaf_numb, i]
         for b in range(n_trees):
             for l in range(n_trees):
                 if b == l:
@@ -1192,6 +1200,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                 ss_u = 0
                 ss_d = 0
                 ss_a = 0
+                for b in range(n_trees):
+                    norm[b] = 0
+                    norm_u[b] = 0
+                    norm_d[b] = 0
+                    for leaf_numb in range(leaves_nb[b]):
+                        norm[b] += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        norm_u[b] += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        norm_d[b] += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
                 for b in range(n_trees):
                     for l in range(n_trees):
                         if b == l:
-- 
2.43.0


From d3d88931ab4e93c61afd70d8254c00cb8691ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 05/41] fix: use the trees' own (lower, upper] intervals in
 every leaf test

A value equal to a split threshold was counted in the leaves on both sides, and on the wrong
side in the cached normalized Shapley values: the expectation given all features then differed
from the prediction.
---
 acv_explainers/cyext_acv/cyext_acv.pyx       | 94 ++++++++++----------
 acv_explainers/cyext_acv/cyext_acv_cache.pyx |  8 +-
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx  | 72 +++++++--------
 acv_explainers/py_acv.py                     |  6 +-
 acv_explainers/utils.py                      |  8 +-
 acv_explainers/utils_exp.py                  | 10 +--
 acv_explainers/utils_sdp.py                  | 40 ++++-----
 7 files changed, 119 insertions(+), 119 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index ac652eb..7793b51 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -61,7 +61,7 @@ cpdef compute_exp(double[:, :] X, long[:] S, double[:, :] data, double[:, :, :]
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -74,7 +74,7 @@ cpdef compute_exp(double[:, :] X, long[:] S, double[:, :] data, double[:, :, :]
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -128,7 +128,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -141,7 +141,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -271,7 +271,7 @@ cpdef compute_sdp_clf_cat(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -290,7 +290,7 @@ cpdef compute_sdp_clf_cat(double[:, :] X, long[:] fX,
                     lm = 0
                     a_it = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     if a_it == m:
                         lm = 1
@@ -382,7 +382,7 @@ cpdef compute_sdp_clf(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -400,10 +400,10 @@ cpdef compute_sdp_clf(double[:, :] X, long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -517,10 +517,10 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -532,7 +532,7 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                     for i in prange(N, nogil=True, num_threads=num_threads):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -582,10 +582,10 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == m:
@@ -597,7 +597,7 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                         for i in prange(N, nogil=True, num_threads=num_threads):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -727,10 +727,10 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -739,7 +739,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                     for i in prange(N, nogil=True):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -796,7 +796,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
 
                             if a_it == m:
@@ -805,7 +805,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                         for i in prange(N, nogil=True):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -1093,10 +1093,10 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(m):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == m:
@@ -1108,7 +1108,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             for i in prange(N, nogil=True):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -1158,10 +1158,10 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(m):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == m:
@@ -1173,7 +1173,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(N, nogil=True):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -2077,7 +2077,7 @@ cdef compute_sdp_swing(const double[:, :] X, const long[:] fX,
             for i in prange(N, nogil=True, num_threads=num_threads):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -2095,10 +2095,10 @@ cdef compute_sdp_swing(const double[:, :] X, const long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -2314,7 +2314,7 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                 csm = 0
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -2354,10 +2354,10 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     lm_s_m = 0
 
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -2753,10 +2753,10 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(data.shape[1]):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == data.shape[1]:
@@ -2768,7 +2768,7 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                             for i in prange(N, nogil=True, num_threads=num_threads):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -2814,10 +2814,10 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(data.shape[1]):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == data.shape[1]:
@@ -2829,7 +2829,7 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(N, nogil=True, num_threads=num_threads):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -2988,7 +2988,7 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -3005,10 +3005,10 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -3186,7 +3186,7 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -3203,10 +3203,10 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -3910,7 +3910,7 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -3927,10 +3927,10 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
diff --git a/acv_explainers/cyext_acv/cyext_acv_cache.pyx b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
index 61fe587..e5567ae 100644
--- a/acv_explainers/cyext_acv/cyext_acv_cache.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
@@ -568,14 +568,14 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -597,14 +597,14 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index bc93769..531c8ce 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -55,7 +55,7 @@ cpdef compute_exp_nopa(double[:, :] X, long[:] S, double[:, :] data, double[:, :
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -68,7 +68,7 @@ cpdef compute_exp_nopa(double[:, :] X, long[:] S, double[:, :] data, double[:, :
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -122,7 +122,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -135,7 +135,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -265,7 +265,7 @@ cpdef compute_sdp_clf_cat_nopa(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -284,7 +284,7 @@ cpdef compute_sdp_clf_cat_nopa(double[:, :] X, long[:] fX,
                     lm = 0
                     a_it = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     if a_it == m:
                         lm = 1
@@ -376,7 +376,7 @@ cpdef compute_sdp_clf_nopa(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -394,10 +394,10 @@ cpdef compute_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -511,10 +511,10 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -526,7 +526,7 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -576,10 +576,10 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == m:
@@ -591,7 +591,7 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                         for i in range(N):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -721,10 +721,10 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -733,7 +733,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -790,7 +790,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
 
                             if a_it == m:
@@ -799,7 +799,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                         for i in range(N):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -1087,10 +1087,10 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(m):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == m:
@@ -1102,7 +1102,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             for i in range(N):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -1152,10 +1152,10 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(m):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == m:
@@ -1167,7 +1167,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 for i in range(N):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -1415,7 +1415,7 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -1432,10 +1432,10 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -3007,14 +3007,14 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -3036,14 +3036,14 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -3287,7 +3287,7 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                 csm = 0
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -3327,10 +3327,10 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     lm_s_m = 0
 
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index 402b7c8..b5d122b 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -238,7 +238,7 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
         for i in va_id:
 
             if not set(convert_list(i)).issubset(node_id):
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in N_star], axis=0)
 
                 lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
@@ -263,9 +263,9 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                         Sm += [c]
             for S in powerset(Sm):
 
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in chain_l(S) + convert_list(i) + N_star], axis=0)
-                comp_s = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_s = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                   for s in chain_l(S) + N_star], axis=0)
 
                 coef = 0
diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 8961492..0304f85 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -597,19 +597,19 @@ def explore_partition(i, x, children_left, children_right, features, thresholds,
         partition_leaves = np.squeeze(np.array(partition_leaves))
 
         section_x = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0)
 
         section_x_bar = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S_bar], axis=0)
 
         section_up = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0) * up_tx
 
         section_down = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0) * down_tx
 
         prob_all = section_x * section_x_bar
diff --git a/acv_explainers/utils_exp.py b/acv_explainers/utils_exp.py
index 062d7f8..c763b6f 100644
--- a/acv_explainers/utils_exp.py
+++ b/acv_explainers/utils_exp.py
@@ -18,14 +18,14 @@ def compute_exp(X, model, S, data):
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
-            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                            S], axis=0)
 
             p_ss = np.sum(p_s)
@@ -52,13 +52,13 @@ def compute_exp_cat(X, model, S, data):
             leaf_part = leaves_tree[leaf_numb]
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
             value = model.values[b, leaf_id]
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
             for i, x in enumerate(X):
                 if leaf_bool[i] == 0:
diff --git a/acv_explainers/utils_sdp.py b/acv_explainers/utils_sdp.py
index 822912d..cec2b4d 100644
--- a/acv_explainers/utils_sdp.py
+++ b/acv_explainers/utils_sdp.py
@@ -28,16 +28,16 @@ def compute_sdp_reg(X, tX, model, S, data):
                     leaf_id = model.leaf_idx_trees[b, leaf_numb]
                     value = model.values[b, leaf_id]
 
-                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S],
+                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S],
                                         axis=0)
 
                     if np.sum(leaf_bool) == 0:
                         continue
 
-                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index],
+                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index],
                                  axis=0)
 
-                    p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+                    p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                                    S], axis=0)
 
                     for i, x in enumerate(X):
@@ -77,19 +77,19 @@ def compute_sdp_reg(X, tX, model, S, data):
                         leaf_part_l = model.partition_leaves_trees[l][leaf_numb_l]
                         value_l = model.values[l, leaf_id_l]
 
-                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] >= leaf_part_b[s, 0]) *
-                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] >= leaf_part_l[s, 0])
+                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] > leaf_part_b[s, 0]) *
+                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] > leaf_part_l[s, 0])
                                              for s in S], axis=0)
 
                         if np.sum(leaf_bool) == 0.:
                             continue
 
-                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                       for s in index], axis=0)
 
-                        p_s = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                       (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        p_s = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                       (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                        for s in S], axis=0)
 
                         for i, x in enumerate(X):
@@ -146,13 +146,13 @@ def compute_sdp_reg_cat(X, tX, model, S, data):
                     leaf_id = model.leaf_idx_trees[b, leaf_numb]
                     value = model.values[b, leaf_id]
 
-                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S],
+                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S],
                                         axis=0)
 
                     if np.sum(leaf_bool) == 0:
                         continue
 
-                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index],
+                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index],
                                  axis=0)
 
                     for i, x in enumerate(X):
@@ -193,15 +193,15 @@ def compute_sdp_reg_cat(X, tX, model, S, data):
                         leaf_part_l = model.partition_leaves_trees[l][leaf_numb_l]
                         value_l = model.values[l, leaf_id_l]
 
-                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] >= leaf_part_b[s, 0]) *
-                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] >= leaf_part_l[s, 0])
+                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] > leaf_part_b[s, 0]) *
+                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] > leaf_part_l[s, 0])
                                              for s in S], axis=0)
 
                         if np.sum(leaf_bool) == 0.:
                             continue
 
-                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                       for s in index], axis=0)
 
                         for i, x in enumerate(X):
@@ -264,12 +264,12 @@ def compute_sdp_clf_cat(X, tX, model, S, data):
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
             for i, x in enumerate(X):
                 if leaf_bool[i] == 0:
@@ -328,13 +328,13 @@ def compute_sdp_clf(X, tX, model, S, data):
             leaf_part = leaves_tree[leaf_numb]
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
-            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
+            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                            S], axis=0)
 
             for i, x in enumerate(X):
-- 
2.43.0


From fdf2ea1cf0c22439f1eab4204d15b9387020fd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 06/41] fix: make compute_exp_normalized_nopa callable and
 guard the normalized expectation against empty leaves

---
 acv_explainers/acv_tree.py                  | 2 +-
 acv_explainers/cyext_acv/cyext_acv.pyx      | 2 +-
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index e67a762..ab3319e 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -639,7 +639,7 @@ class ACVTree(BaseTree):
                                                 num_threads)
 
     def compute_exp_normalized_nopa(self, X, S, data, num_threads=10):
-        return cyext_acv.compute_exp_normalized_nopa(np.array(X, dtype=np.float), S, data, self.values,
+        return cyext_acv_nopa.compute_exp_normalized(np.array(X, dtype=np.float), S, data, self.values,
                                                      self.partition_leaves_trees,
                                                      self.leaf_idx_trees, self.leaves_nb, self.scalings,
                                                      num_threads)
diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 7793b51..b37413e 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -146,7 +146,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 if o_all > 0:
                     continue
 
-                p_n[b, leaf_numb, i] += (1.*lm)/p_ss
+                p_n[b, leaf_numb, i] += (1.*lm)/p_ss if p_ss != 0 else 0
 
                 for j in range(d):
                     mean_forest_b[b, leaf_numb, i, j] += (lm * values[b, leaf_idx_trees[b, leaf_numb], j]) / p_ss if p_ss != 0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 531c8ce..628b1c1 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -140,7 +140,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 if o_all > 0:
                     continue
 
-                p_n[b, leaf_numb, i] += (1.*lm)/p_ss
+                p_n[b, leaf_numb, i] += (1.*lm)/p_ss if p_ss != 0 else 0
 
                 for j in range(d):
                     mean_forest_b[b, leaf_numb, i, j] += (lm * values[b, leaf_idx_trees[b, leaf_numb], j]) / p_ss if p_ss != 0 else 0
-- 
2.43.0


From b3f586b7234687255697f08b89e9d26d2785b59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 07/41] fix: a leaf that no background row matches contributes
 nothing to Active (and reference) Shapley values, instead of NaN

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 12 ++++++------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 12 ++++++------
 acv_explainers/py_acv.py                    | 14 +++++++-------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index b37413e..0a4e7c6 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1936,7 +1936,7 @@ cpdef shap_values_acv_leaves(const double[:, :] X,
                             csi = 1
 
                         p_s = lm/data.shape[0]
-                        p_si = (csi * lm)/lm_star[va, leaf_numb]
+                        p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                         for nv in range(va_id[va].size()):
                             for i2 in range(d):
                                 phi_n[leaf_numb, i, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -2012,8 +2012,8 @@ cpdef shap_values_acv_leaves(const double[:, :] X,
                         coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                        p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                        p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                        p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                        p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                         if S_size != 0:
                             for nv in range(va_id[va].size()):
@@ -3481,7 +3481,7 @@ cpdef single_shap_values_acv_leaves(const double[:] X,
                         csi = 1
 
                     p_s = lm/data.shape[0]
-                    p_si = (csi * lm)/lm_star[va, leaf_numb]
+                    p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                     for nv in range(va_id[va].size()):
                         for i2 in range(d):
                             phi_n[leaf_numb, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -3557,8 +3557,8 @@ cpdef single_shap_values_acv_leaves(const double[:] X,
                     coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                     if S_size != 0:
                         for nv in range(va_id[va].size()):
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 628b1c1..21b60fe 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -1870,7 +1870,7 @@ cpdef shap_values_acv_leaves_nopa(const double[:, :] X,
                             csi = 1
 
                         p_s = lm/data.shape[0]
-                        p_si = (csi * lm)/lm_star
+                        p_si = (csi * lm)/lm_star if lm_star !=0 else 0
                         for nv in range(va_id[va].size()):
                             for i2 in range(d):
                                 phi[i, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -1946,8 +1946,8 @@ cpdef shap_values_acv_leaves_nopa(const double[:, :] X,
                         coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                        p_s = (cs * lm)/lm_s
-                        p_si = (csi * lm)/lm_si
+                        p_s = (cs * lm)/lm_s if lm_s !=0 else 0
+                        p_si = (csi * lm)/lm_si if lm_si !=0 else 0
 
                         if S_size != 0:
                             for nv in range(va_id[va].size()):
@@ -2175,7 +2175,7 @@ cpdef single_shap_values_acv_leaves_nopa(const double[:] X,
                         csi = 1
 
                     p_s = lm/data.shape[0]
-                    p_si = (csi * lm)/lm_star[va, leaf_numb]
+                    p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                     for nv in range(va_id[va].size()):
                         for i2 in range(d):
                             phi_n[leaf_numb, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -2251,8 +2251,8 @@ cpdef single_shap_values_acv_leaves_nopa(const double[:] X,
                     coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                     if S_size != 0:
                         for nv in range(va_id[va].size()):
diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index b5d122b..940693d 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -79,12 +79,12 @@ def shap_values_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves_nb,
                 lm_s = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                                        for s in chain_l(S)], axis=0))
 
-                p_si = (csi * lm) / lm_si
+                p_si = (csi * lm) / lm_si if lm_si != 0 else csi * 0.
 
                 if len(S) == 0:
                     p_s = lm / data.shape[0]
                 else:
-                    p_s = (cs * lm) / lm_s
+                    p_s = (cs * lm) / lm_s if lm_s != 0 else cs * 0.
                 for j in convert_list(i):
                     phi[:, j, :] += (comb(d - 1, len(S), exact=True) ** (-1) + coef) * (p_si - p_s)[:, None] * v[
                                                                                                                    leaf_id][
@@ -174,12 +174,12 @@ def shap_values_leaves_v2(x, partition_leaves, data, node_idx, leaf_idx, leaves_
                 lm_s = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                                        for s in S], axis=0))
 
-                p_si = (csi * lm) / lm_si
+                p_si = (csi * lm) / lm_si if lm_si != 0 else csi * 0.
 
                 if len(S) == 0:
                     p_s = lm / data.shape[0]
                 else:
-                    p_s = (cs * lm) / lm_s
+                    p_s = (cs * lm) / lm_s if lm_s != 0 else cs * 0.
                 for j in convert_list(i):
                     phi[:, j, :] += (comb(d - 1, S_size, exact=True) ** (-1) + coef) * (p_si - p_s)[:, None] * v[
                                                                                                                    leaf_id][
@@ -244,7 +244,7 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                 lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in N_star], axis=0))
 
-                p_si = comp_si * lm / lm_si
+                p_si = comp_si * lm / lm_si if lm_si != 0 else comp_si * 0.
                 p_s = lm / data.shape[0]
                 for a in convert_list(i):
                     phi[:, a] += ((p_si - p_s)[:, None] * v[leaf_id][None, :])
@@ -277,8 +277,8 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                 lm_s = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in chain_l(S) + N_star], axis=0))
 
-                p_si = comp_si * lm / lm_si
-                p_s = comp_s * lm / lm_s
+                p_si = comp_si * lm / lm_si if lm_si != 0 else comp_si * 0.
+                p_s = comp_s * lm / lm_s if lm_s != 0 else comp_s * 0.
                 if len(S) != 0:
                     for a in convert_list(i):
                         phi[:, a] += (
-- 
2.43.0


From 845978c9b494ca42b2277f8c9f94bb1e2f7b415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 08/41] fix: keep the ungrouped features of a leaf in
 py_shap_valuesv2 when groups are given

---
 acv_explainers/py_acv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index 940693d..1928cbf 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -135,7 +135,7 @@ def shap_values_leaves_v2(x, partition_leaves, data, node_idx, leaf_idx, leaves_
         C_b = C.copy()
         if C[0] != []:
             for va in node_id:
-                if va in remove_va:
+                if [va] in remove_va:
                     node_id_v2 += [[va]]
                 else:
                     for ci in C_b:
-- 
2.43.0


From b27be31b35cba88a3912c21738f60eab4661035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:43 +0000
Subject: [PATCH 09/41] fix: rebuild the projected forest after ACXplainer is
 fitted again

---
 acv_explainers/acv_agnosticX.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index ccadcad..561e331 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -160,6 +160,8 @@ class ACXplainer:
         self.d = X.shape[1]
         self.model.fit(X=X, y=y, sample_weight=sample_weight, split_select_weights=split_select_weights,
                        always_split_features=always_split_features, categorical_features=categorical_features)
+        # the forest used by the explanations is rebuilt from the new model
+        self.check_is_explain = False
 
     def fit_global_rules(self, X, y, rules, rules_s_star):
         # TODO: think about removing s_star ? add complexity ?
-- 
2.43.0


From 9811282bd75d5e365757b4e4da688d652bacbf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:43 +0000
Subject: [PATCH 10/41] fix: sufficient_cxpl_rf drops the placeholder of each
 sample, not the first sample

---
 acv_explainers/acv_agnosticX.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index 561e331..644cacf 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -1217,7 +1217,8 @@ class ACXplainer:
                                             pi_level, minimal, stop, search_space[:10])
 
         c_expl = [sufficient_coal[1:] for sufficient_coal in c_expl]
-        return c_expl, cdp_expl[1:], cdp_global
+        cdp_expl = [cdp_ind[1:] for cdp_ind in cdp_expl]
+        return c_expl, cdp_expl, cdp_global
 
     def compute_exp_rf(self, X, y, data, y_data, S, min_node_size=5, t=None):
         """
-- 
2.43.0


From 6f95fbfea588d4a4e84e9e2b80a7d56f3711b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:43 +0000
Subject: [PATCH 11/41] fix: ACXplainer.compute_cdf_rf passes one threshold per
 sample, as the estimator expects

---
 acv_explainers/acv_agnosticX.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index 644cacf..83734c4 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -1285,7 +1285,7 @@ class ACXplainer:
 
             min_node_size (int): The minimal node size of the Projected Forest
 
-            t (float): not used here
+            t (numpy.ndarray): 1-D array (# samples) the points at which the P-CDF is computed, the targets y by default
 
         Returns:
             exp (numpy.ndarray): A 1-D matrix (# samples), exp[i] contains the Conditional Expectation of observation i
@@ -1300,10 +1300,8 @@ class ACXplainer:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
         self.check_is_explainer()
-        if not self.classifier and t is None:
-            t = self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
-        elif self.classifier:
-            t = np.zeros(shape=(X.shape[0], 2))
+        if t is None:
+            t = y
         sdp = cyext_acv.compute_cdf_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                        self.ACXplainer.children_left,
                                        self.ACXplainer.children_right, self.ACXplainer.max_depth, min_node_size,
-- 
2.43.0


From 5b8fe888f195feb90d696d66fc87cabc1317e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:43 +0000
Subject: [PATCH 12/41] fix: use the cached leaf statistics only for the
 coalitions they were computed with

---
 acv_explainers/acv_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index ab3319e..e7cff29 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -28,7 +28,7 @@ class ACVTree(BaseTree):
             shapley_values (numpy.ndarray): The Shapley Values of each sample (# samples X # features X # model's output)
         """
         X = check_array(X, dtype=[np.double])
-        if not self.cache:
+        if not self.cache or C != self.C:
             return cyext_acv.shap_values_leaves_pa(X, self.data, self.values,
                                                    self.partition_leaves_trees,
                                                    self.leaf_idx_trees, self.leaves_nb, self.max_var,
@@ -662,7 +662,7 @@ class ACVTree(BaseTree):
                                                                        self.node_idx_trees, C, num_threads)
 
     def shap_values_normalized(self, X, C=[[]], num_threads=10):
-        if not self.cache_normalized:
+        if not (self.cache and self.cache_normalized) or C != self.C:
             return cyext_acv.shap_values_leaves_normalized(np.array(X, dtype=np.float), self.data, self.values,
                                                            self.partition_leaves_trees,
                                                            self.leaf_idx_trees, self.leaves_nb, self.max_var,
-- 
2.43.0


From d07e62e2beae7cb417bec93dc3aa531afafaef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 13/41] fix: extend a rule only with a neighbour whose union
 with it is a rectangle

---
 acv_explainers/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 0304f85..751b87d 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -941,9 +941,10 @@ def extend_rec(rec_a, rec_b, S, axs, dim):
     a = 0
     for k in S:
         if k not in axs:
-            if not rec_b[k, 0] <= rec_a[k, 0] and rec_b[k, 1] >= rec_a[k, 1]:
+            if not (rec_b[k, 0] <= rec_a[k, 0] and rec_b[k, 1] >= rec_a[k, 1]):
                 a += 1
-    if a == 0:
+    # rectangles that only touch at a corner have no rectangular union
+    if a == 0 and len(axs) == 1:
         for i, k in enumerate(axs):
             rec_a[k, dim[i]] = rec_b[k, dim[i]]
     return rec_a
-- 
2.43.0


From b5bf4653f0183478576dc28242173f429b6f330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 14/41] fix: predict with the best rule among those that reach
 the coverage, and abstain when there is none

---
 acv_explainers/utils.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 751b87d..e2f132e 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -987,10 +987,11 @@ def global_rules_model(x_exp, rules, rules_output, rules_coverage, rules_acc, mi
                 y_rule.append(rule)
                 y_S.append(S[i])
 
-        y_weights = np.array(y_weights)
-        if len(y_out) != 0 and np.max(y_weights[np.array(y_coverage) >= min_cov]) >= min_acc:
-            max_weights = np.max(y_weights[np.array(y_coverage) >= min_cov])
-            best_acc = np.argmax(y_weights == max_weights)
+        y_weights = np.array(y_weights, dtype=np.double)
+        # a rule without any training observation has no metric (nan)
+        eligible = np.flatnonzero((np.array(y_coverage) >= min_cov) * ~np.isnan(y_weights))
+        if len(eligible) != 0 and np.max(y_weights[eligible]) >= min_acc:
+            best_acc = eligible[np.argmax(y_weights[eligible])]
 
             y_exp.append(y_out[best_acc])
             rule_exp.append(y_rule[best_acc])
@@ -1021,10 +1022,11 @@ def global_rules_model_reg(x_exp, rules, rules_output, rules_coverage, rules_acc
                 y_rule.append(rule)
                 y_S.append(S[i])
 
-        y_weights = np.array(y_weights)
-        if len(y_out) != 0 and np.min(y_weights[np.array(y_coverage) >= min_cov]) <= min_mse:
-            min_weights = np.min(y_weights[np.array(y_coverage) >= min_cov])
-            best_acc = np.argmax(y_weights == min_weights)
+        y_weights = np.array(y_weights, dtype=np.double)
+        # a rule without any training observation has no metric (nan)
+        eligible = np.flatnonzero((np.array(y_coverage) >= min_cov) * ~np.isnan(y_weights))
+        if len(eligible) != 0 and np.min(y_weights[eligible]) <= min_mse:
+            best_acc = eligible[np.argmin(y_weights[eligible])]
 
             y_exp.append(y_out[best_acc])
             rule_exp.append(y_rule[best_acc])
-- 
2.43.0


From fabbf104c01631c519eba8fc5f22cbe50d7b84d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 15/41] fix: the non-parallel SDP functions use the class
 probabilities of the boosted binary models, like the parallel ones

---
 acv_explainers/acv_tree.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index e7cff29..96efcd4 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -399,6 +399,10 @@ class ACVTree(BaseTree):
                                                             self.max_var,
                                                             self.node_idx_trees, C, num_threads)
 
+    def _clf_values(self):
+        # the boosted binary models have a single output per leaf, values_binary contains one column by class
+        return getattr(self, 'values_binary', self.values)
+
     def importance_sdp_clf_nopa(self, X, data, C=[[]], pi_level=0.9, minimal=0):
         """
                 Same as importance_sdp_clf, but does not use parallelism
@@ -407,7 +411,7 @@ class ACVTree(BaseTree):
         data = check_array(data, dtype=[np.double])
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.global_sdp_clf_nopa(X, fX, y_pred, data, self.values,
+        return cyext_acv_nopa.global_sdp_clf_nopa(X, fX, y_pred, data, self._clf_values(),
                                                   self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb,
                                                   self.scalings, C, pi_level, minimal)
 
@@ -420,7 +424,7 @@ class ACVTree(BaseTree):
         S = column_or_1d(S)
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.compute_sdp_clf_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self.values,
+        return cyext_acv_nopa.compute_sdp_clf_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self._clf_values(),
                                                    self.partition_leaves_trees,
                                                    self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
 
@@ -432,7 +436,7 @@ class ACVTree(BaseTree):
         S = column_or_1d(S)
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.compute_sdp_clf_cat_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self.values,
+        return cyext_acv_nopa.compute_sdp_clf_cat_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self._clf_values(),
                                                        self.partition_leaves_trees,
                                                        self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
 
-- 
2.43.0


From 1741c6076c95e9d4917b91b4083ca22162d62cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 16/41] fix: keep one of identical counterfactual rules and
 remove the contained rule, not the containing one

---
 acv_explainers/utils_cr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index e90cbca..9afdebc 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -799,10 +799,10 @@ def remove_in_wsdp(ra, sa, wa):
         for j in range(ra.shape[0]):
             if i != j and np.prod([(ra[i, s, 1] <= ra[j, s, 1]) * (ra[i, s, 0] >= ra[j, s, 0])
                                    for s in range(ra.shape[1])], axis=0).astype(bool):
-                # ra[i] = ra[j]
-                # sa[i] = sa[j]
-                # wa[i] = wa[j]
-                remove_list.append(j)
+                if np.array_equal(ra[i], ra[j]) and i < j:  # keep the first of the identical rules
+                    continue
+                remove_list.append(i)
+                break
     ra_b = np.delete(ra_b, remove_list, axis=0)
     sa_b = np.delete(sa_b, remove_list, axis=0)
     wa_b = np.delete(wa_b, remove_list, axis=0)
-- 
2.43.0


From 74b9a6ed013796cc83f78aeb9effc93d0c494a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 17/41] fix: CR keeps the model it is given

---
 acv_explainers/counterfactual_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 3853788..10b6741 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -4,7 +4,7 @@ import acv_explainers
 class CR:
 
     def __init__(self, acv_explainer, x_train, x_test, y_train, y_test, columns_name, model=None):
-        self.model = None
+        self.model = model
         self.columns_name = columns_name
         self.acv_explainer = acv_explainer
         self.x_train = x_train
-- 
2.43.0


From b22ae8f0c7f23384c41504b1e31a100e8f16353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 18/41] fix: the local counterfactual rules in regression use
 the requested pi_level

---
 acv_explainers/counterfactual_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 10b6741..c133067 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -94,7 +94,7 @@ class CR:
                                                                                      self.x_train, self.y_train,
                                                                                      self.w_local,
                                                                                      acc_level=acc_level,
-                                                                                     pi_level=acc_level)
+                                                                                     pi_level=pi_level)
 
     def run_sampling_local_counterfactuals(self, x, y_target=None, down=None, up=None, batch=1000, max_iter=1000, temp=0.5):
         if y_target is None:
-- 
2.43.0


From 6b55f538be29f15efa10f81b30e7a439b4610036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 19/41] fix: rank the variables on the trees of the model when
 it has no feature importance

---
 acv_explainers/acv_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 96efcd4..764f9bb 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -968,7 +968,7 @@ class ACVTree(BaseTree):
                 feature_importance = -np.array(self.model.feature_importances_)
                 search_space = list(np.argsort(feature_importance))
             except AttributeError:
-                flat_list = [item for t in self.ACXplainer.node_idx_trees for sublist in t for item in sublist]
+                flat_list = [item for t in self.node_idx_trees for sublist in t for item in sublist]
                 node_idx = pd.Series(flat_list)
                 search_space = []
                 for v in (node_idx.value_counts().keys()):
-- 
2.43.0


From 6fb1a03a69db71f2a38bca3eeb5d73a61ffbee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 20/41] fix: accept the single level t (the default) in the
 projected-forest functions of ACVTree

---
 acv_explainers/acv_tree.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 764f9bb..7d15f5d 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -832,6 +832,13 @@ class ACVTree(BaseTree):
                                             quantile=quantile)
         return exp
 
+    @staticmethod
+    def _sdp_interval(y, t):
+        # a single level of variation t stands for the interval [y - t, y + t] around each target
+        if np.ndim(t) == 0:
+            return np.stack([y - t, y + t], axis=1)
+        return t
+
     def compute_sdp_rf(self, X, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
         """
          Estimate the Same Decision Probability (SDP) of a set of samples X given subset S using the consistent estimator
@@ -865,6 +872,7 @@ class ACVTree(BaseTree):
         except ValueError as exp:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
+        t = self._sdp_interval(y, t)
         sdp = cyext_acv.compute_sdp_rf(X, y, data, y_data, S, self.features, self.thresholds,
                                        self.children_left,
                                        self.children_right, self.max_depth, min_node_size,
@@ -906,6 +914,8 @@ class ACVTree(BaseTree):
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
 
+        if np.ndim(t) == 0:
+            t = np.full(X.shape[0], t, dtype=np.double)
         sdp = cyext_acv.compute_cdf_rf(X, y, data, y_data, S, self.features, self.thresholds, self.children_left,
                                        self.children_right, self.max_depth, min_node_size, classifier, t)
         return sdp
@@ -976,6 +986,7 @@ class ACVTree(BaseTree):
         else:
             search_space = [i for i in range(X.shape[1])]
 
+        t = self._sdp_interval(y, t)
         return cyext_acv.global_sdp_rf(X, y, data, y_data, self.features, self.thresholds,
                                        self.children_left,
                                        self.children_right, self.max_depth, min_node_size,
@@ -1040,6 +1051,7 @@ class ACVTree(BaseTree):
         else:
             search_space = [i for i in range(X.shape[1])]
         # TODO: Remove the [-1] in the Sufficent Coal
+        t = self._sdp_interval(y, t)
         return cyext_acv.sufficient_expl_rf(X, y, data, y_data, self.features, self.thresholds,
                                             self.children_left,
                                             self.children_right, self.max_depth, min_node_size,
@@ -1079,6 +1091,7 @@ class ACVTree(BaseTree):
         except ValueError as exp:
             raise ValueError('{} for X (samples) and S (coalition)'.format(exp))
 
+        t = self._sdp_interval(y, t)
         exp = cyext_acv.compute_exp_rf(X, y, data, y_data, S, self.features, self.thresholds, self.children_left,
                                        self.children_right, self.max_depth, min_node_size, classifier, t)
         return exp
-- 
2.43.0


From 80c55945697ed537218b4f0c52dabf982974885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 21/41] fix: test every column of the leaves in the regression
 search when variables are grouped

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 8 ++++----
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 0a4e7c6..18545b6 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1092,14 +1092,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             for i in prange(data.shape[0], nogil=True):
                                 a_it = 0
                                 b_it = 0
-                                for s in range(m):
+                                for s in range(data.shape[1]):
                                     if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
                                     if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
-                                if a_it == m:
+                                if a_it == data.shape[1]:
                                     lm[i] = 1
 
                                 if b_it == S_size:
@@ -1157,14 +1157,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(data.shape[0], nogil=True):
                                     a_it = 0
                                     b_it = 0
-                                    for s in range(m):
+                                    for s in range(data.shape[1]):
                                         if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
                                         if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
-                                    if a_it == m:
+                                    if a_it == data.shape[1]:
                                         lm[i] = 1
 
                                     if b_it == S_size:
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 21b60fe..c8dbceb 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -1086,14 +1086,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             for i in range(data.shape[0]):
                                 a_it = 0
                                 b_it = 0
-                                for s in range(m):
+                                for s in range(data.shape[1]):
                                     if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
                                     if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
-                                if a_it == m:
+                                if a_it == data.shape[1]:
                                     lm[i] = 1
 
                                 if b_it == S_size:
@@ -1151,14 +1151,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 for i in range(data.shape[0]):
                                     a_it = 0
                                     b_it = 0
-                                    for s in range(m):
+                                    for s in range(data.shape[1]):
                                         if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
                                         if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
-                                    if a_it == m:
+                                    if a_it == data.shape[1]:
                                         lm[i] = 1
 
                                     if b_it == S_size:
-- 
2.43.0


From e47aa03eb297a2063ca9e09de8dc025315e9fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 22/41] fix: clear the end of a longer explanation when a later
 one with fewer columns replaces it

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 22 +++++++++++++++++++++
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx |  6 ++++++
 2 files changed, 28 insertions(+)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 18545b6..a270c20 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -944,6 +944,8 @@ cpdef global_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # to filter (important for coalition)
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -1257,6 +1259,8 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # to filter (important for coalition)
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -3059,6 +3063,8 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # to filter (important for coalition)
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -3244,12 +3250,16 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # to filter (important for coalition)
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # to filter (important for coalition)
+                        s_star[R_buf[i], s] = -1
 
         for i in range(N):
             if sdp[R_buf[i]] >= pi_level:
@@ -3981,6 +3991,8 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # to filter (important for coalition)
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -6183,6 +6195,8 @@ cpdef global_ddp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # to filter (important for coalition)
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -6331,6 +6345,8 @@ cpdef global_sdp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # to filter (important for coalition)
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -6823,6 +6839,8 @@ cpdef global_ddp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # to filter (important for coalition)
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -7349,6 +7367,8 @@ cpdef global_cdp_rf(double[:, :] X, double[::1] y_X, double[::1] DOWN, double[::
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # to filter (important for coalition)
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -7791,6 +7811,8 @@ cpdef global_cdp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # to filter (important for coalition)
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index c8dbceb..20e81f8 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -938,6 +938,8 @@ cpdef global_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # to filter (important for coalition)
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -1251,6 +1253,8 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # to filter (important for coalition)
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -1486,6 +1490,8 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # to filter (important for coalition)
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
-- 
2.43.0


From 77479b7437d5f510ce6ea7fc02424b9e3cd92eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 23/41] fix: accept an empty conditioning set in the Python
 conditional expectations and Active Shapley values

---
 acv_explainers/py_acv.py    | 12 ++++++------
 acv_explainers/utils_exp.py | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index 1928cbf..caea97f 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -238,10 +238,10 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
         for i in va_id:
 
             if not set(convert_list(i)).issubset(node_id):
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
+                comp_si = np.prod([np.ones(x.shape[0])] + [(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in N_star], axis=0)
 
-                lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
+                lm_si = np.sum(np.prod([np.ones(data.shape[0])] + [(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in N_star], axis=0))
 
                 p_si = comp_si * lm / lm_si if lm_si != 0 else comp_si * 0.
@@ -263,18 +263,18 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                         Sm += [c]
             for S in powerset(Sm):
 
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
+                comp_si = np.prod([np.ones(x.shape[0])] + [(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in chain_l(S) + convert_list(i) + N_star], axis=0)
-                comp_s = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
+                comp_s = np.prod([np.ones(x.shape[0])] + [(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                   for s in chain_l(S) + N_star], axis=0)
 
                 coef = 0
                 for l in range(1, d - len(Sm)):
                     coef += comb(d - len(Sm) - 1, l) * comb(d - 1, l + len(S)) ** (-1)
 
-                lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
+                lm_si = np.sum(np.prod([np.ones(data.shape[0])] + [(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in chain_l(S) + convert_list(i) + N_star], axis=0))
-                lm_s = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
+                lm_s = np.sum(np.prod([np.ones(data.shape[0])] + [(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in chain_l(S) + N_star], axis=0))
 
                 p_si = comp_si * lm / lm_si if lm_si != 0 else comp_si * 0.
diff --git a/acv_explainers/utils_exp.py b/acv_explainers/utils_exp.py
index c763b6f..c871ab3 100644
--- a/acv_explainers/utils_exp.py
+++ b/acv_explainers/utils_exp.py
@@ -18,15 +18,15 @@ def compute_exp(X, model, S, data):
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([np.ones(N)] + [(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
             lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
-            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
-                           S], axis=0)
+            p_s = np.prod([np.ones(data.shape[0])] + [(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0])
+                                                      for s in S], axis=0)
 
             p_ss = np.sum(p_s)
             for i, x in enumerate(X):
@@ -52,7 +52,7 @@ def compute_exp_cat(X, model, S, data):
             leaf_part = leaves_tree[leaf_numb]
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([np.ones(N)] + [(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
@@ -64,7 +64,7 @@ def compute_exp_cat(X, model, S, data):
                 if leaf_bool[i] == 0:
                     continue
 
-                p_s = np.prod([data[:, s] == x[s] for s in S], axis=0)
+                p_s = np.prod([np.ones(data.shape[0])] + [data[:, s] == x[s] for s in S], axis=0)
                 p_ss = np.sum(p_s)
 
                 mean_forest[i] += (np.sum(lm * p_s) * value) / p_ss if p_ss != 0 else 0
-- 
2.43.0


From 9ffe2b109f15ce7b4e50e09f0c027c714360fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:52 +0000
Subject: [PATCH 24/41] fix: predict with all the trees of a multi-class
 XGBoost model

---
 acv_explainers/base_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 50e5314..b771341 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -345,6 +345,8 @@ class BaseTree:
             self.tree_limit = getattr(model, "best_ntree_limit", None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+                if self.tree_limit is not None:
+                    self.tree_limit *= xgb_loader.num_class  # one tree per class in each round
             if self.model_output == "predict_proba":
                 if self.num_stacked_models == 1:
                     self.model_output = "probability_doubled"  # with predict_proba we need to double the outputs to match
-- 
2.43.0


From f4ef4ce0171864734d453933df195de9eee25243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 25/41] fix: keep the cross terms of every pair of trees apart
 in the regression SDP

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 142 ++++++++++----------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 142 ++++++++++----------
 2 files changed, 138 insertions(+), 146 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index a270c20..0d47e29 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -479,7 +479,7 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef double value_l
 
     cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    mean_forest_b = np.zeros((n_trees, n_trees, max_leaves, N, 3))
 
     cdef double[:] sdp
     sdp = np.zeros((N))
@@ -495,9 +495,9 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef int b, l, leaf_numb, i, s, j, leaf_numb_l
 
     cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    p_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_u_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_d_n = np.zeros((n_trees, n_trees, max_leaves, N))
     cdef double n, n_u, n_d
 
     for b in range(n_trees):
@@ -554,13 +554,13 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 p_d += lm[j]
                                 p_sd += lm_s[j]
 
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                        p_n[b, leaf_numb, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
-                        p_u_n[b, leaf_numb, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                        p_d_n[b, leaf_numb, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                        p_n[b, b, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
+                        p_u_n[b, b, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                        p_d_n[b, b, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
             else:
                 leaves_tree = partition_leaves_trees[b]
                 nb_leaf = leaves_nb[b]
@@ -619,13 +619,13 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                     p_d += lm[j]
                                     p_sd += lm_s[j]
 
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                            p_n[b, leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                            p_n[b, l, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
+                            p_u_n[b, l, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                            p_d_n[b, l, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
     for i in range(N):
         ss_u = 0
         ss_d = 0
@@ -635,9 +635,9 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
             norm_u[b] = 0
             norm_d[b] = 0
             for leaf_numb in range(leaves_nb[b]):
-                norm[b] += p_n[b, leaf_numb, leaf_numb, i]
-                norm_u[b] += p_u_n[b, leaf_numb, leaf_numb, i]
-                norm_d[b] += p_d_n[b, leaf_numb, leaf_numb, i]
+                norm[b] += p_n[b, b, leaf_numb, i]
+                norm_u[b] += p_u_n[b, b, leaf_numb, i]
+                norm_d[b] += p_d_n[b, b, leaf_numb, i]
         for b in range(n_trees):
             for l in range(n_trees):
                 if b == l:
@@ -646,16 +646,16 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                     n_d = 0
                     nb_leaf = leaves_nb[b]
                     for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, i]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, i]
+                        n += p_n[b, b, leaf_numb, i]
+                        n_u += p_u_n[b, b, leaf_numb, i]
+                        n_d += p_d_n[b, b, leaf_numb, i]
                     norm[b] = n
                     norm_u[b] = n_u
                     norm_d[b] = n_d
                     for leaf_numb in range(nb_leaf):
-                        ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
-                        ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
-                        ss_d += mean_forest_b[b, leaf_numb, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
+                        ss_a += mean_forest_b[b, b, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
+                        ss_u += mean_forest_b[b, b, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
+                        ss_d += mean_forest_b[b, b, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
                 else:
                     nb_leaf = leaves_nb[b]
                     nb_leaf_l = leaves_nb[l]
@@ -664,15 +664,13 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                         n = 0
                         n_u = 0
                         n_d = 0
-                        for leaf_numb_l in range(nb_leaf_l):
-                            n += p_n[b, leaf_numb, leaf_numb_l, i]
-                            n_u += p_u_n[b, leaf_numb, leaf_numb_l, i]
-                            n_d += p_d_n[b, leaf_numb, leaf_numb_l, i]
+                        n += p_n[b, l, leaf_numb, i]
+                        n_u += p_u_n[b, l, leaf_numb, i]
+                        n_d += p_d_n[b, l, leaf_numb, i]
 
-                        for leaf_numb_l in range(nb_leaf_l):
-                            ss_a += (p_n[b, leaf_numb, leaf_numb, i]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  i, 0]/n) if n*norm[b] !=0  else 0
-                            ss_u += (p_u_n[b, leaf_numb, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                            ss_d += (p_d_n[b, leaf_numb, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
+                        ss_a += (p_n[b, b, leaf_numb, i]/norm[b])*(mean_forest_b[b, l, leaf_numb,  i, 0]/n) if n*norm[b] !=0  else 0
+                        ss_u += (p_u_n[b, b, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, l, leaf_numb, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                        ss_d += (p_d_n[b, b, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, l, leaf_numb, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
 
 
         sdp[i] = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -997,7 +995,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
     mean_forest = np.zeros((N, 3))
 
     cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    mean_forest_b = np.zeros((n_trees, n_trees, max_leaves, N, 3))
 
     cdef double[:] sdp
     cdef double[:] sdp_global
@@ -1012,9 +1010,9 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef long[:] S, len_s_star
     len_s_star = np.zeros((N), dtype=np.int)
     cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    p_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_u_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_d_n = np.zeros((n_trees, n_trees, max_leaves, N))
     cdef double n, n_u, n_d
     cdef list power, va_id
 
@@ -1070,14 +1068,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                 R_buf[i] = R[i]
 
             for b in range(n_trees):
-                for leaf_numb in range(max_leaves):
-                    for leaf_numb_l in range(max_leaves):
+                for l in range(n_trees):
+                    for leaf_numb in range(max_leaves):
                         for i in range(N):
-                            p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
+                            p_n[b, l, leaf_numb, R_buf[i]] = 0
+                            p_u_n[b, l, leaf_numb, R_buf[i]] = 0
+                            p_d_n[b, l, leaf_numb, R_buf[i]] = 0
                             for j in range(3):
-                                mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], j] = 0
+                                mean_forest_b[b, l, leaf_numb, R_buf[i], j] = 0
             for b in range(n_trees):
                 for l in range(n_trees):
                     if b == l:
@@ -1132,13 +1130,13 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                         p_d += lm[j]
                                         p_sd += lm_s[j]
 
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                                p_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                p_u_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                p_d_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                                p_n[b, b, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                p_u_n[b, b, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                p_d_n[b, b, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
                     else:
                         leaves_tree = partition_leaves_trees[b]
                         nb_leaf = leaves_nb[b]
@@ -1197,13 +1195,13 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                             p_d += lm[j]
                                             p_sd += lm_s[j]
 
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                                    p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                    p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                    p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                                    p_n[b, l, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                    p_u_n[b, l, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                    p_d_n[b, l, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
             for i in range(N):
                 ss_u = 0
                 ss_d = 0
@@ -1213,9 +1211,9 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                     norm_u[b] = 0
                     norm_d[b] = 0
                     for leaf_numb in range(leaves_nb[b]):
-                        norm[b] += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                        norm_u[b] += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                        norm_d[b] += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        norm[b] += p_n[b, b, leaf_numb, R_buf[i]]
+                        norm_u[b] += p_u_n[b, b, leaf_numb, R_buf[i]]
+                        norm_d[b] += p_d_n[b, b, leaf_numb, R_buf[i]]
                 for b in range(n_trees):
                     for l in range(n_trees):
                         if b == l:
@@ -1224,16 +1222,16 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             n_d = 0
                             nb_leaf = leaves_nb[b]
                             for leaf_numb in range(nb_leaf):
-                                n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                                n += p_n[b, b, leaf_numb, R_buf[i]]
+                                n_u += p_u_n[b, b, leaf_numb, R_buf[i]]
+                                n_d += p_d_n[b, b, leaf_numb, R_buf[i]]
                             norm[b] = n
                             norm_u[b] = n_u
                             norm_d[b] = n_d
                             for leaf_numb in range(nb_leaf):
-                                ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
-                                ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
-                                ss_d += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
+                                ss_a += mean_forest_b[b, b, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
+                                ss_u += mean_forest_b[b, b, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
+                                ss_d += mean_forest_b[b, b, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
                         else:
                             nb_leaf = leaves_nb[b]
                             nb_leaf_l = leaves_nb[l]
@@ -1242,15 +1240,13 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 n = 0
                                 n_u = 0
                                 n_d = 0
-                                for leaf_numb_l in range(nb_leaf_l):
-                                    n += p_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_u += p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_d += p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-
-                                for leaf_numb_l in range(nb_leaf_l):
-                                    ss_a += (p_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
-                                    ss_u += (p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                                    ss_d += (p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
+                                n += p_n[b, l, leaf_numb, R_buf[i]]
+                                n_u += p_u_n[b, l, leaf_numb, R_buf[i]]
+                                n_d += p_d_n[b, l, leaf_numb, R_buf[i]]
+
+                                ss_a += (p_n[b, b, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, l, leaf_numb,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
+                                ss_u += (p_u_n[b, b, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, l, leaf_numb, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                                ss_d += (p_d_n[b, b, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, l, leaf_numb, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
 
 
                 ss = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 20e81f8..9bf1f0a 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -473,7 +473,7 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef double value_l
 
     cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    mean_forest_b = np.zeros((n_trees, n_trees, max_leaves, N, 3))
 
     cdef double[:] sdp
     sdp = np.zeros((N))
@@ -489,9 +489,9 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef int b, l, leaf_numb, i, s, j, leaf_numb_l
 
     cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    p_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_u_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_d_n = np.zeros((n_trees, n_trees, max_leaves, N))
     cdef double n, n_u, n_d
 
     for b in range(n_trees):
@@ -548,13 +548,13 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 p_d += lm[j]
                                 p_sd += lm_s[j]
 
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
-                        mean_forest_b[b, leaf_numb, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, i, 0] += (p * value*value) / (p_s) - (2 * fX[i] * p * value)/(p_s) if p_s != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, i, 1] += (p_u * value*value) / (p_su) - (2 * fX[i] * p_u * value)/(p_su) if p_su != 0 else 0
+                        mean_forest_b[b, b, leaf_numb, i, 2] += (p_d * value*value) / (p_sd) - (2 * fX[i] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                        p_n[b, leaf_numb, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
-                        p_u_n[b, leaf_numb, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                        p_d_n[b, leaf_numb, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                        p_n[b, b, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
+                        p_u_n[b, b, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                        p_d_n[b, b, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
             else:
                 leaves_tree = partition_leaves_trees[b]
                 nb_leaf = leaves_nb[b]
@@ -613,13 +613,13 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                     p_d += lm[j]
                                     p_sd += lm_s[j]
 
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                            mean_forest_b[b, l, leaf_numb, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                            p_n[b, leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                            p_n[b, l, leaf_numb, i] += (1.*p)/p_s if p_s != 0 else 0
+                            p_u_n[b, l, leaf_numb, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                            p_d_n[b, l, leaf_numb, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
     for i in range(N):
         ss_u = 0
         ss_d = 0
@@ -629,9 +629,9 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
             norm_u[b] = 0
             norm_d[b] = 0
             for leaf_numb in range(leaves_nb[b]):
-                norm[b] += p_n[b, leaf_numb, leaf_numb, i]
-                norm_u[b] += p_u_n[b, leaf_numb, leaf_numb, i]
-                norm_d[b] += p_d_n[b, leaf_numb, leaf_numb, i]
+                norm[b] += p_n[b, b, leaf_numb, i]
+                norm_u[b] += p_u_n[b, b, leaf_numb, i]
+                norm_d[b] += p_d_n[b, b, leaf_numb, i]
         for b in range(n_trees):
             for l in range(n_trees):
                 if b == l:
@@ -640,16 +640,16 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                     n_d = 0
                     nb_leaf = leaves_nb[b]
                     for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, i]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, i]
+                        n += p_n[b, b, leaf_numb, i]
+                        n_u += p_u_n[b, b, leaf_numb, i]
+                        n_d += p_d_n[b, b, leaf_numb, i]
                     norm[b] = n
                     norm_u[b] = n_u
                     norm_d[b] = n_d
                     for leaf_numb in range(nb_leaf):
-                        ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
-                        ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
-                        ss_d += mean_forest_b[b, leaf_numb, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
+                        ss_a += mean_forest_b[b, b, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
+                        ss_u += mean_forest_b[b, b, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
+                        ss_d += mean_forest_b[b, b, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
                 else:
                     nb_leaf = leaves_nb[b]
                     nb_leaf_l = leaves_nb[l]
@@ -658,15 +658,13 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                         n = 0
                         n_u = 0
                         n_d = 0
-                        for leaf_numb_l in range(nb_leaf_l):
-                            n += p_n[b, leaf_numb, leaf_numb_l, i]
-                            n_u += p_u_n[b, leaf_numb, leaf_numb_l, i]
-                            n_d += p_d_n[b, leaf_numb, leaf_numb_l, i]
+                        n += p_n[b, l, leaf_numb, i]
+                        n_u += p_u_n[b, l, leaf_numb, i]
+                        n_d += p_d_n[b, l, leaf_numb, i]
 
-                        for leaf_numb_l in range(nb_leaf_l):
-                            ss_a += (p_n[b, leaf_numb, leaf_numb, i]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  i, 0]/n) if n*norm[b] !=0  else 0
-                            ss_u += (p_u_n[b, leaf_numb, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                            ss_d += (p_d_n[b, leaf_numb, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
+                        ss_a += (p_n[b, b, leaf_numb, i]/norm[b])*(mean_forest_b[b, l, leaf_numb,  i, 0]/n) if n*norm[b] !=0  else 0
+                        ss_u += (p_u_n[b, b, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, l, leaf_numb, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                        ss_d += (p_d_n[b, b, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, l, leaf_numb, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
 
 
         sdp[i] = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -991,7 +989,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     mean_forest = np.zeros((N, 3))
 
     cdef double[:, :, :, :, :] mean_forest_b
-    mean_forest_b = np.zeros((n_trees, max_leaves, max_leaves, N, 3))
+    mean_forest_b = np.zeros((n_trees, n_trees, max_leaves, N, 3))
 
     cdef double[:] sdp
     cdef double[:] sdp_global
@@ -1006,9 +1004,9 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef long[:] S, len_s_star
     len_s_star = np.zeros((N), dtype=np.int)
     cdef double[:, :, :, :] p_n, p_u_n, p_d_n
-    p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
-    p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    p_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_u_n = np.zeros((n_trees, n_trees, max_leaves, N))
+    p_d_n = np.zeros((n_trees, n_trees, max_leaves, N))
     cdef double n, n_u, n_d
     cdef list power, va_id
 
@@ -1064,14 +1062,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                 R_buf[i] = R[i]
 
             for b in range(n_trees):
-                for leaf_numb in range(max_leaves):
-                    for leaf_numb_l in range(max_leaves):
+                for l in range(n_trees):
+                    for leaf_numb in range(max_leaves):
                         for i in range(N):
-                            p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
+                            p_n[b, l, leaf_numb, R_buf[i]] = 0
+                            p_u_n[b, l, leaf_numb, R_buf[i]] = 0
+                            p_d_n[b, l, leaf_numb, R_buf[i]] = 0
                             for j in range(3):
-                                mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], j] = 0
+                                mean_forest_b[b, l, leaf_numb, R_buf[i], j] = 0
             for b in range(n_trees):
                 for l in range(n_trees):
                     if b == l:
@@ -1126,13 +1124,13 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                         p_d += lm[j]
                                         p_sd += lm_s[j]
 
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
-                                mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, R_buf[i], 0] += (p * value*value) / (p_s) - (2 * fX[R_buf[i]] * p * value)/(p_s) if p_s != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, R_buf[i], 1] += (p_u * value*value) / (p_su) - (2 * fX[R_buf[i]] * p_u * value)/(p_su) if p_su != 0 else 0
+                                mean_forest_b[b, b, leaf_numb, R_buf[i], 2] += (p_d * value*value) / (p_sd) - (2 * fX[R_buf[i]] * p_d * value)/(p_sd) if p_sd != 0 else 0
 
-                                p_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                p_u_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                p_d_n[b, leaf_numb, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                                p_n[b, b, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                p_u_n[b, b, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                p_d_n[b, b, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
                     else:
                         leaves_tree = partition_leaves_trees[b]
                         nb_leaf = leaves_nb[b]
@@ -1191,13 +1189,13 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                             p_d += lm[j]
                                             p_sd += lm_s[j]
 
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                                    mean_forest_b[b, l, leaf_numb, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                                    p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                    p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                    p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                                    p_n[b, l, leaf_numb, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                    p_u_n[b, l, leaf_numb, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                    p_d_n[b, l, leaf_numb, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
             for i in range(N):
                 ss_u = 0
                 ss_d = 0
@@ -1207,9 +1205,9 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                     norm_u[b] = 0
                     norm_d[b] = 0
                     for leaf_numb in range(leaves_nb[b]):
-                        norm[b] += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                        norm_u[b] += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                        norm_d[b] += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        norm[b] += p_n[b, b, leaf_numb, R_buf[i]]
+                        norm_u[b] += p_u_n[b, b, leaf_numb, R_buf[i]]
+                        norm_d[b] += p_d_n[b, b, leaf_numb, R_buf[i]]
                 for b in range(n_trees):
                     for l in range(n_trees):
                         if b == l:
@@ -1218,16 +1216,16 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             n_d = 0
                             nb_leaf = leaves_nb[b]
                             for leaf_numb in range(nb_leaf):
-                                n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                                n += p_n[b, b, leaf_numb, R_buf[i]]
+                                n_u += p_u_n[b, b, leaf_numb, R_buf[i]]
+                                n_d += p_d_n[b, b, leaf_numb, R_buf[i]]
                             norm[b] = n
                             norm_u[b] = n_u
                             norm_d[b] = n_d
                             for leaf_numb in range(nb_leaf):
-                                ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
-                                ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
-                                ss_d += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
+                                ss_a += mean_forest_b[b, b, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
+                                ss_u += mean_forest_b[b, b, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
+                                ss_d += mean_forest_b[b, b, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
                         else:
                             nb_leaf = leaves_nb[b]
                             nb_leaf_l = leaves_nb[l]
@@ -1236,15 +1234,13 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 n = 0
                                 n_u = 0
                                 n_d = 0
-                                for leaf_numb_l in range(nb_leaf_l):
-                                    n += p_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_u += p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_d += p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-
-                                for leaf_numb_l in range(nb_leaf_l):
-                                    ss_a += (p_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
-                                    ss_u += (p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                                    ss_d += (p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
+                                n += p_n[b, l, leaf_numb, R_buf[i]]
+                                n_u += p_u_n[b, l, leaf_numb, R_buf[i]]
+                                n_d += p_d_n[b, l, leaf_numb, R_buf[i]]
+
+                                ss_a += (p_n[b, b, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, l, leaf_numb,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
+                                ss_u += (p_u_n[b, b, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, l, leaf_numb, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                                ss_d += (p_d_n[b, b, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, l, leaf_numb, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
 
 
                 ss = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
-- 
2.43.0


From 48581809837e27fbaa8bf4e113f057a89a0ea5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 26/41] fix: compare the trees with the prediction without its
 base offset in the regression SDP

---
 acv_explainers/acv_tree.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 7d15f5d..d18831f 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -549,8 +549,8 @@ class ACVTree(BaseTree):
     def compute_sdp_reg(self, X, tX, S, data, num_threads=10):
         # if self.partition_leaves_trees.shape[0] > 1:
         #     raise NotImplementedError('Continuous SDP is currently available only for trees with n_trees=1')
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self.predict(X) - self.base_offset
+        y_pred = self.predict(data) - self.base_offset
         return cyext_acv.compute_sdp_reg(np.array(X, dtype=np.float), fX, tX, y_pred, S, data, self.values,
                                          self.partition_leaves_trees,
                                          self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
@@ -558,8 +558,8 @@ class ACVTree(BaseTree):
     def compute_sdp_reg_cat(self, X, tX, S, data, num_threads=10):
         # raise Warning('The current implementation may take a long time if n_trees and depth are large. The number of '
         #               'operation is 2**(depth*n_trees)')
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self.predict(X) - self.base_offset
+        y_pred = self.predict(data) - self.base_offset
         return cyext_acv.compute_sdp_reg_cat(np.array(X, dtype=np.float), fX, tX, y_pred, S, data, self.values,
                                              self.partition_leaves_trees,
                                              self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
@@ -594,8 +594,8 @@ class ACVTree(BaseTree):
                                       C, thresholds, num_threads)
 
     def importance_sdp_reg_cat(self, X, tX, data, C=[[]], pi_level=0.9, minimal=0, stop=True):
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self.predict(X) - self.base_offset
+        y_pred = self.predict(data) - self.base_offset
         return cyext_acv.global_sdp_reg_cat(np.array(X, dtype=np.float), fX, tX, y_pred, data, self.values,
                                             self.partition_leaves_trees,
                                             self.leaf_idx_trees, self.leaves_nb, self.scalings, C, pi_level,
@@ -604,15 +604,15 @@ class ACVTree(BaseTree):
     def importance_sdp_reg(self, X, tX, data, C=[[]], pi_level=0.9, minimal=0, stop=True):
         # if self.partition_leaves_trees.shape[0] > 1:
         #     raise NotImplementedError('Continuous SDP is currently available only for trees with n_trees=1')
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self.predict(X) - self.base_offset
+        y_pred = self.predict(data) - self.base_offset
         return cyext_acv.global_sdp_reg(np.array(X, dtype=np.float), fX, tX, y_pred, data, self.values,
                                         self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb,
                                         self.scalings, C, pi_level, minimal, stop)
 
     def importance_sdp_reg_cat_nopa(self, X, tX, data, C=[[]], pi_level=0.9, minimal=0):
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self.predict(X) - self.base_offset
+        y_pred = self.predict(data) - self.base_offset
         return cyext_acv_nopa.global_sdp_reg_cat_nopa(np.array(X, dtype=np.float), fX, tX, y_pred, data, self.values,
                                                       self.partition_leaves_trees,
                                                       self.leaf_idx_trees, self.leaves_nb, self.scalings, C,
@@ -621,8 +621,8 @@ class ACVTree(BaseTree):
     def importance_sdp_reg_nopa(self, X, tX, data, C=[[]], pi_level=0.9, minimal=0):
         # if self.partition_leaves_trees.shape[0] > 1:
         #     raise NotImplementedError('Continuous SDP is currently available only for trees with n_trees=1')
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self.predict(X) - self.base_offset
+        y_pred = self.predict(data) - self.base_offset
         return cyext_acv_nopa.global_sdp_reg_nopa(np.array(X, dtype=np.float), fX, tX, y_pred, data, self.values,
                                                   self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb,
                                                   self.scalings, C, pi_level, minimal)
@@ -707,16 +707,16 @@ class ACVTree(BaseTree):
     def compute_sdp_reg_nopa(self, X, tX, S, data, num_threads=10):
         # if self.partition_leaves_trees.shape[0] > 1:
         #     raise NotImplementedError('Continuous SDP is currently available only for trees with n_trees=1')
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self.predict(X) - self.base_offset
+        y_pred = self.predict(data) - self.base_offset
         return cyext_acv_nopa.compute_sdp_reg_nopa(np.array(X, dtype=np.float), fX, tX, y_pred, S, data, self.values,
                                                    self.partition_leaves_trees,
                                                    self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
 
     def compute_sdp_reg_cat_nopa(self, X, tX, S, data, num_threads=10):
         # raise Warning('The current implementation may take a long time if n_trees > 10 and depth > 6')
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self.predict(X) - self.base_offset
+        y_pred = self.predict(data) - self.base_offset
         return cyext_acv_nopa.compute_sdp_reg_cat_nopa(np.array(X, dtype=np.float), fX, tX, y_pred, S, data,
                                                        self.values, self.partition_leaves_trees,
                                                        self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
-- 
2.43.0


From 3c93179e27e866a0704343da523bcab4ef4bfa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:55 +0000
Subject: [PATCH 27/41] fix: Swing values: keep the leaves incompatible with
 the player in the coalition without it, guard its normalisation, use the
 class probabilities of boosted models

---
 acv_explainers/acv_tree.py                  |  6 +++---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 18 ++++++++----------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 18 ++++++++----------
 3 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index d18831f..2e9bdd8 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -567,7 +567,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf(self, X, data, C=[[]], thresholds=0.9, num_threads=10):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv.swing_sv_clf_direct(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv.swing_sv_clf_direct(np.array(X, dtype=np.float), fX, y_pred, data, self._clf_values(),
                                              self.partition_leaves_trees,
                                              self.leaf_idx_trees, self.leaves_nb, self.scalings, C, thresholds,
                                              num_threads)
@@ -575,7 +575,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf_nopa(self, X, data, C=[[]], thresholds=0.9, num_threads=10):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.swing_sv_clf_direct_nopa(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv_nopa.swing_sv_clf_direct_nopa(np.array(X, dtype=np.float), fX, y_pred, data, self._clf_values(),
                                                        self.partition_leaves_trees,
                                                        self.leaf_idx_trees, self.leaves_nb, self.scalings, C,
                                                        thresholds, num_threads)
@@ -589,7 +589,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf_slow(self, X, data, C=[[]], thresholds=0.9, num_threads=5):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv.swing_sv_clf(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv.swing_sv_clf(np.array(X, dtype=np.float), fX, y_pred, data, self._clf_values(),
                                       self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings,
                                       C, thresholds, num_threads)
 
diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 0d47e29..6fa3bc1 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -2327,8 +2327,6 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
 
                     if nv_bool == 0:
                         csm = 1
-                    else:
-                        continue
 
 
                 p = 0
@@ -2436,9 +2434,9 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     ss_u += mean_forest[b, leaf_numb, i, 1]/n_u if n_u !=0 else 0
                     ss_d += mean_forest[b, leaf_numb, i, 2]/n_d if n_d !=0 else 0
 
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
 
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
             ss = (ss_a - ss_d)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -2452,7 +2450,7 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                 sdp[i] = 0
             elif (ss >= thresholds and ss_m < thresholds):
                 sdp[i] = -1
-    elif S_size == 0:
+    elif S_size == 0 and len_va_id[va] != m:
         ss = 0
         for i in range(N):
             ss_u_m = 0
@@ -2469,9 +2467,9 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     n_d_m += p_d_n_m[b, leaf_numb, i]
 
                 for leaf_numb in range(max_leaves):
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
 
             if (ss < thresholds and ss_m < thresholds):
@@ -2503,7 +2501,7 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     ss_a += mean_forest[b, leaf_numb, i, 0]/n if n !=0 else 0
                     ss_u += mean_forest[b, leaf_numb, i, 1]/n_u if n_u !=0 else 0
                     ss_d += mean_forest[b, leaf_numb, i, 2]/n_d if n_d !=0 else 0
-            ss = (ss_a - ss_d)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
+            ss = (ss_a - ss_d)/(ss_u - ss_d) if S_size != 0 and ss_u - ss_d !=0 else 0
 
             if (ss < thresholds and ss_m < thresholds):
                 sdp[i] = 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 9bf1f0a..8196704 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3302,8 +3302,6 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
 
                     if nv_bool == 0:
                         csm = 1
-                    else:
-                        continue
 
 
                 p = 0
@@ -3411,9 +3409,9 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     ss_u += mean_forest[b, leaf_numb, i, 1]/n_u if n_u !=0 else 0
                     ss_d += mean_forest[b, leaf_numb, i, 2]/n_d if n_d !=0 else 0
 
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
 
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
             ss = (ss_a - ss_d)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -3427,7 +3425,7 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                 sdp[i] = 0
             elif (ss >= thresholds and ss_m < thresholds):
                 sdp[i] = -1
-    elif S_size == 0:
+    elif S_size == 0 and len_va_id[va] != m:
         ss = 0
         for i in range(N):
             ss_u_m = 0
@@ -3444,9 +3442,9 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     n_d_m += p_d_n_m[b, leaf_numb, i]
 
                 for leaf_numb in range(max_leaves):
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
 
             if (ss < thresholds and ss_m < thresholds):
@@ -3478,7 +3476,7 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     ss_a += mean_forest[b, leaf_numb, i, 0]/n if n !=0 else 0
                     ss_u += mean_forest[b, leaf_numb, i, 1]/n_u if n_u !=0 else 0
                     ss_d += mean_forest[b, leaf_numb, i, 2]/n_d if n_d !=0 else 0
-            ss = (ss_a - ss_d)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
+            ss = (ss_a - ss_d)/(ss_u - ss_d) if S_size != 0 and ss_u - ss_d !=0 else 0
 
             if (ss < thresholds and ss_m < thresholds):
                 sdp[i] = 0
-- 
2.43.0


From c2b6d242f3b20e2eabd7d1c2df91826f5b0c0da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:49 +0000
Subject: [PATCH 28/41] fix: clear the end of a longer marginal explanation
 when one with fewer columns replaces it

---
 acv_explainers/utils_sdp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acv_explainers/utils_sdp.py b/acv_explainers/utils_sdp.py
index cec2b4d..5cf0be6 100644
--- a/acv_explainers/utils_sdp.py
+++ b/acv_explainers/utils_sdp.py
@@ -459,6 +459,8 @@ def importance_msdp_clf_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -578,6 +580,8 @@ def importance_msdp_reg_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]):
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
-- 
2.43.0


From de7e442c85ae2d2bb1b123b04cb998a8d0d12355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:29 +0000
Subject: [PATCH 29/41] fix: leave the leaves of xgboost and catboost trees out
 of the splits of the projected forest

---
 acv_explainers/base_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index b771341..1103f35 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -565,7 +565,9 @@ class BaseTree:
                 self.children_left[i, :len(self.trees[i].children_left)] = self.trees[i].children_left
                 self.children_right[i, :len(self.trees[i].children_right)] = self.trees[i].children_right
                 self.children_default[i, :len(self.trees[i].children_default)] = self.trees[i].children_default
-                self.features[i, :len(self.trees[i].features)] = self.trees[i].features
+                # a leaf tests no column, although some libraries (xgboost, catboost) store one
+                self.features[i, :len(self.trees[i].features)] = np.where(self.trees[i].children_left < 0, -2,
+                                                                          self.trees[i].features)
                 self.thresholds[i, :len(self.trees[i].thresholds)] = self.trees[i].thresholds
                 if self.num_stacked_models > 1:
                     # stack_pos = int(i // (num_trees / self.num_stacked_models))
-- 
2.43.0


From 89f5ac12924f7aa68f519b882f8b56c0fd36336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 30/41] fix: build the trees of an isolation forest fitted on
 one column

---
 acv_explainers/base_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 1103f35..b761df7 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1184,7 +1184,7 @@ class IsoTree(SingleTree):
                 self.values = (self.values.T / self.values.sum(1)).T
             self.values = self.values * scaling
             # re-number the features if each tree gets a different set of features
-            self.features = np.where(self.features >= 0, tree_features[self.features], self.features)
+            self.features = np.where(self.features >= 0, tree_features[np.maximum(self.features, 0)], self.features)
 
 
 def get_xgboost_json(model):
-- 
2.43.0


From a0e864a48b70515f3135730a4649e63a99952dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 31/41] fix: the regional counterfactual probability of a class
 counts the observations of that class, like the local one

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 6fa3bc1..a4494be 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -7626,7 +7626,7 @@ cdef double single_compute_cdp_intv_rule_weights(double[:] & x, double & y_x,  d
         if classifier == 1:
             it = in_data.begin()
             while(it != in_data.end()):
-                sdp  += (1./(n_trees*in_data.size())) * (y_x != y_data[deref(it)])
+                sdp  += (1./(n_trees*in_data.size())) * (y_x == y_data[deref(it)])
                 w[deref(it)] += (1./(n_trees*in_data.size()))
                 inc(it)
         else:
-- 
2.43.0


From cb4d00bfa584a8a448eee9ffe30a040c19f100b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 32/41] fix: global rules: pair each rule with the columns of
 the same rule, not of one that is close to it

---
 acv_explainers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index e2f132e..052442d 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -1096,7 +1096,7 @@ def unique_rules_s_star(rules, rules_output):
     for i in range(rules_unique.shape[0]):
         rule = rules_unique[i]
         for j in range(rules.shape[0]):
-            if np.allclose(rule, rules[j]):
+            if np.array_equal(rule, rules[j]):
                 rules_unique_output.append(rules_output[j])
                 break
     return rules_unique, rules_unique_output
-- 
2.43.0


From 22195730f0ffbe1b80e425c0204021bf7c23d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 33/41] fix: weigh the regional divergent set with the rule on
 its complement

importance_cdp_intv looks for S such that the prediction diverges when X_S is
missing and the other variables stay in the rule; compute_cdp_intv_weights follows
the rule outside its argument S.  run_regional_divergent_set gave it the complement,
so ddp_regional was not the probability of the divergent set and w_regional was not
the leaf given the rule of the complement.
---
 acv_explainers/counterfactual_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index c133067..00712c9 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -177,7 +177,7 @@ class CR:
                                                                                          self.x_train, self.y_train,
                                                                                          cond=self.rules,
                                                                                          t=self.down_up,
-                                                                                         S=self.S_bar_set_regional)
+                                                                                         S=self.S_star_regional)
 
     def run_regional_counterfactual_rules(self, acc_level=0.8, pi_level=0.8,  p_best=0.85, n_try=100,
                                   batch=100, max_iter=100, temp=1, max_iter_convergence=100):
-- 
2.43.0


From 7fa3e5d023f42090cd187fac9900d81de9cbb004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 34/41] fix: fit the outlier score before sampling with the
 regional rules

isolation is (None, None) unless the local sampling ran before.
---
 acv_explainers/counterfactual_rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 00712c9..fa6a089 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -208,6 +208,8 @@ class CR:
         down = self.down_up[:, 0]
         up = self.down_up[:, 1]
         print('### Sampling using the regional counterfactual rules')
+        self.isolation = IsolationForest()
+        self.isolation.fit(self.x_train)
         outlier_score = lambda x: self.isolation.decision_function(x)
         self.dist_regional = []
         self.score_regional = []
@@ -247,6 +249,8 @@ class CR:
         up = self.down_up[:, 1]
 
         print('### Sampling using the regional counterfactual rules')
+        self.isolation = IsolationForest()
+        self.isolation.fit(self.x_train)
         outlier_score = lambda x: self.isolation.decision_function(x)
 
         self.dist_regional = []
-- 
2.43.0


From 07bf1e1bb50bbc340665d61417b43cbaee152a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 35/41] fix: sample the counterfactuals of all the test
 observations with their own rule

The sampling was given the first variable of the counterfactual rule instead of the
rule (IndexError), the interval of another rule in regression, and the first rule
for the observations that no rule holds.
---
 acv_explainers/counterfactual_rules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index fa6a089..50cad11 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -274,10 +274,10 @@ class CR:
         for i in tqdm(range(self.x_test.shape[0])):
             xi = self.x_test[i]
             best_id = best_counterfactuals[i]
-            if len(self.counterfactuals_samples_regional[best_id]) != 0:
+            if x_test_pb[best_id, i] > 0:  # otherwise no rule holds the observation
                 a, sco = simulated_annealing(outlier_score, xi, self.S_star_regional[best_id], self.x_train,
                                              self.counterfactuals_samples_regional[best_id][
-                                                 np.argmax(self.counterfactuals_samples_sdp_regional[best_id])][0],
+                                                 np.argmax(self.counterfactuals_samples_sdp_regional[best_id])],
                                              batch, max_iter, temp)
                 self.dist_regional.append(np.squeeze(a))
                 self.score_regional.append(sco)
@@ -286,7 +286,7 @@ class CR:
                         self.dist_regional[-1].reshape(1, -1)) != self.acv_explainer.predict(xi.reshape(1, -1)))
                 else:
                     self.errs_regional.append(
-                        down[i] <= self.acv_explainer.predict(self.dist_regional[-1].reshape(1, -1)) <= up[i])
+                        down[best_id] <= self.acv_explainer.predict(self.dist_regional[-1].reshape(1, -1)) <= up[best_id])
 
                 if self.model != None:
                     self.errs_regional_original.append(self.model.predict(
-- 
2.43.0


From 67036db220aa73cb16cd3f64aa6bdfe20aef6e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 36/41] fix: local counterfactual rules: use the options of the
 rule growth in regression too

p_best, n_try, batch, max_iter, temp and max_iter_convergence were accepted and ignored.
---
 acv_explainers/counterfactual_rules.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 50cad11..7f390c1 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -94,7 +94,12 @@ class CR:
                                                                                      self.x_train, self.y_train,
                                                                                      self.w_local,
                                                                                      acc_level=acc_level,
-                                                                                     pi_level=pi_level)
+                                                                                     pi_level=pi_level,
+                                                                                     p_best=p_best, n_try=n_try,
+                                                                                     batch=batch, max_iter=max_iter,
+                                                                                     temp=temp,
+                                                                                     max_iter_convergence=max_iter_convergence
+                                                                                     )
 
     def run_sampling_local_counterfactuals(self, x, y_target=None, down=None, up=None, batch=1000, max_iter=1000, temp=0.5):
         if y_target is None:
-- 
2.43.0


From cb93ec96ac11f9ddf56c1534181b7a9e384e18a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 37/41] fix: LightGBM trees of a single leaf, dumped without an
 index, made the whole model unreadable

---
 acv_explainers/base_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index b761df7..7becbcd 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -956,6 +956,8 @@ class SingleTree:
 
         elif type(tree) == dict and 'tree_structure' in tree:  # LightGBM model dump
             start = tree['tree_structure']
+            if 'split_index' not in start:  # a single leaf, dumped with its value only
+                start = dict({'leaf_index': 0, 'leaf_count': 0}, **start)
             num_parents = tree['num_leaves'] - 1
             self.children_left = np.empty((2 * num_parents + 1), dtype=np.int32)
             self.children_right = np.empty((2 * num_parents + 1), dtype=np.int32)
-- 
2.43.0


From af73e5fe4e475d7f76ce4bf34b645e5e4c4b19d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 38/41] fix: a multi-class LightGBM Booster was read as a
 single sum of the trees of all classes

---
 acv_explainers/base_tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 7becbcd..202db3e 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -383,7 +383,10 @@ class BaseTree:
             assert_import("lightgbm")
             self.model_type = "lightgbm"
             self.original_model = model
-            tree_info = self.original_model.dump_model()["tree_info"]
+            dump = self.original_model.dump_model()
+            tree_info = dump["tree_info"]
+            if dump["num_tree_per_iteration"] > 1:  # one tree per class in each round
+                self.num_stacked_models = dump["num_tree_per_iteration"]
             try:
                 self.trees = [SingleTree(e, data=data, data_missing=data_missing) for e in tree_info]
             except:
-- 
2.43.0


From 9cf8d1f5b0acd465a08a7a82dd3251914483035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 39/41] fix: NGBoost models could not be read: the output
 parameter was left undefined

---
 acv_explainers/base_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 202db3e..fa1c7b0 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -492,8 +492,8 @@ class BaseTree:
                                                                                   "ngboost.api.NGBRegressor") or safe_isinstance(
             model, "ngboost.api.NGBClassifier"):
             assert model.base_models, "The NGBoost model has empty `base_models`! Have you called `model.fit`?"
+            param_idx = 0  # default to the first parameter of the output distribution
             if self.model_output == "raw":
-                param_idx = 0  # default to the first parameter of the output distribution
                 warnings.warn(
                     "Translating model_ouput=\"raw\" to model_output=0 for the 0-th parameter in the distribution. Use model_output=0 directly to avoid this warning.")
             elif type(self.model_output) is int:
-- 
2.43.0


From 5e0fe33456354ed4c4f6489bfbf0b97cfb42d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 40/41] fix: accept the single level t (the default) in the
 projected-forest functions of ACVTreeAgnostic, as in ACVTree

---
 acv_explainers/acv_tree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 2e9bdd8..d7e90fc 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -1147,11 +1147,14 @@ class ACVTreeAgnostic(BaseTree):
                                           threshold=threshold, r_search_space=r_search_space, stop=stop)
 
     def compute_cdf_rf(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
+        if np.ndim(t) == 0:
+            t = np.full(x.shape[0], t, dtype=np.double)
         sdp = cyext_acv.compute_cdf_rf(x, y, data, y_data, S, self.features, self.thresholds, self.children_left,
                                        self.children_right, self.max_depth, min_node_size, classifier, t)
         return sdp
 
     def compute_sdp_rf(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
+        t = ACVTree._sdp_interval(y, t)
         sdp = cyext_acv.compute_sdp_rf(x, y, data, y_data, S, self.features, self.thresholds, self.children_left,
                                        self.children_right, self.max_depth, min_node_size, classifier, t)
         return sdp
@@ -1162,6 +1165,7 @@ class ACVTreeAgnostic(BaseTree):
         return sdp
 
     def compute_sdp_rule(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
+        t = ACVTree._sdp_interval(y, t)
         sdp, rules = cyext_acv.compute_sdp_rule(x, y, data, y_data, S, self.features, self.thresholds,
                                                 self.children_left,
                                                 self.children_right, self.max_depth, min_node_size, classifier, t)
@@ -1181,6 +1185,7 @@ class ACVTreeAgnostic(BaseTree):
         return sdp, rules
 
     def compute_sdp_maxrules(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20, pi=0.95):
+        t = ACVTree._sdp_interval(y, t)
         sdp, rules, sdp_all, rules_data, w = cyext_acv.compute_sdp_maxrule(x, y, data, y_data, S, self.features,
                                                                            self.thresholds, self.children_left,
                                                                            self.children_right, self.max_depth,
@@ -1224,6 +1229,7 @@ class ACVTreeAgnostic(BaseTree):
 
     def importance_sdp_rf(self, x, y, data, y_data, min_node_size=5, classifier=1, t=20,
                           C=[[]], pi_level=0.9, minimal=1, stop=True):
+        t = ACVTree._sdp_interval(y, t)
 
         if x.shape[1] > 10:
 
@@ -1259,6 +1265,7 @@ class ACVTreeAgnostic(BaseTree):
         return sdp
 
     def compute_exp_rf(self, x, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
+        t = ACVTree._sdp_interval(y, t)
         exp = cyext_acv.compute_exp_rf(x, y, data, y_data, S, self.features, self.thresholds, self.children_left,
                                        self.children_right, self.max_depth, min_node_size, classifier, t)
         return exp
@@ -1279,6 +1286,7 @@ class ACVTreeAgnostic(BaseTree):
 
     def sufficient_expl_rf(self, x, y, data, y_data, min_node_size=5, classifier=1, t=20,
                            C=[[]], pi_level=0.9, minimal=1, stop=True):
+        t = ACVTree._sdp_interval(y, t)
 
         if x.shape[1] > 10:
 
-- 
2.43.0


From fe00e4a807966ea89622f6fdc8c1bdce0725d02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 41/41] fix: a leaf tests no column in the trees of the model
 either (SHAFF estimates of XGBoost models dropped rows at the leaves)

---
 acv_explainers/base_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index fa1c7b0..aa3e0e6 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -569,8 +569,8 @@ class BaseTree:
                 self.children_right[i, :len(self.trees[i].children_right)] = self.trees[i].children_right
                 self.children_default[i, :len(self.trees[i].children_default)] = self.trees[i].children_default
                 # a leaf tests no column, although some libraries (xgboost, catboost) store one
-                self.features[i, :len(self.trees[i].features)] = np.where(self.trees[i].children_left < 0, -2,
-                                                                          self.trees[i].features)
+                self.trees[i].features = np.where(self.trees[i].children_left < 0, -2, self.trees[i].features)
+                self.features[i, :len(self.trees[i].features)] = self.trees[i].features
                 self.thresholds[i, :len(self.trees[i].thresholds)] = self.trees[i].thresholds
                 if self.num_stacked_models > 1:
                     # stack_pos = int(i // (num_trees / self.num_stacked_models))
-- 
2.43.0

