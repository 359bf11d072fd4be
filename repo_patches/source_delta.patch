From ea8db62d590b8562f7282682a296146e08fa8b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 01/50] fix: GrayCodeWalls.is_motion_valid tests the opening
 into the next cube, not the goal cube

---
 nonasymptotic/envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index ae0cf4e..a631862 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -673,7 +673,7 @@ class GrayCodeWalls(Environment):
 
             # compute shared opening on path:
             start_cube_center = start_cube + np.ones(self.dim) * 0.5
-            next_cube_center = goal_cube + np.ones(self.dim) * 0.5
+            next_cube_center = next_cube + np.ones(self.dim) * 0.5
             between_cubes_point = (start_cube_center + next_cube_center) / 2
 
             # solve for point at cube opening.
-- 
2.43.0


From b1eea57ecfa3baeb88f62384e498a6d0cd35cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 02/50] fix: GrayCodeWalls.is_motion_valid judges the last leg
 in the cube it entered

---
 nonasymptotic/envs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index a631862..3d6502d 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -695,7 +695,8 @@ class GrayCodeWalls(Environment):
             start_cube = next_cube  # this needs to be done so we don't get trapped in the same cube
 
         # if start and goal are in the same cube, then return true because cubes are convex
-        return self.distance_to_wall(start) >= 0.0 and self.distance_to_wall(goal) >= 0.0
+        # (start may lie on the opening just entered, so we specify its cube explicitly)
+        return self._distance_to_wall_in_cube(start_cube, start) >= 0.0 and self.distance_to_wall(goal) >= 0.0
 
     def is_prm_epsilon_delta_complete(self, prm, tol):
         raise NotImplementedError('Not done yet!')
-- 
2.43.0


From 28831445261ad28ffcac92c8012287d6bc770d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 03/50] fix: NarrowPassage reference curve lives in dim
 dimensions and spans the passage

---
 nonasymptotic/envs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index 3d6502d..9b902c6 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -402,7 +402,7 @@ class NarrowPassage(Environment):
         ]
 
         self.dim = dim
-        self.line_dir = np.array([1.0] + [0.0] * self.dim)
+        self.line_dir = np.array([1.0] + [0.0] * (self.dim - 1))
 
         # (see is motion valid for definition of lines)
         self.coll_lines = [
@@ -423,7 +423,7 @@ class NarrowPassage(Environment):
 
     def arclength_to_curve_point(self, t_normed):
         t = np.clip(t_normed, 0.0, 1.0)
-        point_on_curve = np.array([-0.5] + [0.0] * self.dim)
+        point_on_curve = np.array([-0.5] + [0.0] * (self.dim - 1))
         point_on_curve[0] += t
         return point_on_curve
 
@@ -459,7 +459,8 @@ class NarrowPassage(Environment):
         raise NotImplementedError
 
     def distance_to_path(self, points):
-        proj_points_clipped = np.clip(points[:, 0], 0.0, 1.0).reshape(-1, 1)
+        # the curve runs through the passage, from -0.5 to 0.5 in the first axis
+        proj_points_clipped = np.clip(points[:, 0], -0.5, 0.5).reshape(-1, 1)
         return np.linalg.norm(points - proj_points_clipped * self.line_dir, axis=1)
 
     @property
-- 
2.43.0


From b8472762833a92eaf8cf65e53be992f181833b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 04/50] fix: GrayCodeWalls curve enters the last cube through
 its opening

---
 nonasymptotic/envs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index 9b902c6..3f9ea25 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -620,10 +620,11 @@ class GrayCodeWalls(Environment):
             t_point = np.ones(self.dim) * 0.5
             t_point[-1] += t
         elif t_leg == 1 + 2 * (len(self.no_walls_linear_list) - 2) + 1:
-            cube_coords = np.array(self.no_walls_linear_list[-1])
+            cube = self.no_walls_linear_list[-1]
             t_backup = 0.5 - (t - (t_leg - 1) * 0.5)
-            t_point = cube_coords + np.ones(self.dim) * 0.5
-            t_point[-1] += t_backup
+            t_point = np.array(cube) + np.ones(self.dim) * 0.5
+            pred_cube = self.no_walls_graph.predecessors(cube).__next__()
+            t_point += t_backup * (np.array(pred_cube) - np.array(cube))
 
         else:
             cube = self.no_walls_linear_list[int(t_leg / 2)]
-- 
2.43.0


From 70c882f3ead8c02eb6e92fd53f160993428b051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 05/50] fix: detect_intersect reports collinear segments only
 where they overlap

---
 nonasymptotic/util.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/util.py b/nonasymptotic/util.py
index 5aefcd2..4312e24 100644
--- a/nonasymptotic/util.py
+++ b/nonasymptotic/util.py
@@ -37,7 +37,15 @@ def detect_intersect(s1e1, s1e2, s2e1, s2e2):
     # then do some vectorized casework (we're really going to rely on some numpy ufunc stuff)
 
     # first, check for collinearity (avoid some bad numerical cases we'd miss)
-    is_collinear = np.equal(cross_dir, 0.0) & np.equal(intersect_coeff_unnormed2, 0.0)
+    # collinear segments only meet if their extents overlap on every axis
+    extents_overlap = np.all(
+        (np.minimum(s1e1, s1e2) <= np.maximum(s2e1, s2e2)) & (np.minimum(s2e1, s2e2) <= np.maximum(s1e1, s1e2)),
+        axis=1
+    )
+    # if segment 1 is a single point, then it has no direction, so check if it is on the line of segment 2
+    is_point1 = np.all(np.equal(s1_dir, 0.0), axis=1)
+    is_on_line = np.where(is_point1, np.equal(intersect_coeff_unnormed1, 0.0), np.equal(intersect_coeff_unnormed2, 0.0))
+    is_collinear = np.equal(cross_dir, 0.0) & is_on_line & extents_overlap
 
     # next, check parallel  (avoid some bad numerics)
     # not actually necessary because of nice numpy numerics handling
-- 
2.43.0


From ea1fd5c1f7a72e0546e4062d071287b8b6fc8d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 06/50] fix: polygon sampler keeps its outside marker outside
 of the polygon

---
 nonasymptotic/sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/sampler.py b/nonasymptotic/sampler.py
index c1b3573..9e63d28 100644
--- a/nonasymptotic/sampler.py
+++ b/nonasymptotic/sampler.py
@@ -94,10 +94,10 @@ def random_point_in_mpolygon(mpolygon, rng=None, vis=False):
         'vertices': vertices,
         'segments': segments,
         'holes': np.concatenate([
-            np.array([[-100.0, -100.0]]),
+            np.array([mpolygon.bounds[:2]]) - 1.0,
             interior_points
         ])
-        # put a point that will always be outside because of boundedness of input space
+        # put a point that will always be outside (beyond the lower corner of the bounding box)
     }
 
     triangle_out = tr.triangulate(data, 'p')  # so the boundaries are included in the triangulation
-- 
2.43.0


From 6fa0432921a6aa54f759daadd75a60b30de3b556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 07/50] fix: sample search bisects on integers, so it ends for
 counts beyond 2^53

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 101c9f0..089dfb8 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -118,7 +118,7 @@ def doubling_sample_search_over_log2_prob_bound(samples_to_log2_prob, success_pr
         elif m_samples_ub <= m_samples_lb:
             raise ArithmeticError('Something wrong happened.')
 
-        test_samples = int((m_samples_lb + m_samples_ub) / 2)
+        test_samples = (m_samples_lb + m_samples_ub) // 2
         # test if the tester is the sample count we're looking for
         cand_gamma = samples_to_log2_prob(test_samples)
         next_gamma = samples_to_log2_prob(test_samples + 1)
-- 
2.43.0


From 5a9e0d02fadece9df8840529d51f5d05541aa0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 08/50] fix: compute_net_radius_from_prob keeps the factor two
 of the sample bound

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 089dfb8..8c2a3a2 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -72,7 +72,7 @@ def compute_net_radius_from_prob(dim, n_samples, failure_prob, vol_env, ad_hoc_m
 
     return (
             (2 / n_samples / measure_unit_sphere)
-            * (math.log2(ss_comb_sum) - math.log2(failure_prob))
+            * (math.log2(ss_comb_sum) + 1 - math.log2(failure_prob))
     ) ** (1 / dim)
 
 
-- 
2.43.0


From 152abe788417512e886e7177e7731c474c33af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 09/50] fix: Hoeffding mean variant scales the relative
 deviation by the ball measure

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 8c2a3a2..c1020b2 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -212,7 +212,7 @@ def compute_tail_knn_radius_log_prob_hoeffding_mean_variant(m_samples, k_neighbo
     # all points will land in it and mess everything up)
     # but preserving some monotonicity properties of the prob bound
     tail_val = np.maximum(tail_val, 0.0)
-    log_p_fail = np.log(m_samples) - 2 * (m_samples - 1) * tail_val ** 2 / (p_r_ball ** 2)
+    log_p_fail = np.log(m_samples) - 2 * (m_samples - 1) * tail_val ** 2 * (p_r_ball ** 2)
     return log_p_fail
 
 
-- 
2.43.0


From 2adfc13ca5d0a7b60d798b89e450529e4a835ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 10/50] fix: compute_eff_conn_rad_bound does not cap the unit
 ball measure

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index c1020b2..4c1cc55 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -293,7 +293,7 @@ def compute_eff_conn_rad_bound(m_samples, k_neighbors, dim, vol_env, failure_pro
     """
     Computes the expression provided in Corollary 1.
     """
-    measure_unit_sphere = np.minimum(compute_vol_unit_sphere(dim) / vol_env, 1.0)
+    measure_unit_sphere = compute_vol_unit_sphere(dim) / vol_env
     numer = k_neighbors - np.sqrt(2 * k_neighbors * (np.log(m_samples) - np.log(failure_prob)))
     denom = (m_samples - 1) * measure_unit_sphere
     return math.pow(numer / denom, 1 / dim)
-- 
2.43.0


From b3a766e821f942aac199b1162069b12175502efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 11/50] fix: SimpleRadiusPRM keeps edges within its radius from
 the first growth on

---
 nonasymptotic/prm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 9a6bc40..4e6c644 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -562,7 +562,8 @@ class SimpleRadiusPRM(SimplePRM):
 
             # apply a doubling scheme for connection neighbors to obtain the threshold graph
             adj_arr, dists_arr, self.ann = _build_threshold_index(self._samples)
-            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr)
+            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
+                                                                           threshold_rad=self.conn_r)
 
         else:  # otherwise, we (try to) reuse past computation
             past_n_samples = self._samples.shape[0]
-- 
2.43.0


From bf4ad6ae017c8de0f251820b84bd342ed390f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 12/50] fix: SimpleRadiusPRM adds vertices up to the sample
 count after queries

---
 nonasymptotic/prm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 4e6c644..b98fe0a 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -579,7 +579,8 @@ class SimpleRadiusPRM(SimplePRM):
             # check to make sure we are still within threshold. if not, we need to build a new graph with
             # new neighbors
             if np.all(dists_arr[:, -1] > self.conn_r) or self.k_neighbors >= self.max_k_neighbors:
-                self.prm_graph.addNodes(m_new_samples)
+                # queries leave unused vertex ids behind; merging restores those below n_samples
+                self.prm_graph.addNodes(max(0, n_samples - self.prm_graph.upperNodeIdBound()))
                 g_new_conns = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
                                                                                include_starting=past_n_samples,
                                                                                threshold_rad=self.conn_r)
-- 
2.43.0


From cdcf3085e1dd308d2a5a3b5333396e5e45c988e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 13/50] fix: SimpleRadiusPRM doubles neighbors until its radius
 is covered when growing, too

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index b98fe0a..78d67fd 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -588,7 +588,7 @@ class SimpleRadiusPRM(SimplePRM):
 
             else:
                 self.k_neighbors *= 2  # a bit hacky, but a way to make sure we don't recompute the graph at the same K
-                adj_arr, dists_arr = self.ann.new_graph_from_data(self.prm_samples, self.k_neighbors)
+                adj_arr, dists_arr, self.ann = _build_threshold_index(self._samples)
                 self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
                                                                                threshold_rad=self.conn_r)
 
-- 
2.43.0


From 6ce4aa34204b40e7e3279c143255070b981a3f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 14/50] fix: SimpleNearestNeighborRadiusPRM removes edges after
 iterating over them

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 78d67fd..84de338 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -459,7 +459,7 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
 
         # then iterate over and remove the edges that are too large
-        for u, v, w in self._g_prm.iterEdgesWeights():
+        for u, v, w in list(self._g_prm.iterEdgesWeights()):
             if w >= new_conn_r:
                 self._g_prm.removeEdge(u, v)
 
-- 
2.43.0


From dd6a23e89e4f447a5feb3fdb4b9d270e3198ee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 15/50] fix: set_nearest_neighbors keeps an edge that one of
 its ends lists among its nearest

---
 nonasymptotic/prm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 84de338..41f7d3c 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -436,7 +436,9 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         throw_away_edge_list = self.master_edges[:, new_k_nearest_neighbors:]
         for u, vs in enumerate(throw_away_edge_list):
             for v in vs:
-                if self._g_prm.hasEdge(u, v):
+                # the edge stays if v still lists u
+                if (self._g_prm.hasEdge(u, v)
+                        and u not in self.master_edges[v, :new_k_nearest_neighbors]):
                     self._g_prm.removeEdge(u, v)
 
         self.k_neighbors = new_k_nearest_neighbors
-- 
2.43.0


From 6ab683c915a8d7f03e8d890fcae743488d2de7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 16/50] fix: SimpleNearestNeighborRadiusPRM keeps its radius
 when it refuses to shrink

---
 nonasymptotic/prm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 41f7d3c..f171156 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -363,8 +363,6 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
 
     def grow_to_n_samples(self, n_samples):
 
-        self.conn_r = None  # clear the connection radius
-
         if self._samples is None:  # if new, initialize everything
             self._samples = np.zeros((n_samples, self.d))
 
@@ -386,6 +384,8 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
 
             self._samples = np.concatenate([self._samples, new_samples])
 
+        self.conn_r = None  # clear the connection radius
+
         # build the index
         # if we are growing the graph, it means that a previous check with a larger radius worked.
         # so know the PRM is complete for a larger radius, so we can lose NNs losslessly.
-- 
2.43.0


From 171f4f75bb1255d8910441bfa8947efc31302abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 17/50] fix: SimpleFullConnRadiusPRM refuses graph distances
 instead of returning an exception

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index f171156..5fd84bf 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -308,7 +308,7 @@ class SimpleFullConnRadiusPRM(SimplePRM):
         return ids_within_conn_r[valid_motions], dists_from_query[within_conn_r][valid_motions]
 
     def _distance_in_graph(self, starts, goals):
-        return NotImplementedError('Cannot compute graph distance efficiently with this version.')
+        raise NotImplementedError('Cannot compute graph distance efficiently with this version.')
 
     @property
     def prm_graph(self) -> nk.Graph:
-- 
2.43.0


From 1a3af560c514032eb63805e6da5fba2df0a69410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 18/50] fix: roadmap vertices are never connected to themselves

---
 nonasymptotic/prm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 5fd84bf..a10a5ee 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -131,7 +131,8 @@ class SimplePRM(ABC):
         goals = _edge_arr[include_starting:, :].flatten(order='C')
         dists = _dist_arr[include_starting:, :].flatten(order='C')
 
-        within_conn_r = dists <= threshold_rad
+        # (some indices list a point as its own neighbor)
+        within_conn_r = (dists <= threshold_rad) & (starts != goals)
 
         starts_within_conn_r, goals_within_conn_r, dists_within_conn_r = (starts[within_conn_r],
                                                                           goals[within_conn_r],
@@ -242,7 +243,7 @@ class SimpleFullConnRadiusPRM(SimplePRM):
 
         # compute distances appropriately.
         dists = np.linalg.norm(inner_loop_elts - outer_loop_elts, axis=1)
-        within_conn_r = dists <= self.conn_r
+        within_conn_r = (dists <= self.conn_r) & (outer_loop_args != inner_loop_args)
 
         starts_in_range, goals_in_range = outer_loop_args[within_conn_r], inner_loop_args[within_conn_r]
         dists_in_range = dists[within_conn_r]
-- 
2.43.0


From 40ecb83000f4e0753a2b3e0e5d15468535c70357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 19/50] fix: KGraphANN removes its text dump once parsed

---
 nonasymptotic/ann.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/ann.py b/nonasymptotic/ann.py
index e93e176..10a3264 100644
--- a/nonasymptotic/ann.py
+++ b/nonasymptotic/ann.py
@@ -60,7 +60,9 @@ class KGraphANN(ApproximateNearestNeighbor):
         nn_index.save_text(self.save_txt_path)
 
         # parse the text file and return
-        lines = open(self.save_txt_path, 'r').readlines()
+        with open(self.save_txt_path, 'r') as handle:
+            lines = handle.readlines()
+        os.remove(self.save_txt_path)
 
         # line 0 has the number of nodes. so skip that.
         # line i corresponds to row i-1 in the input data.
-- 
2.43.0


From 646d0c2a22b414cbfe3284fca2948bdfdd94b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 20/50] fix: knn radius trial seeds its environment instead of
 stretching it

---
 exps/run_knn_radius_trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index c2c712d..5b947ec 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -13,7 +13,7 @@ from nonasymptotic.ann import get_ann
 
 
 def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_seed):
-    env = StraightLine(dim, delta_clear, rng_seed)
+    env = StraightLine(dim, delta_clear, seed=rng_seed)
     knn_builder = get_ann("kgraph")
     record = []
 
-- 
2.43.0


From 544cd66ef771852ed761f32bd02eb37007bdecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 21/50] fix: knn radius trial skips neighbor counts that its
 samples cannot have

---
 exps/run_knn_radius_trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 5b947ec..4962115 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -31,7 +31,7 @@ def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_s
         build_time = graph_build_et - graph_build_st
 
         for nn in neighbor_schedule:
-            if nn > s:
+            if nn >= s:
                 break
             effective_rad = np.min(dist_list[:, nn - 1])
             record.append(
-- 
2.43.0


From 4431aeff8da81c3c241d8a9abed8692c98d1a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 22/50] fix: resumed knn and line experiments skip completed
 tasks, not rows

---
 exps/run_knn_radius_trial.py               | 5 ++++-
 exps/run_straight_line_optimality_trial.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 4962115..0a034cc 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -75,7 +75,10 @@ rng = np.random.default_rng(seed=task_id)
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
 if os.path.exists(df_save_path):
     all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-    tasks = tasks[all_tasks_record_df.shape[0]:]  # skip ahead if we have completed entries
+
+    # there is one seed per task, so we can count unique seeds to see by how many we need to skip ahead.
+    n_seeds = all_tasks_record_df['seed'].unique().shape[0]
+    tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
 else:
     all_tasks_record_df = None
 
diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index 3d3442c..f6cbc22 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -172,7 +172,10 @@ rng = np.random.default_rng(seed=task_id)
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
 if os.path.exists(df_save_path):
     all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-    tasks = tasks[all_tasks_record_df.shape[0]:]  # skip ahead if we have completed entries
+
+    # there is one seed per task, so we can count unique seeds to see by how many we need to skip ahead.
+    n_seeds = all_tasks_record_df['seed'].unique().shape[0]
+    tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
 else:
     all_tasks_record_df = None
 
-- 
2.43.0


From b479ee5f909142771a5605b9c32ff2a12f783945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 23/50] fix: resumed experiments continue the seed sequence

---
 exps/run_knn_radius_trial.py               | 1 +
 exps/run_narrow_passage_clearance_trial.py | 1 +
 exps/run_straight_line_optimality_trial.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 0a034cc..192c00c 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -78,6 +78,7 @@ if os.path.exists(df_save_path):
 
     # there is one seed per task, so we can count unique seeds to see by how many we need to skip ahead.
     n_seeds = all_tasks_record_df['seed'].unique().shape[0]
+    rng.integers(0, 2 ** 32, size=n_seeds)  # drop the seeds already used
     tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
 else:
     all_tasks_record_df = None
diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index f0578ec..bac346e 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -261,6 +261,7 @@ if __name__ == '__main__':
         # there is one seed per 'master' task, so we can count unique seeds to
         # see by how many we need to skip ahead.
         n_seeds = all_tasks_record_df['seed'].unique().shape[0]
+        rng.integers(0, 2 ** 32, size=n_seeds)  # drop the seeds already used
         tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
     else:
         all_tasks_record_df = None
diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index f6cbc22..7ec59c3 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -175,6 +175,7 @@ if os.path.exists(df_save_path):
 
     # there is one seed per task, so we can count unique seeds to see by how many we need to skip ahead.
     n_seeds = all_tasks_record_df['seed'].unique().shape[0]
+    rng.integers(0, 2 ** 32, size=n_seeds)  # drop the seeds already used
     tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
 else:
     all_tasks_record_df = None
-- 
2.43.0


From b660b8e17c655ace53274ec61ff7ac7234ad2a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 24/50] fix: experiments replace their result file in one step

---
 exps/run_knn_radius_trial.py               | 4 +++-
 exps/run_narrow_passage_clearance_trial.py | 4 +++-
 exps/run_straight_line_optimality_trial.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 192c00c..15979c6 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -101,4 +101,6 @@ for _dim, _trial in tasks:
         all_tasks_record_df = pd.concat([all_tasks_record_df, trial_record_df])
 
     # we output intermediate results just to see progress.
-    all_tasks_record_df.to_csv(df_save_path)
+    # replacing the file in one step, so an interruption never leaves a half-written one.
+    all_tasks_record_df.to_csv(df_save_path + '.tmp')
+    os.replace(df_save_path + '.tmp', df_save_path)
diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index bac346e..03f506f 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -287,4 +287,6 @@ if __name__ == '__main__':
             all_tasks_record_df = pd.concat([all_tasks_record_df, trial_record_df])
 
         # we output intermediate results just to see progress.
-        all_tasks_record_df.to_csv(df_save_path)
+        # replacing the file in one step, so an interruption never leaves a half-written one.
+        all_tasks_record_df.to_csv(df_save_path + '.tmp')
+        os.replace(df_save_path + '.tmp', df_save_path)
diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index 7ec59c3..8f6608a 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -200,4 +200,6 @@ for _dim, _trial in tasks:
         all_tasks_record_df = pd.concat([all_tasks_record_df, trial_record_df])
 
     # we output intermediate results just to see progress.
-    all_tasks_record_df.to_csv(df_save_path)
+    # replacing the file in one step, so an interruption never leaves a half-written one.
+    all_tasks_record_df.to_csv(df_save_path + '.tmp')
+    os.replace(df_save_path + '.tmp', df_save_path)
-- 
2.43.0


From 6ea63f7d885d31e19d81426ee5242b98ad676601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 25/50] fix: narrow passage trial records all columns when no
 connections are made

---
 exps/run_narrow_passage_clearance_trial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index 03f506f..99eda7e 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -74,6 +74,8 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
                  n_samples,
                  np.nan,
                  np.nan,
+                 np.nan,
+                 0,
                  build_runtime,
                  0,
                  'no connections made',
-- 
2.43.0


From 1ac1e4130d2cee06e3bcf2fe9a1e9c6eebd3daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 26/50] fix: resuming looks for the very name, not for its
 prefix

---
 exps/submit_and_run_experiment_job.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/submit_and_run_experiment_job.py b/exps/submit_and_run_experiment_job.py
index 4e3b488..e88b301 100644
--- a/exps/submit_and_run_experiment_job.py
+++ b/exps/submit_and_run_experiment_job.py
@@ -90,7 +90,7 @@ if __name__ == "__main__":
 
     else:  # for resuming, we just launch the corresponding script
         try:
-            dirs_with_exp_name = glob.glob('./results/%s*' % args.name)
+            dirs_with_exp_name = glob.glob('./results/%s_%s-%s' % (glob.escape(args.name), '[0-9]' * 8, '[0-9]' * 6))
             dirs_with_exp_name.sort(key=os.path.getmtime)
             latest_exp_path = dirs_with_exp_name[-1]
             submit_script_path = os.path.join(latest_exp_path, 'submit_job.sh')
-- 
2.43.0


From 1ae27cdebac1f56cb490e750e862137babff48f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 27/50] fix: submission stops when its config file is missing

---
 exps/submit_and_run_experiment_job.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exps/submit_and_run_experiment_job.py b/exps/submit_and_run_experiment_job.py
index e88b301..f964690 100644
--- a/exps/submit_and_run_experiment_job.py
+++ b/exps/submit_and_run_experiment_job.py
@@ -70,6 +70,7 @@ if __name__ == "__main__":
 
         except FileNotFoundError:
             print("Could not find the config file '%s'." % args.config_path)
+            sys.exit(1)
 
         # generate the submission script (and store in experiment directory)
         script_name = 'run_straight_line_trial.py' if args.type == 'line' else 'run_knn_radius_trial.py'
-- 
2.43.0


From df35285cc2517174bf373f92778f3873e9dd73f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 28/50] fix: aggregation does not read its own output

---
 exps/aggregate_runtimes_for_tuning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/aggregate_runtimes_for_tuning.py b/exps/aggregate_runtimes_for_tuning.py
index a262b52..0016224 100644
--- a/exps/aggregate_runtimes_for_tuning.py
+++ b/exps/aggregate_runtimes_for_tuning.py
@@ -17,7 +17,7 @@ if __name__ == '__main__':
     exp_dirs.sort(key=os.path.getmtime)
     latest_exp_dir = exp_dirs[-1]
 
-    mini_out_csvs = glob.glob(latest_exp_dir + '/out*.csv')
+    mini_out_csvs = [p for p in glob.glob(latest_exp_dir + '/out*.csv') if not p.endswith('_agg_out.csv')]
     mini_out_dfs = list(map(lambda p: pd.read_csv(p, index_col=0), mini_out_csvs))
     big_out = pd.concat(mini_out_dfs)
 
-- 
2.43.0


From 29b612f9654cb2f6d0260b3e9254239492e480f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 29/50] fix: narrow passage trial only records a connection
 setting as failed if it was tested

---
 exps/run_narrow_passage_clearance_trial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index 99eda7e..ec0ec49 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -54,13 +54,13 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
             prm.k_neighbors = prm.max_k_neighbors  # reset the conn setting from whatever it was from bin search
             prm.grow_to_n_samples(n_samples)
             nn_ks = 2 ** np.arange(2, round(math.log2(max_connections)) + 1)
-            i_conn_lb = 0
+            i_conn_lb = -1  # nothing has failed yet
             i_conn_ub = nn_ks.size - 1
         else:
             prm.conn_r = prm.max_conn_r  # reset the conn setting from whatever it was from bin search
             nn_rads = prm.grow_to_n_samples(n_samples)  # nn_rads is ordered ascending
             nn_rads = np.unique(nn_rads)
-            i_conn_lb = 0
+            i_conn_lb = -1 if nn_rads.size > 1 else 0  # nothing has failed yet
             i_conn_ub = nn_rads.size - 1  # we're sticking to integers so we can maximize code sharing
 
         end_t = time.time()
@@ -147,7 +147,7 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
                 info = 'something went wrong... rad_lb is not supposed to be >= rad_ub and we have more than one conn'
                 break
 
-            i_conn_test = int((i_conn_lb + i_conn_ub) / 2)
+            i_conn_test = (i_conn_lb + i_conn_ub) // 2
 
             # now, we split based on PRM time again
             if prm_type == 'knn':
@@ -170,7 +170,7 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
         end_t = time.time()
         check_runtime = end_t - start_t
 
-        if not np.isnan(i_conn_lb):
+        if not np.isnan(i_conn_lb) and i_conn_lb >= 0:
             failed_conn = nn_ks[i_conn_lb] if prm_type == 'knn' else nn_rads[i_conn_lb]
         else:
             failed_conn = np.nan
-- 
2.43.0


From ab37a2df284dcaa325d22b6da5780c27ec7c3eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 30/50] fix: neighbour count can be set in experiment mode
 before any radius

---
 nonasymptotic/prm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index a10a5ee..30da43c 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -447,8 +447,10 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         if self.in_mp_exp_mode:
             # recompute shortest paths over new graph and store their distances
             n_samples = self._samples.shape[0]
+            # (queries use the certified radius if none was set)
+            query_r = self.conn_r if self.conn_r is not None else self.certified_max_conn_r
             dist_samples_to_line = self.dist_points_to_path(self._samples)
-            samples_within_conn_r = np.arange(n_samples)[dist_samples_to_line <= self.conn_r]
+            samples_within_conn_r = np.arange(n_samples)[dist_samples_to_line <= query_r]
             self.g_sp_lookup, self.sample_to_lookup_ind = self._compute_spsp(samples_within_conn_r)
 
     def set_connection_radius(self, new_conn_r):
-- 
2.43.0


From f30d9c1ff3f9f580293e6b5eadd67c639114e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:57 +0000
Subject: [PATCH 31/50] fix: reloading the full roadmap keeps the other setting
 in force

---
 nonasymptotic/prm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 30da43c..821edbd 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -432,6 +432,9 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         # if we need to grow the graph, then reload the master graph.
         if new_k_nearest_neighbors > self.k_neighbors:
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
+            # a connection radius that was set still holds
+            if self.conn_r is not None:
+                self.set_connection_radius(self.conn_r)
 
         # next, throw away edges we don't need.
         throw_away_edge_list = self.master_edges[:, new_k_nearest_neighbors:]
@@ -462,6 +465,8 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         # if we are growing the radius, we need to reload the master graph
         if self.conn_r is not None and new_conn_r > self.conn_r:
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
+            # a number of neighbors that was set still holds
+            self.set_nearest_neighbors(self.k_neighbors)
 
         # then iterate over and remove the edges that are too large
         for u, v, w in list(self._g_prm.iterEdgesWeights()):
-- 
2.43.0


From f5760651cade2698177ecf3184c2c8cf5b36f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 32/50] fix: narrow passage trial with a single connection asks
 at the largest radius

---
 exps/run_narrow_passage_clearance_trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index ec0ec49..ffc283a 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -125,7 +125,7 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
                 # the only instance for this to come up if there is only one connecting pair in a radius prm
                 # (which happens)
                 if prm_type == 'radius' and i_conn_lb == i_conn_ub:
-                    prm.set_connection_radius(nn_rads[-1])
+                    prm.set_connection_radius(max_connections)
                     dist, path = prm.query_best_solution(query_start, query_end)
                     path_len = len(path)
 
-- 
2.43.0


From c2a0c8fc3f67dfdf596833c3f9fb2478b774c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 33/50] fix: narrow passage trial without connections still
 asks for a path

---
 exps/run_narrow_passage_clearance_trial.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index ffc283a..ab44e68 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -66,16 +66,24 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
         end_t = time.time()
         build_runtime = end_t - start_t
 
+        # corrector to ensure problem is challenging throughout
+        corrector = np.ones(dim) * 0.5 - delta_clear
+
+        query_start = np.array([-1.0] + [0.0] * (dim - 1)) - corrector
+        query_end = np.array([1.0] + [0.0] * (dim - 1)) + corrector
+
         if prm_type == 'radius' and nn_rads.size == 0:
+            # a single sample may still join the start and the goal
+            dist, path = prm.query_best_solution(query_start, query_end)
             result_record.append(
                 (prm_type,
                  dim,
                  delta_clear,
                  n_samples,
                  np.nan,
-                 np.nan,
-                 np.nan,
-                 0,
+                 max_connections if len(path) else np.nan,
+                 dist if len(path) else np.nan,
+                 len(path),
                  build_runtime,
                  0,
                  'no connections made',
@@ -85,12 +93,6 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
 
         # binary search down to radius
 
-        # corrector to ensure problem is challenging throughout
-        corrector = np.ones(dim) * 0.5 - delta_clear
-
-        query_start = np.array([-1.0] + [0.0] * (dim - 1)) - corrector
-        query_end = np.array([1.0] + [0.0] * (dim - 1)) + corrector
-
         start_t = time.time()
         threshold_path_dist = np.nan
         threshold_path_len = np.nan
-- 
2.43.0


From 01d03dc1c976c1189d4baa6f5912bdd745fb4244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 34/50] fix: batched separating axis test uses all axes of
 polygons with different vertex counts

---
 exps/tamp_environment/turtlebot_move/separating_axis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/turtlebot_move/separating_axis.py b/exps/tamp_environment/turtlebot_move/separating_axis.py
index 3352aa6..a84f999 100644
--- a/exps/tamp_environment/turtlebot_move/separating_axis.py
+++ b/exps/tamp_environment/turtlebot_move/separating_axis.py
@@ -126,8 +126,10 @@ def vec_separating_axis_theorem(polygons_a, polygons_b):
     axes_b = vec_normalize(vec_orthogonal(edges_b))
     results = np.ones(batch_size, dtype=bool)
 
-    for i in range(polygons_a.shape[1]):  
-        axis = np.concatenate([axes_a[:, [i], :], axes_b[:, [i], :]], axis=1)
+    # (the polygons may have different numbers of vertices)
+    axes = np.concatenate([axes_a, axes_b], axis=1)
+    for i in range(axes.shape[1]):
+        axis = axes[:, [i], :]
         projection_a = vec_project(polygons_a, axis)
         projection_b = vec_project(polygons_b, axis)
         overlapping = vec_overlap(projection_a, projection_b)
-- 
2.43.0


From 60b408cfa43a0f0168fe85b0f5b98b12922cf8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 35/50] fix: half extents belong to the axes of the box in the
 oriented box test

---
 exps/tamp_environment/kuka_carry/separating_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/kuka_carry/separating_axis.py b/exps/tamp_environment/kuka_carry/separating_axis.py
index e1563d5..eeb9117 100644
--- a/exps/tamp_environment/kuka_carry/separating_axis.py
+++ b/exps/tamp_environment/kuka_carry/separating_axis.py
@@ -46,7 +46,7 @@ def compute_vertices_vectorized(centers, half_extents, orientations):
     signs = np.array([[-1, -1, -1], [-1, -1, 1], [-1, 1, -1], [-1, 1, 1],
                       [1, -1, -1], [1, -1, 1], [1, 1, -1], [1, 1, 1]])
     vertices = centers[:, np.newaxis, :] + np.sum(
-        half_extents[:, np.newaxis, :, np.newaxis] * signs[np.newaxis, :, np.newaxis, :] * orientations[:, np.newaxis, :, :],
+        half_extents[:, np.newaxis, np.newaxis, :] * signs[np.newaxis, :, np.newaxis, :] * orientations[:, np.newaxis, :, :],
         axis=-1
     )
     return vertices
-- 
2.43.0


From f535031aa9af30f3cf27cdf752eed91ddad956cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 36/50] fix: bound plot imports the sample bound from where it
 is

---
 exps/tamp_environment/turtlebot_move/bound_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/turtlebot_move/bound_plot.py b/exps/tamp_environment/turtlebot_move/bound_plot.py
index 63fb471..a44be54 100644
--- a/exps/tamp_environment/turtlebot_move/bound_plot.py
+++ b/exps/tamp_environment/turtlebot_move/bound_plot.py
@@ -1,4 +1,4 @@
-from nonasymptotic.util import compute_numerical_bound
+from nonasymptotic.bound import compute_numerical_bound
 import numpy as np
 import matplotlib.pyplot as plt
 import os
-- 
2.43.0


From 63fecefa37a67ad4fe6a8b575689307e504b7161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 37/50] fix: to_pose reads all three angles

---
 exps/tamp_environment/kuka_carry/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index b16cee2..6d49615 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -114,7 +114,7 @@ def to_flat(pose):
     return list(pose[0])+list(pbu.euler_from_quat(pose[1]))
 
 def to_pose(flat):
-    return pbu.Pose(pbu.Point(*flat[:3]), pbu.Euler(flat[3:]))
+    return pbu.Pose(pbu.Point(*flat[:3]), pbu.Euler(*flat[3:]))
 
 def get_insert_motion_gen(robot, 
                           body_aabb_map = {},
-- 
2.43.0


From 73b1dcd54cf95f0738eb7bedeb0d2e1ff8d0e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 38/50] fix: planar motion stream spends its whole sample
 budget and always grows

---
 exps/tamp_environment/turtlebot_move/streams.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/exps/tamp_environment/turtlebot_move/streams.py b/exps/tamp_environment/turtlebot_move/streams.py
index 790ae18..2a29657 100644
--- a/exps/tamp_environment/turtlebot_move/streams.py
+++ b/exps/tamp_environment/turtlebot_move/streams.py
@@ -168,14 +168,15 @@ def get_anytime_motion_fn(problem,
         assert prm_env_2d.is_motion_valid(np.expand_dims(start, axis=0), np.expand_dims(start, axis=0)), "Start in collision"
         assert prm_env_2d.is_motion_valid(np.expand_dims(goal, axis=0), np.expand_dims(goal, axis=0)), "Goal in collision"
 
-        num_samples = min_samples
-        while(num_samples<max_samples+1):
+        num_samples = min(min_samples, max_samples)
+        while(True):
             print("Num samples: "+str(int(num_samples)))
             prm.grow_to_n_samples(int(num_samples))
             _, path = prm.query_best_solution(start, goal)
-            if(len(path)>0):
+            if(len(path)>0 or num_samples>=max_samples):
                 break
-            num_samples = num_samples*factor
+            # at least one more sample, and the whole budget at last
+            num_samples = min(max(num_samples*factor, int(num_samples)+1), max_samples)
 
 
         print("Path: "+str(path))
-- 
2.43.0


From 0e1cc0d5c3c76273c81f6aada221f80a51fef2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 39/50] fix: insertion stream spends its whole sample budget
 and always grows

---
 exps/tamp_environment/kuka_carry/run.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 6d49615..3193729 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -178,8 +178,8 @@ def get_insert_motion_gen(robot,
         assert prm_env_2d.is_motion_valid(end_vec, end_vec), "Goal in collision"
         
 
-        num_samples = min_samples
-        while(num_samples<max_samples+1):
+        num_samples = min(min_samples, max_samples)
+        while(True):
             print("Num samples: "+str(int(num_samples)))
             prm.grow_to_n_samples(int(num_samples))
 
@@ -191,9 +191,10 @@ def get_insert_motion_gen(robot,
             print("End: "+str(end_vec))
             _, path = prm.query_best_solution(start_vec, end_vec)
 
-            if(len(path)>0):
+            if(len(path)>0 or num_samples>=max_samples):
                 break
-            num_samples = num_samples*factor
+            # at least one more sample, and the whole budget at last
+            num_samples = min(max(num_samples*factor, int(num_samples)+1), max_samples)
         
         
         print("Path: "+str(path))
-- 
2.43.0


From 9bf58491856e7eae3a38b5fc98acc025700d97ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 40/50] fix: planar environment accepts an empty batch of
 motions

---
 exps/tamp_environment/turtlebot_move/streams.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exps/tamp_environment/turtlebot_move/streams.py b/exps/tamp_environment/turtlebot_move/streams.py
index 2a29657..8ec75fa 100644
--- a/exps/tamp_environment/turtlebot_move/streams.py
+++ b/exps/tamp_environment/turtlebot_move/streams.py
@@ -89,6 +89,8 @@ class BagOfBoundingBoxes(Environment):
     def is_motion_valid(self, start, goal):
 
         valids = np.ones(start.shape[0]).astype(bool)
+        if start.shape[0] == 0:
+            return valids
         start_exp  = np.tile(np.expand_dims(start, axis=1), (1, self.robot_verts.shape[0], 1))
         goal_exp  = np.tile(np.expand_dims(goal, axis=1), (1, self.robot_verts.shape[0], 1))
         robot_start_verts = np.tile(np.expand_dims(self.robot_verts, axis=0), (start.shape[0], 1, 1)) + start_exp
-- 
2.43.0


From 7ec050d27bf082f579d1c891b168fb83542a5c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 41/50] fix: insertion environment accepts an empty batch of
 motions

---
 exps/tamp_environment/kuka_carry/run.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 3193729..7b38b21 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -76,6 +76,8 @@ class BagOfBoundingBoxes(Environment):
     
     def is_motion_valid(self, start, goal):
         valids = np.ones(start.shape[0]).astype(bool)
+        if start.shape[0] == 0:
+            return valids
         obb_interps = []
         # print(start.shape[0])
         num_steps = int(np.max(np.linalg.norm(start-goal, axis=1))/0.03)
-- 
2.43.0


From f1498ac72b90ab1564b00a32e33ff6325e9e3332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 42/50] fix: insertion stream no longer skips waypoints the arm
 cannot reach

---
 exps/tamp_environment/kuka_carry/run.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 7b38b21..2e049a1 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -235,10 +235,12 @@ def get_insert_motion_gen(robot,
             pbu.set_pose(body, pose)
             body_pose = BodyPose(body, pose)
             conf = get_ik_fn(robot, body, body_pose, grasp, randomize=False, teleport=teleport)
-            if(conf is not None):
-                conf_path.append(conf.values)
-                conf_joints = conf.joints
-                grasp.assign()
+            if(conf is None):
+                # without this waypoint the motion is not the one that was checked
+                return None
+            conf_path.append(conf.values)
+            conf_joints = conf.joints
+            grasp.assign()
 
         command = Command(
             [BodyPath(robot, conf_path, joints=conf_joints, attachments=[grasp])]
-- 
2.43.0


From 1967a8f64515dd165f8ec6571a46b076d834fd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 43/50] fix: a configuration without values takes the current
 ones

---
 exps/tamp_environment/turtlebot_move/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/turtlebot_move/problems.py b/exps/tamp_environment/turtlebot_move/problems.py
index 007de12..2f2cb5c 100644
--- a/exps/tamp_environment/turtlebot_move/problems.py
+++ b/exps/tamp_environment/turtlebot_move/problems.py
@@ -30,7 +30,7 @@ class Conf:
     
     def __post_init__(self):
         if(self.values is None):
-            get_joint_positions(self.body, self.joints)
+            self.values = get_joint_positions(self.body, self.joints)
 
     @property
     def bodies(self):  # TODO: misnomer
-- 
2.43.0


From ebf86c42036ad72564ffab98d5c98706cfe56bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:01 +0000
Subject: [PATCH 44/50] fix: insertion stream returns the motion it checked,
 not one an approach above it

---
 exps/tamp_environment/kuka_carry/run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 2e049a1..67f29a4 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -233,7 +233,8 @@ def get_insert_motion_gen(robot,
         for el in whole_path:
             pose = pbu.Pose(pbu.Point(*el[:3]), pbu.Euler(*el[3:]))
             pbu.set_pose(body, pose)
-            body_pose = BodyPose(body, pose)
+            # (get_ik_fn stops short of the pose it is given by the approach of the grasp)
+            body_pose = BodyPose(body, pbu.multiply(pbu.invert(grasp.approach_pose), pose))
             conf = get_ik_fn(robot, body, body_pose, grasp, randomize=False, teleport=teleport)
             if(conf is None):
                 # without this waypoint the motion is not the one that was checked
-- 
2.43.0


From dad6a797d078f3a15e5456bccd0bb9bd4b663dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 45/50] fix: growth factor of the robot experiments may be
 given on the command line

---
 exps/tamp_environment/kuka_carry/run.py     | 2 +-
 exps/tamp_environment/turtlebot_move/run.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 67f29a4..2141f39 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -614,7 +614,7 @@ def main():
     parser = argparse.ArgumentParser()
     parser.add_argument('--min-samples', default=500, type=int, help='Max num samples for motion planning')
     parser.add_argument('--max-samples', default=30000, type=int, help='Max num samples for motion planning')
-    parser.add_argument('--factor', default=1.1, type=int, help='The rate at which we geometrically expand from min-samples to max-samples')
+    parser.add_argument('--factor', default=1.1, type=float, help='The rate at which we geometrically expand from min-samples to max-samples')
     parser.add_argument('--delta', default=0.04, type=float, help='Difference between the hallway width and the largest object that needs to fit thorugh the hallway')
     parser.add_argument('--theta-margin', default=np.pi/12.0, type=float, help='')
     parser.add_argument('--collision-buffer', default=0.02, type=float, help='')
diff --git a/exps/tamp_environment/turtlebot_move/run.py b/exps/tamp_environment/turtlebot_move/run.py
index e84d587..9a67a24 100644
--- a/exps/tamp_environment/turtlebot_move/run.py
+++ b/exps/tamp_environment/turtlebot_move/run.py
@@ -170,7 +170,7 @@ def main():
     parser.add_argument('--optimal', action='store_true', help='Runs in an anytime mode')
     parser.add_argument('--min-samples', default=10, type=int, help='Max num samples for motion planning')
     parser.add_argument('--max-samples', default=2000, type=int, help='Max num samples for motion planning')
-    parser.add_argument('--factor', default=1.1, type=int, help='The rate at which we geometrically expand from min-samples to max-samples')
+    parser.add_argument('--factor', default=1.1, type=float, help='The rate at which we geometrically expand from min-samples to max-samples')
     parser.add_argument('--delta', default=0.05, type=float, help='Difference between the hallway width and the largest object that needs to fit thorugh the hallway')
     parser.add_argument('--seed', default=-1, type=int, help='Seed for selection of robot size and collision placement')
     parser.add_argument('--save-dir', default="./logs/debug", type=str, help='Directory to save planning results')
-- 
2.43.0


From bd4842bc76422cf485f681062acc6c0366955282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 46/50] fix: polygon sampler gives triangle every corner once,
 which crashes on rings that share corners

---
 nonasymptotic/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonasymptotic/sampler.py b/nonasymptotic/sampler.py
index 9e63d28..6863de6 100644
--- a/nonasymptotic/sampler.py
+++ b/nonasymptotic/sampler.py
@@ -89,6 +89,10 @@ def random_point_in_mpolygon(mpolygon, rng=None, vis=False):
     )
     segments = np.hstack([conn_from_arr.reshape(-1, 1), conn_to_arr.reshape(-1, 1)])
 
+    # rings may meet in corners: triangle crashes if a vertex is given twice
+    vertices, vertex_indices = np.unique(vertices, axis=0, return_inverse=True)
+    segments = vertex_indices.reshape(-1)[segments]
+
     # compute triangulation
     data = {
         'vertices': vertices,
-- 
2.43.0


From 1b73ff256785513411ce366aef693e9a47c4c332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 47/50] fix: polygon sampler leaves out gaps enclosed by
 touching rings

---
 nonasymptotic/sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/sampler.py b/nonasymptotic/sampler.py
index 6863de6..db4f30b 100644
--- a/nonasymptotic/sampler.py
+++ b/nonasymptotic/sampler.py
@@ -2,7 +2,7 @@ import numpy as np
 import triangle as tr
 from matplotlib import pyplot as plt
 from shapely import MultiPolygon, get_exterior_ring, get_num_interior_rings, get_interior_ring, covers, difference, \
-    get_coordinates, point_on_surface, Polygon, get_num_points, Point
+    get_coordinates, point_on_surface, Polygon, get_num_points, Point, points
 from shapely.affinity import affine_transform
 from shapely.plotting import plot_polygon
 
@@ -110,6 +110,9 @@ def random_point_in_mpolygon(mpolygon, rng=None, vis=False):
     # dims: (N tries) X (3 points in tries) X (2D coords)
     triangles = triangle_out['vertices'][triangle_out['triangles']]
 
+    # rings that touch can enclose gaps, or split holes, that no hole point marks
+    triangles = triangles[covers(mpolygon, points(np.mean(triangles, axis=1)))]
+
     if vis:
         fig, ax = plt.subplots()
         plot_polygon(mpolygon, ax=ax, color='blue')
-- 
2.43.0


From c62f80a3344bd0309d1d71ba965c8ba7d9a7476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 48/50] fix: evaluation plots read the logs that runs write

---
 exps/tamp_environment/turtlebot_move/bound_plot.py  |  4 ++--
 .../turtlebot_move/time_success_plot.py             | 13 ++++++-------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/exps/tamp_environment/turtlebot_move/bound_plot.py b/exps/tamp_environment/turtlebot_move/bound_plot.py
index a44be54..e50082d 100644
--- a/exps/tamp_environment/turtlebot_move/bound_plot.py
+++ b/exps/tamp_environment/turtlebot_move/bound_plot.py
@@ -21,8 +21,8 @@ for root, dirs, files in os.walk(parent_directory):
             with open(file_path, 'r') as f:
                 lines = f.readlines()
                 for i, line in enumerate(lines):
-                    if "Delta:" in line and i+1 < len(lines):
-                        numbers[file] = float(lines[i+1].strip())
+                    if line.startswith("Delta:"):
+                        numbers[file] = float(line.replace("Delta:", ""))
 
                     if "Found solution in" in line and i+1 < len(lines):
                         samples[file] = float(lines[i+1].strip())
diff --git a/exps/tamp_environment/turtlebot_move/time_success_plot.py b/exps/tamp_environment/turtlebot_move/time_success_plot.py
index 949af72..cbe737d 100644
--- a/exps/tamp_environment/turtlebot_move/time_success_plot.py
+++ b/exps/tamp_environment/turtlebot_move/time_success_plot.py
@@ -1,5 +1,6 @@
 import numpy as np
 import matplotlib.pyplot as plt
+import ast
 import os
 import re
 from collections import defaultdict
@@ -25,13 +26,11 @@ for root, dirs, files in os.walk(parent_directory):
             with open(file_path, 'r') as f:
                 lines = f.readlines()
                 for i, line in enumerate(lines):
-                    if("Namespace" in line):
-                        match = re.search(r"adaptive_n=([^ ,]+),", line)
-                        adaptive_n[file] = int(bool(match.group(1)=="True"))
-                        match = re.search(r"min_samples=([^ ,]+),", line)
-                        min_samples[file] = int(match.group(1))
-                        match = re.search(r"max_samples=([^ ,]+),", line)
-                        max_samples[file] = int(match.group(1))
+                    if(line.startswith("Experiment arguments:")):
+                        args = ast.literal_eval(lines[i+1])
+                        adaptive_n[file] = int(args["adaptive_n"])
+                        min_samples[file] = args["min_samples"]
+                        max_samples[file] = args["max_samples"]
                     if line.startswith("Solved:"):
                         successes[file] = int(("True" in lines[i].strip()))
                     if(line.startswith("Time:")):
-- 
2.43.0


From 4b5790a0562181866df94a35d5a268aebca7203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 49/50] fix: bound plot works without any solved run

---
 exps/tamp_environment/turtlebot_move/bound_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/turtlebot_move/bound_plot.py b/exps/tamp_environment/turtlebot_move/bound_plot.py
index e50082d..83e257b 100644
--- a/exps/tamp_environment/turtlebot_move/bound_plot.py
+++ b/exps/tamp_environment/turtlebot_move/bound_plot.py
@@ -34,7 +34,7 @@ for delta in space:
     n, _ = compute_numerical_bound(delta, 0.9, 1, 2, None)
     bounds.append(n)
 plt.plot(space, bounds)
-plt.scatter(*zip(*[(numbers[k], v) for k, v in samples.items()]))
+plt.scatter([numbers[k] for k in samples], list(samples.values()))
 plt.xlabel("Delta")
 plt.ylabel("Num required samples")
 plt.title("Pybullet navigation")
-- 
2.43.0


From 021429871aa6e2a2e1015fb913c8b539fea66f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 50/50] fix: objects start and end where the box they are moved
 as is free

---
 exps/tamp_environment/turtlebot_move/problems.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/turtlebot_move/problems.py b/exps/tamp_environment/turtlebot_move/problems.py
index 2f2cb5c..02199dd 100644
--- a/exps/tamp_environment/turtlebot_move/problems.py
+++ b/exps/tamp_environment/turtlebot_move/problems.py
@@ -8,7 +8,7 @@ from pybullet_tools.utils import set_point, Point, create_box, \
     wait_if_gui, get_pose, Pose, create_cylinder, flatten_links, \
     get_moving_links, get_aabb, Euler, set_pose, AABB, multiply, \
     sample_aabb, get_point, get_center_extent, aabb_empty, unit_pose, \
-    get_aabb_extent, aabb_from_extent_center
+    get_aabb_extent, aabb_from_extent_center, aabb_overlap
     
 from typing import List, Tuple
 from dataclasses import dataclass, field
@@ -87,6 +87,7 @@ def sample_placements(body_surfaces, obstacles=None, min_distances={}):
     if obstacles is None:
         obstacles = [body for body in get_bodies() if body not in body_surfaces]
     obstacles = list(obstacles)
+    fixed = list(obstacles)
     # TODO: max attempts here
     for body, surface in body_surfaces.items():
         min_distance = min_distances.get(body, 0.01)
@@ -95,7 +96,9 @@ def sample_placements(body_surfaces, obstacles=None, min_distances={}):
             if pose is None:
                 return False
             if not any(pairwise_collision(body, obst, max_distance=min_distance)
-                       for obst in obstacles if obst not in [body, surface]):
+                       for obst in obstacles if obst not in [body, surface]) and \
+                    not any(aabb_overlap(get_aabb(body), get_aabb(obst))  # a held body is moved as its box
+                            for obst in fixed if obst not in [body, surface]):
                 obstacles.append(body)
                 break
     return True
-- 
2.43.0

