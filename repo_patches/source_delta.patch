From 6bef1642d7e0b1656d104feae3dc2469cc872a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 01/49] fix: kernel point selection crashes when the selection
 set is a GeometryCollection

---
 starshaped_hull/cluster_and_starify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 2e825e8..3985349 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -109,6 +109,9 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     ts['cluster intersection'] = toc(t0)-list(ts.values())[-1]
     if tcss_tmp.area > 1e-6:
         tcss = tcss_tmp
+    # Intersections may in addition contain isolated points and lines. Keep only the areas
+    if tcss.geom_type == 'GeometryCollection':
+        tcss = shapely.ops.unary_union([g for g in tcss.geoms if g.area > 0])
 
     # If not tc from previous iteraion, use closest point to TCSS in ad ker as triangle center
     if triangle_center_prev is None:
-- 
2.43.0


From 437e14aff598694a3bdbb244a7e7b3c8ca5accb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 02/49] fix: division by zero in kernel point selection when
 the clock does not advance

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 3985349..349786d 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -155,7 +155,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     ts['triangle generation'] = toc(t0)-list(ts.values())[-1]
     tot_time = sum(ts.values())
     for k in ts.keys():
-        ts[k] = int(ts[k] / tot_time * 100)
+        ts[k] = int(ts[k] / tot_time * 100) if tot_time else 0
     # print(ts)
     return kernel_points
 
-- 
2.43.0


From b2606399df9b66ee8615f26d4d80f7ea1814fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 03/49] fix: planning from the clusters of an incomplete plan
 crashes

---
 starshaped_hull/cluster_and_starify.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 349786d..0dfc851 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -176,6 +176,11 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
     if workspace is None:
         workspace = Ellipse([1e10, 1e10])
 
+    # Clusters of an incomplete plan have no kernel or obstacle to continue from
+    if previous_clusters is not None:
+        previous_clusters = [cl for cl in previous_clusters
+                             if cl.kernel_points is not None and cl.cluster_obstacle is not None]
+
     # Exit flags
     INCOMPLETE = 0
     COMPLETE = 1
-- 
2.43.0


From 640582e9b9d8ed1beaac49ea6ae74a601b812163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 04/49] fix: plan interrupted by max_iterations is reported as
 complete with unresolved clusters

---
 starshaped_hull/cluster_and_starify.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 0dfc851..43a8a52 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -317,6 +317,13 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
     # -- End first iteration -- #
 
     while intersection_exists:
+        # Check iterations
+        if n_iter >= max_iterations:
+            if verbose:
+                print("[Cluster and Starify]: Max iterations.")
+            cluster_iterations += [clusters]
+            return default_result()
+
         kernel_time += [0.]
         hull_time += [0.]
         cluster_time += [0.]
@@ -415,9 +422,6 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
 
         n_iter += 1
 
-        if n_iter >= max_iterations:
-            break
-
     # ----------- Make Convex ----------- #
 
     if make_convex:
-- 
2.43.0


From 984f71dd0a7ef57024343e3a1f7dba9319cfbf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 05/49] fix: convexified clusters keep their old polygon, so
 later convex hulls may overlap them

---
 starshaped_hull/cluster_and_starify.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 43a8a52..0e9ccd1 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -442,6 +442,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                         [hull_polygon.intersects(clusters[k].polygon()) for k in range(len(clusters)) if k != j]):
                     # clusters[j].cluster_obstacle = StarshapedPrimitiveCombination(cl.obstacles, hull_polygon, cl.cluster_obstacle.xr(Frame.GLOBAL))
                     clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL))
+                    clusters[j]._polygon = None  # Polygon of the replaced cluster obstacle
 
         convex_time = toc(t1)
     # ----------- End Make Convex ----------- #
-- 
2.43.0


From e1b8ef41b21f1be9c2fb2219a611b326d2b458ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 06/49] fix: history is not returned when running out of time
 while making clusters convex

---
 starshaped_hull/cluster_and_starify.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 0e9ccd1..f6da97a 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -433,7 +433,10 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if max_compute_time < toc(t0):
                     if verbose:
                         print("[Cluster and Starify]: Max compute time in convex hull.")
-                    return clusters, [sum(cluster_time), init_kernel_time+sum(kernel_time), sum(hull_time), toc(t1)], MAX_COMPUTE_TIME_CONVEX_HULL, n_iter
+                    timing_vec = [sum(cluster_time), init_kernel_time+sum(kernel_time), sum(hull_time), toc(t1)]
+                    if return_history:
+                        return clusters, timing_vec, MAX_COMPUTE_TIME_CONVEX_HULL, n_iter, cluster_iterations
+                    return clusters, timing_vec, MAX_COMPUTE_TIME_CONVEX_HULL, n_iter
 
                 v = np.array(cl.polygon().exterior.coords)[:-1, :]
                 hull = ConvexHull(v)
-- 
2.43.0


From fd40c4b890a6da93b962e020572ece588c52e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 07/49] fix: making a cluster convex changes its identifier at
 every step

---
 starshaped_hull/cluster_and_starify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index f6da97a..734edec 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -444,7 +444,8 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if not any([hull_polygon.contains(shapely.geometry.Point(x_ex)) for x_ex in [x, xg]]) and not any(
                         [hull_polygon.intersects(clusters[k].polygon()) for k in range(len(clusters)) if k != j]):
                     # clusters[j].cluster_obstacle = StarshapedPrimitiveCombination(cl.obstacles, hull_polygon, cl.cluster_obstacle.xr(Frame.GLOBAL))
-                    clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL))
+                    clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL),
+                                                                     id=cl.cluster_obstacle.id())
                     clusters[j]._polygon = None  # Polygon of the replaced cluster obstacle
 
         convex_time = toc(t1)
-- 
2.43.0


From 2f40b224d8cd6a3a4ec1d41e37d8d96ad1737fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 08/49] fix: kernel point selection never ends when the robot
 is at the goal

---
 starshaped_hull/cluster_and_starify.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 734edec..db72484 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -86,6 +86,10 @@ def get_intersection_clusters(clusters):
 def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     triangle_center_prev = np.mean(cl_prev.kernel_points, axis=0) if cl_prev else None
 
+    # There is no line l(x,xg) to avoid when the robot is at the goal
+    def on_x_xg_line(p):
+        return np.linalg.norm(np.subtract(xg, x)) > 1e-6 and is_collinear(x, xg, p)
+
     t0 = tic()
     ts = {}
     # Find triangle center selection set (TCSS)
@@ -117,11 +121,11 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     if triangle_center_prev is None:
         tc, _ = shapely.ops.nearest_points(cl.admissible_kernel, tcss.centroid)
         triangle_center = np.array(tc.coords[0])
-        while is_collinear(x, xg, triangle_center):
+        while on_x_xg_line(triangle_center):
             triangle_center += np.random.uniform(-1e-4, 1e-4, 2)
     # Else, use previous triangle center if still in selection set
     elif tcss.contains(shapely.geometry.Point(triangle_center_prev))\
-            and not is_collinear(x, xg, triangle_center_prev):
+            and not on_x_xg_line(triangle_center_prev):
         triangle_center = triangle_center_prev
     # Else, try to maintain triangle center on same side of l(x,xg) as previous time step
     else:
-- 
2.43.0


From 64c44ec93ba74a438753df6435196df89d83d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 09/49] fix: drawing a cluster crashes since axes and handles
 are mixed up

---
 starshaped_hull/cluster_and_starify.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index db72484..7edf320 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -34,11 +34,14 @@ class ObstacleCluster:
         return self._polygon_excluding_hull
 
     def draw(self, ax=None):
+        line_handles = []
         if self.cluster_obstacle is not None:
-            ax, _ = self.cluster_obstacle.draw(ax=ax, fc="green")
+            lh, ax = self.cluster_obstacle.draw(ax=ax, fc="green")
+            line_handles += lh
         for obs in self.obstacles:
-            ax, _ = obs.draw(ax=ax)
-        return ax, _
+            lh, ax = obs.draw(ax=ax)
+            line_handles += lh
+        return line_handles, ax
 
 
 def get_intersection_clusters(clusters):
-- 
2.43.0


From 887da5306af8513f2cb384d4ccc7c12adc8bf140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 10/49] fix: normal of a combination fails before its polygon
 is requested or after an aborted call

---
 obstacles/starshaped_primitive_combination.py | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 6fdf2cd..b4d9cef 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -151,8 +151,13 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             return n
 
     def set_xr(self, xr, input_frame=Frame.OBSTACLE, safe_set=False):
-        super().set_xr(xr, input_frame, safe_set)
-        self._update_vertex_angles()
+        prev_xr = self._xr
+        try:
+            super().set_xr(xr, input_frame, safe_set)
+            self._update_vertex_angles()
+        except BaseException:
+            self._xr = prev_xr
+            raise
         
     def init_plot(self, ax=None, show_reference=True, show_name=False, **kwargs):
         if ax is None:
@@ -210,14 +215,15 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             print(intersection_points_shapely)
 
     def _update_vertex_angles(self):
-        self.vertices = np.array(self._polygon.exterior.coords[:-1])
-        self.circular_vertices = np.array(self._polygon.exterior.coords)
-        self.vertex_angles = np.arctan2(self.vertices[:, 1] - self._xr[1], self.vertices[:, 0] - self._xr[0])
-        idcs = np.argsort(self.vertex_angles)
-        self.vertex_angles = self.vertex_angles[idcs]
-        self.vertices = self.vertices[idcs, :]
-        self.circular_vertices = np.vstack((self.vertices, self.vertices[0, :]))
-        self.vertex_angles = np.hstack((self.vertex_angles, self.vertex_angles[0] + 2 * np.pi))
+        vertices = np.array(self.polygon().exterior.coords[:-1])
+        vertex_angles = np.arctan2(vertices[:, 1] - self._xr[1], vertices[:, 0] - self._xr[0])
+        idcs = np.argsort(vertex_angles)
+        vertex_angles = vertex_angles[idcs]
+        vertices = vertices[idcs, :]
+        circular_vertices = np.vstack((vertices, vertices[0, :]))
+        vertex_angles = np.hstack((vertex_angles, vertex_angles[0] + 2 * np.pi))
+        # Vertices last, they tell that all are available
+        self.vertex_angles, self.circular_vertices, self.vertices = vertex_angles, circular_vertices, vertices
 
     def _compute_polygon_representation(self):
         obs_pol = [obs.polygon() for obs in self._obstacle_cluster]
-- 
2.43.0


From a94e1ed9c96ae67cdb04a96e2a95f4f61dff805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 11/49] fix: aborted change of reference point leaves vertex
 order of the polygon inconsistent

---
 obstacles/starshaped_polygon.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 85eba3c..14623a6 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -156,8 +156,13 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         # return self.rotate(n_obstacle, Frame.OBSTACLE, output_frame)
 
     def set_xr(self, xr, input_frame=Frame.OBSTACLE, safe_set=False):
-        super().set_xr(xr, input_frame, safe_set)
-        self._update_vertex_angles()
+        prev_xr = self._xr
+        try:
+            super().set_xr(xr, input_frame, safe_set)
+            self._update_vertex_angles()
+        except BaseException:
+            self._xr = prev_xr
+            raise
     
     def init_plot(self, ax=None, show_reference=True, show_name=False, **kwargs):
         line_handles, ax = super().init_plot(ax=ax, show_name=show_name, **kwargs)
@@ -175,12 +180,13 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
             line_handles[2].set_data(*self.xr(frame))
 
     def _update_vertex_angles(self):
-        self.vertex_angles = np.arctan2(self.vertices[:, 1] - self._xr[1], self.vertices[:, 0] - self._xr[0])
-        idcs = np.argsort(self.vertex_angles)
-        self.vertex_angles = self.vertex_angles[idcs]
-        self.vertices = self.vertices[idcs, :]
-        self.circular_vertices = np.vstack((self.vertices, self.vertices[0, :]))
-        self.vertex_angles = np.hstack((self.vertex_angles, self.vertex_angles[0] + 2 * np.pi))
+        vertex_angles = np.arctan2(self.vertices[:, 1] - self._xr[1], self.vertices[:, 0] - self._xr[0])
+        idcs = np.argsort(vertex_angles)
+        vertex_angles = vertex_angles[idcs]
+        vertices = self.vertices[idcs, :]
+        circular_vertices = np.vstack((vertices, vertices[0, :]))
+        vertex_angles = np.hstack((vertex_angles, vertex_angles[0] + 2 * np.pi))
+        self.vertex_angles, self.circular_vertices, self.vertices = vertex_angles, circular_vertices, vertices
 
     def _compute_kernel(self, verbose=False, debug=False):
         if self.is_convex():
-- 
2.43.0


From f6049d66fec2b1acccb7616578892358286c6cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 12/49] fix: aborted or concurrent computation of the global
 polygon leaves a stale polygon

---
 obstacles/obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/obstacle.py b/obstacles/obstacle.py
index 7789611..1a8e360 100644
--- a/obstacles/obstacle.py
+++ b/obstacles/obstacle.py
@@ -79,11 +79,11 @@ class Obstacle(ABC):
         elif output_frame == Frame.GLOBAL:
             current_pose = [*self._motion_model.pos(), self._motion_model.rot()]
             if not current_pose == self._polygon_global_pose:
-                self._polygon_global_pose = current_pose
                 c, s = np.cos(current_pose[2]), np.sin(current_pose[2])
                 trans_matrix = np.array([[c, -s, current_pose[0]], [s, c, current_pose[1]], [0, 0, 1]])
                 affinity_matrix = [trans_matrix[0, 0], trans_matrix[0, 1], trans_matrix[1, 0], trans_matrix[1, 1], trans_matrix[0, 2], trans_matrix[1, 2]]
-                self._polygon_global = sh_affinity.affine_transform(self._polygon, affinity_matrix)
+                polygon_global = sh_affinity.affine_transform(self._polygon, affinity_matrix)
+                self._polygon_global, self._polygon_global_pose = polygon_global, current_pose
             return self._polygon_global
         else:
             raise Frame.InvalidFrameError
-- 
2.43.0


From 1251642f5b0d6d5444e64573ef7269f67d86481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 13/49] fix: aborted or concurrent computation of the global
 kernel leaves a stale kernel

---
 obstacles/starshaped_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_obstacle.py b/obstacles/starshaped_obstacle.py
index 122ab8f..fd861ed 100644
--- a/obstacles/starshaped_obstacle.py
+++ b/obstacles/starshaped_obstacle.py
@@ -51,11 +51,11 @@ class StarshapedObstacle(Obstacle):
         elif output_frame == Frame.GLOBAL:
             current_pose = [*self._motion_model.pos(), self._motion_model.rot()]
             if not current_pose == self._kernel_global_pose:
-                self._kernel_global_pose = current_pose
                 c, s = np.cos(current_pose[2]), np.sin(current_pose[2])
                 trans_matrix = np.array([[c, -s, current_pose[0]], [s, c, current_pose[1]], [0, 0, 1]])
                 affinity_matrix = [trans_matrix[0, 0], trans_matrix[0, 1], trans_matrix[1, 0], trans_matrix[1, 1], trans_matrix[0, 2], trans_matrix[1, 2]]
-                self._kernel_global = sh_affinity.affine_transform(self._kernel, affinity_matrix)
+                kernel_global = sh_affinity.affine_transform(self._kernel, affinity_matrix)
+                self._kernel_global, self._kernel_global_pose = kernel_global, current_pose
             return self._kernel_global
         else:
             raise Frame.InvalidFrameError
-- 
2.43.0


From e4e0ac4c08edbcf8a2adce89af904d17a5a4ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 14/49] fix: intersection of an ellipse with steep lines is
 reported at the top and bottom of the ellipse

---
 obstacles/ellipse.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 17f216e..db95466 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -109,22 +109,24 @@ class Ellipse(StarshapedObstacle):
 
         # Special case with vertical line
         if vertical_line:
-            if l_right_obstacle[0] < -self._a[0] or l_right_obstacle[0] > self._a[0]:
-                return []
-
             l_top_obstacle = l_right_obstacle if l_right_obstacle[1] > l_left_obstacle[1] else l_left_obstacle
             l_bottom_obstacle = l_left_obstacle if l_right_obstacle[1] > l_left_obstacle[1] else l_right_obstacle
-            x_intersect_top_obstacle, x_intersect_bottom_obstacle = np.array([0, self._a[1]]), np.array([0, -self._a[1]])
-            x_intersect_top = self.transform(x_intersect_top_obstacle, Frame.OBSTACLE, output_frame)
-            x_intersect_bottom = self.transform(x_intersect_bottom_obstacle, Frame.OBSTACLE, output_frame)
-            if l_top_obstacle[1] >= self._a[1] and l_bottom_obstacle[1] <= -self._a[1]:
-                return [x_intersect_top, x_intersect_bottom]
-            elif l_top_obstacle[1] >= self._a[1] and l_bottom_obstacle[1] <= self._a[1]:
-                return [x_intersect_top]
-            elif l_top_obstacle[1] >= -self._a[1] and l_bottom_obstacle[1] <= -self._a[1]:
-                return [x_intersect_bottom]
-            else:
+            dy = l_top_obstacle[1] - l_bottom_obstacle[1]
+            if dy == 0:
+                return []
+            # Line parameters of x = k*y+d
+            k = (l_top_obstacle[0] - l_bottom_obstacle[0]) / dy
+            d = l_bottom_obstacle[0] - k * l_bottom_obstacle[1]
+            # Intersection with ellipse: ky2*y^2 + 2*ky*y + k1 = 0
+            ky2 = self._a2[1] * k**2 + self._a2[0]
+            ky = self._a2[1] * k * d
+            k1 = self._a2[1] * (d**2 - self._a2[0])
+            discriminant = ky**2 - ky2 * k1
+            if discriminant < 0:
                 return []
+            y_intersect = [(-ky + np.sqrt(discriminant)) / ky2, (-ky - np.sqrt(discriminant)) / ky2]
+            return [self.transform(np.array([k * y + d, y]), Frame.OBSTACLE, output_frame) for y in y_intersect
+                    if l_bottom_obstacle[1] <= y <= l_top_obstacle[1]]
 
         # obstacle ellipse coefficients at intersection with line m*x+c
         kx2 = self._a2[0] * m**2 + self._a2[1]
-- 
2.43.0


From c6b39d2fcbb70bc4f380a2d627512a60ad02981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 15/49] fix: kernel of an ellipse is not available before its
 polygon is requested

---
 obstacles/ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index db95466..19e5766 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -209,7 +209,7 @@ class Ellipse(StarshapedObstacle):
         self._is_convex = True
 
     def _compute_kernel(self):
-        self._kernel = self._polygon
+        self._kernel = self.polygon(Frame.OBSTACLE)
 
     def _compute_polygon_representation(self):
         # logprint(str(self) + ": " + str(self._polygon), 0)
-- 
2.43.0


From a1ece031a4e74cdc4051ae675490c59db46fd028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 16/49] fix: order of ellipse tangent points is wrong when
 input and output frame differ

---
 obstacles/ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 19e5766..ce9bf0f 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -196,7 +196,7 @@ class Ellipse(StarshapedObstacle):
         tp1 = self.transform(tp1_obstacle, Frame.OBSTACLE, output_frame)
         tp2 = self.transform(tp2_obstacle, Frame.OBSTACLE, output_frame)
 
-        if is_ccw(x, tp1, tp2):
+        if is_ccw(x_obstacle, tp1_obstacle, tp2_obstacle):
             tp1, tp2 = tp2, tp1
 
         return [tp1, tp2]
-- 
2.43.0


From e883b69b9b52034abb2fcacbdaf522af0eecb95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 17/49] fix: planning with excluded obstacles crashes for
 ellipses, which have no extreme points

---
 obstacles/ellipse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index ce9bf0f..3b63629 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -201,6 +201,10 @@ class Ellipse(StarshapedObstacle):
 
         return [tp1, tp2]
 
+    def extreme_points(self, frame=Frame.GLOBAL):
+        vertices = np.asarray(self.polygon(frame).exterior.coords)[:-1, :]
+        return [vertices[i] for i in range(vertices.shape[0])]
+
     # def area(self):
     #     return self._area
 
-- 
2.43.0


From 79afe16b2a3d15b5a2ace1af73f7600001ebb2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 18/49] fix: safe setting of the reference point crashes

---
 obstacles/starshaped_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_obstacle.py b/obstacles/starshaped_obstacle.py
index fd861ed..8f7d110 100644
--- a/obstacles/starshaped_obstacle.py
+++ b/obstacles/starshaped_obstacle.py
@@ -1,5 +1,6 @@
 from abc import abstractmethod
 import numpy as np
+import shapely
 from obstacles import Obstacle, Frame
 from shapely import affinity as sh_affinity
 
@@ -19,8 +20,7 @@ class StarshapedObstacle(Obstacle):
     def set_xr(self, xr, input_frame=Frame.OBSTACLE, safe_set=False):
         new_xr = self.transform(xr, input_frame, Frame.OBSTACLE)
         if safe_set:
-            k = self.kernel()
-            if not k.exterior_point(new_xr, Frame.OBSTACLE):
+            if self.kernel(Frame.OBSTACLE).intersects(shapely.geometry.Point(new_xr)):
                 self._xr = new_xr
         else:
             self._xr = new_xr
-- 
2.43.0


From de67b3801cc11a77479bdd3524d1a4e48741c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 19/49] fix: velocity of obstacle points does not depend on the
 distance to the centre of rotation

---
 obstacles/starshaped_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/starshaped_obstacle.py b/obstacles/starshaped_obstacle.py
index 8f7d110..3f65d0f 100644
--- a/obstacles/starshaped_obstacle.py
+++ b/obstacles/starshaped_obstacle.py
@@ -64,7 +64,7 @@ class StarshapedObstacle(Obstacle):
         if self._motion_model is None:
             return np.zeros(2)
         omega = self._motion_model.rot_vel()
-        lin_vel_omega = np.cross(np.hstack(([0, 0], omega)), np.hstack((self.reference_direction(x), 0)))[:2]
+        lin_vel_omega = np.cross(np.hstack(([0, 0], omega)), np.hstack((x - self.pos(), 0)))[:2]
         return self._motion_model.lin_vel() + lin_vel_omega
 
     # ------------ Abstract methods ------------ #
-- 
2.43.0


From 2f80b7db929aa463f4fc189e7a6f62e9507de5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 20/49] fix: reference point is shared with the arrays of the
 caller

---
 obstacles/starshaped_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_obstacle.py b/obstacles/starshaped_obstacle.py
index 3f65d0f..b12abb4 100644
--- a/obstacles/starshaped_obstacle.py
+++ b/obstacles/starshaped_obstacle.py
@@ -15,10 +15,10 @@ class StarshapedObstacle(Obstacle):
         self._kernel_global_pose = None  # Obstacle pose corresponding to global kernel
 
     def xr(self, output_frame=Frame.GLOBAL):
-        return self.transform(self._xr, Frame.OBSTACLE, output_frame)
+        return np.array(self.transform(self._xr, Frame.OBSTACLE, output_frame))
 
     def set_xr(self, xr, input_frame=Frame.OBSTACLE, safe_set=False):
-        new_xr = self.transform(xr, input_frame, Frame.OBSTACLE)
+        new_xr = np.array(self.transform(xr, input_frame, Frame.OBSTACLE))
         if safe_set:
             if self.kernel(Frame.OBSTACLE).intersects(shapely.geometry.Point(new_xr)):
                 self._xr = new_xr
-- 
2.43.0


From 33e43cd551a989fb721d73888a10c0a1e4223e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 21/49] fix: position is shared with the arrays of the caller
 and changes in place when moving

---
 obstacles/motion_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index 64e4746..7d3162a 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -18,13 +18,13 @@ class MotionModel(ABC):
         self._t += dt
 
     def set_pos(self, pos):
-        self._pos = pos
+        self._pos = np.array(pos, dtype='float64')
 
     def set_rot(self, rot):
         self._rot = rot
 
     def pos(self):
-        return self._pos
+        return self._pos.copy()
 
     def rot(self):
         return self._rot
-- 
2.43.0


From c2af59ff943259f315817e5c2af9a5087cc3cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 22/49] fix: tangent points share memory with the vertices of
 the polygon

---
 obstacles/polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index d8ec63a..a72ad4c 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -124,8 +124,8 @@ class Polygon(Obstacle):
         t5 = toc(t0)
 
         t0 = tic()
-        tp1_obstacle = self.circular_vertices[i_max]
-        tp2_obstacle = self.circular_vertices[i_min]
+        tp1_obstacle = self.circular_vertices[i_max].copy()
+        tp2_obstacle = self.circular_vertices[i_min].copy()
 
         tp1 = self.transform(tp1_obstacle, Frame.OBSTACLE, output_frame)
         tp2 = self.transform(tp2_obstacle, Frame.OBSTACLE, output_frame)
-- 
2.43.0


From 6555b26ffa5e55e2e3373c70ac4e25fca52d221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 23/49] fix: interval motion leaves its last position

---
 obstacles/motion_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index 7d3162a..01ab326 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -82,9 +82,11 @@ class Interval(MotionModel):
         super().__init__(init_pos, 0)
 
     def lin_vel(self):
-        if self._t > self.time_point[-1]:
+        if self._t >= self.time_point[-1]:
             vel_norm = np.linalg.norm((self.pos_point[-1] - self.pos_point[-2]) / (self.time_point[-1] - self.time_point[-2]))
             dir = self.pos_point[-1] - self.pos()
+            if np.linalg.norm(dir) < 1e-6:
+                return np.zeros(2)
             if np.linalg.norm(dir) > vel_norm:
                 dir /= np.linalg.norm(dir)
             return vel_norm * dir
-- 
2.43.0


From 580df1d2e0ac5dfd125beec5bb5bfceab2e2809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 24/49] fix: boundary points on the bounding box of a polygon
 are reported as exterior

---
 obstacles/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index a72ad4c..a90d1c5 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -61,7 +61,7 @@ class Polygon(Obstacle):
     def point_location(self, x, input_frame=Frame.GLOBAL):
         x_obstacle = self.transform(x, input_frame, Frame.OBSTACLE)
         xmin, ymin, xmax, ymax = self._pol_bounds
-        if not (xmin < x_obstacle[0] < xmax and ymin < x_obstacle[1] < ymax):
+        if not (xmin <= x_obstacle[0] <= xmax and ymin <= x_obstacle[1] <= ymax):
             return 1
         x_sh = shapely.geometry.Point(x_obstacle)
         if self._polygon.contains(x_sh):
-- 
2.43.0


From b288417437b025b4b85b59373a75d97c8cbe07a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 25/49] fix: drawing a polygon changes the state of the global
 random stream

---
 obstacles/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index a90d1c5..53f3c10 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -26,7 +26,7 @@ class Polygon(Obstacle):
             del kwargs['show_reference']
         line_handles = []
         # Boundary
-        line_handles += [patches.Polygon(np.random.rand(3, 2), **kwargs)]
+        line_handles += [patches.Polygon(np.zeros((3, 2)), **kwargs)]
         ax.add_patch(line_handles[-1])
         # Name
         line_handles += [ax.text(0, 0, self._name)] if show_name else [None]
-- 
2.43.0


From 957e4e7a377248b990f574764216276e957e1387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 26/49] fix: boundary of a dilated polygon is not found along
 diagonals

---
 obstacles/starshaped_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 14623a6..94bf958 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -31,7 +31,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         cp = self.copy(id, name)
         cp._polygon = cp._polygon.buffer(padding, cap_style=1, join_style=1)
         cp._pol_bounds = cp._polygon.bounds
-        cp.enclosing_ball_diameter = max(cp._polygon.bounds[2]-cp._polygon.bounds[0], cp._polygon.bounds[3]-cp._polygon.bounds[1])
+        cp.enclosing_ball_diameter = cp._polygon.bounds[2]-cp._polygon.bounds[0] + cp._polygon.bounds[3]-cp._polygon.bounds[1]
         cp.vertices = np.array(cp._polygon.exterior.coords[:-1])
         cp.circular_vertices = np.array(cp._polygon.exterior.coords)
         cp._polygon_global_pose = None
-- 
2.43.0


From 5926d91b0b6de9a4ef494d4fbf9bdaa581810b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 27/49] fix: generated convex polygons ignore the height of the
 requested box

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index bb7525d..f05fb91 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -424,7 +424,7 @@ def generate_convex_polygon(n, box=None):
 
     # Generate two lists of random X and Y coordinates
     xPool = [box[0]*np.random.uniform() for i in range(n)]
-    yPool = [box[0]*np.random.uniform() for i in range(n)]
+    yPool = [box[1]*np.random.uniform() for i in range(n)]
 
     # Sort them
     xPool = np.sort(xPool)
-- 
2.43.0


From 9163c84594917d71d7fc295d4057f5ea3030c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 28/49] fix: boundary of a combination is not found for points
 close to the reference point

---
 obstacles/starshaped_primitive_combination.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index b4d9cef..804ff4c 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -62,7 +62,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
 
     def boundary_mapping(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
         # intersection_points = [p for ps in self.line_intersection([self._xr, self._xr+10*(x-self._xr)]) for p in ps]
-        intersection_points = self.line_intersection([self._xr, self._xr+10*(x-self._xr)])
+        intersection_points = self.line_intersection(self._reference_ray(x))
         if not intersection_points:
             return None
         dist_intersection_points = [np.linalg.norm(ip - self._xr) for ip in intersection_points]
@@ -84,7 +84,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         if type == 'sub_normal':
             boundary_obs_idx = 0
             max_dist = -1
-            line = [self._xr, self._xr+10*(x-self._xr)]
+            line = self._reference_ray(x)
             for i, o in enumerate(self._obstacle_cluster):
                 intersection_points = o.line_intersection(line, Frame.GLOBAL, Frame.GLOBAL)
                 for p in intersection_points:
@@ -184,6 +184,11 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         self.update_plot(line_handles)
         return line_handles, ax
 
+    # Line segment from xr in direction of x, ending outside the obstacle
+    def _reference_ray(self, x):
+        xmin, ymin, xmax, ymax = self.polygon().bounds
+        return [self._xr, self._xr + 1.1 * (xmax - xmin + ymax - ymin) * self.reference_direction(x)]
+
     def _hull_cluster_point_location(self, x):
         if self._hull_cluster is None:
             return 1
-- 
2.43.0


From 5a3960945835e032fe33416fedaa8d25edb03360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 29/49] fix: convex hull never ends or is wrong for points
 close to each other or far away

---
 utils/cg.py | 64 +++++++++++++----------------------------------------
 1 file changed, 15 insertions(+), 49 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index f05fb91..23d204f 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -216,55 +216,21 @@ def equilateral_triangle(centroid, side_length, rot=0):
 
 
 def convex_hull(points):
-    n = len(points)
-
-    # Find the leftmost point
-    l = 0
-    for i in range(1, n):
-        if points[i][0] < points[l][0]:
-            l = i
-        elif points[i][0] == points[l][0]:
-            if points[i][1] > points[l][1]:
-                l = i
-
-    hull = []
-    '''
-    Start from leftmost point, keep moving counterclockwise
-    until reach the start point again. This loop runs O(h)
-    times where h is number of points in result or output.
-    '''
-    p = l
-    while (True):
-        # Add current point to result
-        hull.append([points[p][0], points[p][1]])
-
-        '''
-        Search for a point 'q' such that orientation(p, q,
-        x) is counterclockwise for all points 'x'. The idea
-        is to keep track of last visited most counterclock-
-        wise point in q. If any point 'i' is more counterclock-
-        wise than q, then update q.
-        '''
-        q = (p + 1) % n
-
-        for i in range(n):
-
-            # If i is more counterclockwise
-            # than current q, then update q
-            if is_ccw(points[p], points[i], points[q]):
-                q = i
-        '''
-        Now q is the most counterclockwise with respect to p
-        Set p as q for next iteration, so that q is added to
-        result 'hull'
-        '''
-        p = q
-
-        # While we don't come to first point
-        if (p == l):
-            break
-
-    return hull
+    # Sort from leftmost (topmost of these) to rightmost point
+    idcs = sorted(range(len(points)), key=lambda i: (points[i][0], -points[i][1]))
+
+    # Chain of counterclockwise turns. No threshold is used, it would not be consistent for points close to each other
+    def counterclockwise_chain(idcs):
+        chain = []
+        for i in idcs:
+            while len(chain) > 1 and orientation_val(points[chain[-2]], points[chain[-1]], points[i]) >= 0:
+                chain.pop()
+            chain.append(i)
+        return chain[:-1]
+
+    # Lower part from left to right, upper part from right to left
+    hull = counterclockwise_chain(idcs) + counterclockwise_chain(idcs[::-1])
+    return [[points[i][0], points[i][1]] for i in hull]
 
 
 class Cone:
-- 
2.43.0


From 495dff5efd45b00bab6a3024a56aef7a94882fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:41 +0000
Subject: [PATCH 30/49] fix: cone polygon is invalid when a ray passes close to
 a corner of the bounding box

---
 utils/cg.py | 62 ++++++++++++++++++++---------------------------------
 1 file changed, 23 insertions(+), 39 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 23d204f..074793e 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -258,47 +258,31 @@ class Cone:
     def __str__(self):
         return "Cone: ({:s}, {:s}, {:s})".format(str(self.apex), str(self.dir1), str(self.dir2))
 
-    def polygon(self) -> shapely.geometry.Polygon:
+    # Index of the bounding box edge which is hit by the ray, and the point where it is hit
+    @staticmethod
+    def _border_intersection(ray, direction):
+        angle = np.arctan2(direction[1], direction[0]) + np.pi
+
+        if Cone.bb_corner_angles[0] <= angle < Cone.bb_corner_angles[1]:
+            idx = 0
+        elif Cone.bb_corner_angles[1] <= angle < Cone.bb_corner_angles[2]:
+            idx = 1
+        elif Cone.bb_corner_angles[2] <= angle < Cone.bb_corner_angles[3]:
+            idx = 2
+        else:
+            idx = 3
 
-        angle1 = np.arctan2(self.dir1[1], self.dir1[0]) + np.pi
-        angle2 = np.arctan2(self.dir2[1], self.dir2[0]) + np.pi
+        # The apex is not the center of the bounding box. Thus, close to the corners a neighboring edge may be hit
+        for i in [idx, (idx + 1) % 4, (idx + 3) % 4]:
+            border = ray.ray_intersection(Cone.bb_edges[i])
+            if border is not None and max(abs(border.x), abs(border.y)) < Cone.bb_width + 1e-3:
+                return i, Point(*np.clip(border.xy, -Cone.bb_width, Cone.bb_width))
+        print("SOMETHING WRONG!")
+        return idx, None
 
-        if Cone.bb_corner_angles[0] <= angle1 < Cone.bb_corner_angles[1]:
-            ray1_intersection_idx = 0
-        elif  Cone.bb_corner_angles[1] <= angle1 < Cone.bb_corner_angles[2]:
-            ray1_intersection_idx = 1
-        elif  Cone.bb_corner_angles[2] <= angle1 < Cone.bb_corner_angles[3]:
-            ray1_intersection_idx = 2
-        else:
-            ray1_intersection_idx = 3
-
-        if Cone.bb_corner_angles[0] <= angle2 < Cone.bb_corner_angles[1]:
-            ray2_intersection_idx = 0
-        elif  Cone.bb_corner_angles[1] <= angle2 < Cone.bb_corner_angles[2]:
-            ray2_intersection_idx = 1
-        elif  Cone.bb_corner_angles[2] <= angle2 < Cone.bb_corner_angles[3]:
-            ray2_intersection_idx = 2
-        else:
-            ray2_intersection_idx = 3
-
-        r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
-        r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
-        if r1_border is None:
-            ray1_intersection_idx = (ray1_intersection_idx + 1) % 4
-            r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
-            if r1_border is None:
-                ray1_intersection_idx = (ray1_intersection_idx + 2) % 4
-                r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
-                if r1_border is None:
-                    print("SOMETHING WRONG!")
-        if r2_border is None:
-            ray2_intersection_idx = (ray2_intersection_idx + 1) % 4
-            r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
-            if r2_border is None:
-                ray2_intersection_idx = (ray2_intersection_idx + 2) % 4
-                r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
-                if r2_border is None:
-                    print("SOMETHING WRONG!")
+    def polygon(self) -> shapely.geometry.Polygon:
+        ray1_intersection_idx, r1_border = Cone._border_intersection(self.ray1, self.dir1)
+        ray2_intersection_idx, r2_border = Cone._border_intersection(self.ray2, self.dir2)
 
         vertices = [self.apex, r1_border.xy]
         c_idx = ray1_intersection_idx
-- 
2.43.0


From da6b81f231b0cfd10cb992828012d0277e316d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:32 +0000
Subject: [PATCH 31/49] fix: kernel points are chosen outside the admissible
 kernel when its selection set does not contain the triangle center

---
 starshaped_hull/cluster_and_starify.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 7edf320..7a455c4 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -157,6 +157,8 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     else:
         tc = shapely.geometry.Point(triangle_center)
         dist = min([p.exterior.distance(tc) for p in tcss.geoms])
+    # The triangle center may be outside the TCSS, but the triangle must be in the admissible kernel
+    dist = min(dist, cl.admissible_kernel.boundary.distance(shapely.geometry.Point(triangle_center)))
     triangle_length = min(epsilon, 0.9 * dist)
     kernel_points = equilateral_triangle(triangle_center, triangle_length)
     ts['triangle generation'] = toc(t0)-list(ts.values())[-1]
-- 
2.43.0


From a7275517bcefbf7f93d939469779004fb068d9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:24 +0000
Subject: [PATCH 32/49] fix: parts of a combination are lost in unions of
 almost coinciding polygons

---
 obstacles/starshaped_primitive_combination.py |  4 ++--
 starshaped_hull/starshaped_hull.py            |  4 ++--
 utils/cg.py                                   | 13 +++++++++++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 804ff4c..53dc218 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -1,7 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Frame, StarshapedObstacle, StarshapedPolygon
-from utils import is_ccw, is_cw, draw_shapely_polygon
+from utils import is_ccw, is_cw, draw_shapely_polygon, polygon_union
 import matplotlib.pyplot as plt
 
 # Note: Local == Global frame
@@ -234,4 +234,4 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         obs_pol = [obs.polygon() for obs in self._obstacle_cluster]
         if self._hull_cluster is not None:
             obs_pol += [self._hull_cluster]
-        self._polygon = shapely.ops.unary_union(obs_pol)
+        self._polygon = polygon_union(obs_pol)
diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index 8fde482..88e2889 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -1,7 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Polygon
-from utils import is_ccw, is_cw, line, ray, Cone, convex_hull
+from utils import is_ccw, is_cw, line, ray, Cone, convex_hull, polygon_union
 import matplotlib.pyplot as plt
 
 
@@ -26,7 +26,7 @@ def kernel_starshaped_hull(obstacles, kernel_points):
             print(obstacles)
 
     sub_pols = [kernel_starshaped_hull(o, kernel_points) for o in obstacles]
-    hull_polygon = shapely.ops.unary_union(sub_pols)
+    hull_polygon = polygon_union(sub_pols)
     if hull_polygon.is_empty:
         return None
     return hull_polygon
diff --git a/utils/cg.py b/utils/cg.py
index 074793e..ac34f9d 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -29,6 +29,19 @@ def line(a, b):
     return shapely.geometry.LineString([a + .0001 * (b - a), a + .9999 * (b - a)])
 
 
+# Union of polygons
+def polygon_union(polygons):
+    polygons = [p for p in polygons if not p.is_empty]
+    union = shapely.ops.unary_union(polygons)
+    # Parts of the union may get lost when edges almost coincide. In that case, snap the coordinates
+    union_margin = union.buffer(1e-6)
+    if not all([union_margin.covers(p) for p in polygons]):
+        union = shapely.union_all(polygons, grid_size=1e-9)
+        if union.geom_type == 'MultiPolygon' and len(union.geoms) == 1:
+            union = union.geoms[0]
+    return union
+
+
 # Random point on the triangle with vertices a, b and c
 def point_in_triangle(a, b, c):
     """
-- 
2.43.0


From d6ca8c9e5c3cdd238c1eefa456fd5ada1682b6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:19 +0000
Subject: [PATCH 33/49] fix: kernel point selection fails for admissible
 kernels with isolated points

---
 starshaped_hull/cluster_and_starify.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 7a455c4..f41c068 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -95,8 +95,15 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
 
     t0 = tic()
     ts = {}
+    # Intersections may in addition contain isolated points and lines. Keep only the areas
+    def areas(geometry):
+        if geometry.geom_type == 'GeometryCollection':
+            return shapely.ops.unary_union([g for g in geometry.geoms if g.area > 0])
+        return geometry
+
     # Find triangle center selection set (TCSS)
-    tcss = cl.admissible_kernel
+    admissible_kernel = areas(cl.admissible_kernel)
+    tcss = admissible_kernel
     # If obstacle is in exterior of workspace limit TCSS to workspace exterior
     if not cl.polygon_excluding_hull().within(workspace.polygon()):
         tcss_tmp = tcss.difference(workspace.polygon())
@@ -116,13 +123,11 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     ts['cluster intersection'] = toc(t0)-list(ts.values())[-1]
     if tcss_tmp.area > 1e-6:
         tcss = tcss_tmp
-    # Intersections may in addition contain isolated points and lines. Keep only the areas
-    if tcss.geom_type == 'GeometryCollection':
-        tcss = shapely.ops.unary_union([g for g in tcss.geoms if g.area > 0])
+    tcss = areas(tcss)
 
     # If not tc from previous iteraion, use closest point to TCSS in ad ker as triangle center
     if triangle_center_prev is None:
-        tc, _ = shapely.ops.nearest_points(cl.admissible_kernel, tcss.centroid)
+        tc, _ = shapely.ops.nearest_points(admissible_kernel, tcss.centroid)
         triangle_center = np.array(tc.coords[0])
         while on_x_xg_line(triangle_center):
             triangle_center += np.random.uniform(-1e-4, 1e-4, 2)
@@ -140,7 +145,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
                 if is_ccw(x, xg, splitted_tcss[i].centroid.coords[0]) == is_ccw(x, xg, triangle_center_prev):
                     triangle_center_selection_set = splitted_tcss[i]
                     break
-        tc, _ = shapely.ops.nearest_points(cl.admissible_kernel, triangle_center_selection_set.centroid)
+        tc, _ = shapely.ops.nearest_points(admissible_kernel, triangle_center_selection_set.centroid)
         triangle_center = np.array(tc.coords[0])
 
     ts['tc selection'] = toc(t0)-list(ts.values())[-1]
@@ -158,7 +163,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
         tc = shapely.geometry.Point(triangle_center)
         dist = min([p.exterior.distance(tc) for p in tcss.geoms])
     # The triangle center may be outside the TCSS, but the triangle must be in the admissible kernel
-    dist = min(dist, cl.admissible_kernel.boundary.distance(shapely.geometry.Point(triangle_center)))
+    dist = min(dist, admissible_kernel.boundary.distance(shapely.geometry.Point(triangle_center)))
     triangle_length = min(epsilon, 0.9 * dist)
     kernel_points = equilateral_triangle(triangle_center, triangle_length)
     ts['triangle generation'] = toc(t0)-list(ts.values())[-1]
-- 
2.43.0


From 50ebb9fb583a21af3b1952fcd29c4353671735bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:28 +0000
Subject: [PATCH 34/49] fix: clusters of the same obstacles are not recognised
 when the obstacles are listed in another order

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index f41c068..408ba8b 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -9,7 +9,7 @@ import matplotlib.pyplot as plt
 
 class ObstacleCluster:
     def __init__(self, obstacles):
-        self.name = '_'.join([str(o.id()) for o in obstacles])
+        self.name = '_'.join(sorted([str(o.id()) for o in obstacles]))
         self.obstacles = obstacles
         self.cluster_obstacle = None if len(obstacles) > 1 else obstacles[0]
         self.kernel_points = None
-- 
2.43.0


From 45c61fcf4d0fc49e09d7ff3cbc99b9090206f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:32 +0000
Subject: [PATCH 35/49] fix: union of a single polygon is returned as a multi
 polygon

---
 utils/cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index ac34f9d..cabd7bc 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -37,8 +37,8 @@ def polygon_union(polygons):
     union_margin = union.buffer(1e-6)
     if not all([union_margin.covers(p) for p in polygons]):
         union = shapely.union_all(polygons, grid_size=1e-9)
-        if union.geom_type == 'MultiPolygon' and len(union.geoms) == 1:
-            union = union.geoms[0]
+    if union.geom_type == 'MultiPolygon' and len(union.geoms) == 1:
+        union = union.geoms[0]
     return union
 
 
-- 
2.43.0


From 19738a06385d3bfffb07d894460993ef2bc4c6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:26 +0000
Subject: [PATCH 36/49] fix: edges of generated convex polygons are mixed up
 when several have the same direction

---
 utils/cg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index cabd7bc..c49879b 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -438,8 +438,9 @@ def generate_convex_polygon(n, box=None):
 
     # Sort the vectors by angle
     angle = [np.arctan2(yVec[i], xVec[i]) for i in range(n)]
-    xVec = [x for _, x in sorted(zip(angle, xVec))]
-    yVec = [y for _, y in sorted(zip(angle, yVec))]
+    idcs = sorted(range(n), key=lambda i: angle[i])
+    xVec = [xVec[i] for i in idcs]
+    yVec = [yVec[i] for i in idcs]
 
     # Lay them end-to-end
     x, y = 0, 0
-- 
2.43.0


From 0a98f8c41e80b697f1693f38951da20a25c48b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:21 +0000
Subject: [PATCH 37/49] fix: queries on a cluster whose hull extensions are
 separate polygons fail

---
 obstacles/starshaped_primitive_combination.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 53dc218..f86b0f3 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -203,7 +203,12 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         if self._hull_cluster is None:
             return []
         line_sh = shapely.geometry.LineString(line)
-        intersection_points_shapely = line_sh.intersection(self._hull_cluster.exterior)
+        # The hull extensions of the obstacles in the cluster may be separate polygons
+        hulls = self._hull_cluster.geoms if self._hull_cluster.geom_type == 'MultiPolygon' else [self._hull_cluster]
+        return [p for hull in hulls for p in self._line_intersections(line_sh, hull.exterior)]
+
+    def _line_intersections(self, line_sh, exterior):
+        intersection_points_shapely = line_sh.intersection(exterior)
         if intersection_points_shapely.is_empty:
             return []
         if intersection_points_shapely.geom_type == 'Point':
-- 
2.43.0


From 3fcbe5bb3479207487df5c66cf9774dc93e920ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 38/49] fix: kernel of nonconvex starshaped polygons is wrong
 or missing for symmetric, large or narrow shapes

The scan of the kernel boundary takes points up to 1e-2 away from a line for points on the line and mixes up
its half lines when more than two edge lines meet in a point. Clip by the half planes of the edges instead.
---
 obstacles/starshaped_polygon.py | 694 +-------------------------------
 1 file changed, 19 insertions(+), 675 deletions(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 94bf958..0fc4e27 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -2,7 +2,7 @@ from obstacles import Frame, StarshapedObstacle, Polygon
 import matplotlib.pyplot as plt
 import numpy as np
 import shapely
-from utils import is_cw, is_ccw, is_collinear, orientation_val, get_intersection, is_between, tic, toc
+from utils import tic, toc
 
 
 class StarshapedPolygon(Polygon, StarshapedObstacle):
@@ -193,680 +193,24 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
             self._kernel = self._polygon
             return
 
-        # Returns true if vertex v[i, :] is reflex
-        def is_reflex(i):
-            return is_cw(v[i - 1, :], v[i, :], v[(i + 1) % v.shape[0], :])
-
-        # Show polygon
-        def draw(xk, F1_idx, L1_idx, i, xk_bounded):
-            v_ext = np.vstack((v, v[0, :]))
-            xk_ext = np.vstack((xk, xk[0, :])) if xk_bounded else xk
-            plt.plot(v_ext[:, 0], v_ext[:, 1], label='v', marker='.')
-            # plt.plot(v_ext[:, 0], v_ext[:, 1], label='v')
-            # plt.text(v_ext[0, 0], v_ext[0, 1], 'v0')
-            plt.text(xk[0, 0], xk[0, 1], 'xk0')
-            axes = plt.gca()
-            xlim, ylim = axes.get_xlim(), axes.get_ylim()
-            plt.plot(xk_ext[:, 0], xk_ext[:, 1], label='xk')
-            plt.plot(xk[F1_idx, 0], xk[F1_idx, 1], marker='o', c='c', label='F1')
-            end_point = v[i, :] + INF_VAL * (xk[F1_idx, :] - v[i, :]) / np.linalg.norm(xk[F1_idx, :] - v[i, :])
-            plt.plot([v[i, 0], end_point[0]], [v[i, 1], end_point[1]], 'c--')
-            plt.plot(xk[L1_idx, 0], xk[L1_idx, 1], marker='o', c='b', label='L1')
-            end_point = v[i, :] + INF_VAL * (xk[L1_idx, :] - v[i, :]) / np.linalg.norm(xk[L1_idx, :] - v[i, :])
-            plt.plot([v[i, 0], end_point[0]], [v[i, 1], end_point[1]], 'b--')
-            plt.plot(v[i, 0], v[i, 1], marker='x', c='r', ms=12, label='v{}'.format(i))
-            axes.set_xlim(xlim)
-            axes.set_ylim(ylim)
-
-        def point_left_of_line(point, line_head, line_tail):
-            return is_ccw(line_head, line_tail, point)
-
-        def point_right_of_line(point, line_head, line_tail):
-            return is_cw(line_head, line_tail, point)
-
-        pol = shapely.ops.orient(self._polygon)
-        v = np.asarray(pol.exterior.coords)[:-1, :]
-
-        # Remove points in line
-        v_idcs = np.arange(v.shape[0])
+        # The kernel is the part of the polygon to the left of all lines through its (counterclockwise) edges
+        v = np.asarray(shapely.ops.orient(self._polygon).exterior.coords)[:-1, :]
+        kernel = np.asarray(self._polygon.convex_hull.exterior.coords)[:-1, :]
         for i in range(v.shape[0]):
-            if is_collinear(v[v_idcs[i - 2], :], v[v_idcs[i - 1], :], v[v_idcs[i], :]):
-                v_idcs[i - 1] = v_idcs[i - 2]
-        v_idcs = np.unique(v_idcs)
-        v = v[v_idcs, :]
-        if is_collinear(v[-2, :], v[-1, :], v[0, :]):
-            v = v[:-1]
-
-        N = v.shape[0]
-        for i in range(N):
-            # Order v to have v[:, 0] as reflex vertex
-            if is_reflex(i):
-                v = np.vstack((v[i:, :], v[:i, :]))
-                break
-
-        INF_VAL = 300.
-        # Initial step
-        F1 = v[0, :] + INF_VAL * (v[0, :] - v[1, :]) / np.linalg.norm(v[0, :] - v[1, :])
-        L1 = v[0, :] + INF_VAL * (v[0, :] - v[-1, :]) / np.linalg.norm(v[0, :] - v[-1, :])
-        xk = np.vstack((F1, v[0, :], L1))
-        F1_idx = 0  # Index of point F1 in xk
-        L1_idx = 2  # Index of point L1 in xk
-        xk_bounded = False
-
-        if verbose:
-            print("------")
-            print(0)
-            print("F1:", end=" ")
-            print(F1)
-            print("L1:", end=" ")
-            print(L1)
-        if debug:
-            draw(xk, F1_idx, L1_idx, 0, xk_bounded)
-            plt.show()
-
-        for i in range(1, N):
-
-            if verbose:
-                print("------")
-                print(i)
-                print("F1 index: {}".format(F1_idx))
-                print("L1 index: {}".format(L1_idx))
-
-            L1 = xk[L1_idx, :]
-            F1 = xk[F1_idx, :]
-            vi = v[i, :]
-            vi_1 = v[(i + 1) % N, :]
-
-            # (1) vi is reflex
-            if is_reflex(i):
-                # (1.2) F1 lies to the left of line ->(vi->vi+1)->vi+1
-                start_point = vi - INF_VAL * (vi_1 - vi) / np.linalg.norm(vi_1 - vi)
-                if point_left_of_line(F1, start_point, vi_1):
-                    case = 2
-                    if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                 label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                        plt.title("F1 lies to the left of line ->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                        plt.show()
-                    if verbose:
-                        print("(1.2) - F1 ({},{}) lies to the left of line ->(v{}->v{})->v{}".format(F1[0], F1[0], i,
-                                                                                                     i + 1, i + 1))
-                # (1.1) F1 lies on or to the right of line ->(vi->vi+1)->vi+1
-                else:
-                    case = 1
-                    if verbose:
-                        print(
-                            "(1.1) - F1 ({},{}) lies on or to the right of line ->(v{}->v{})->v{}".format(F1[0], F1[0],
-                                                                                                          i, i + 1,
-                                                                                                          i + 1))
-                        print("Scan xk ccw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                   i + 1,
-                                                                                                                   i + 1))
-                    # Scan xk ccw from F1 to L1 until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                    w1 = None
-                    idx_offsets = range(1, xk.shape[0] + 1)
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        if not xk_bounded and t == 0:
-                            break
-                        # Get intersection w1 of current edge and line ->(vi->vi+1)->vi+1
-                        wt_prev = xk[t - 1, :]
-                        wt = xk[t, :]
-                        w1 = get_intersection(wt_prev, wt, start_point, vi_1)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w1 is None else 'g'
-                            plt.plot([wt_prev[0], wt[0]], [wt_prev[1], wt[1]], marker='*', color=col, label="edge")
-                            plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                     label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                            plt.title(
-                                "Scan xk ccw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                     i + 1,
-                                                                                                                     i + 1))
-                        if w1 is not None:
-                            if debug:
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.legend()
-                                plt.show()
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-
-                        if t == L1_idx:
-                            break
-                    # If no intersecting line is reached no kernel exists
-                    if w1 is None:
-                        # if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.title('No kernel found.. Polygon not starshaped.')
-                        plt.legend()
-                        plt.show()
-                        return False
-                    if verbose:
-                        print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w1[0], w1[1], i, i + 1,
-                                                                                            i + 1))
-                        print("Scan xk cw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                  i + 1,
-                                                                                                                  i + 1))
-                    # Scan xk cw from F1 until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                    w2 = None
-                    idcs_list = np.flip(np.roll(np.arange(xk.shape[0]), -F1_idx - 1)) if xk_bounded else range(F1_idx,
-                                                                                                               0, -1)
-                    # for s in range(F1_idx, 0, -1):
-                    for s in idcs_list:
-                        ws = xk[s, :]
-                        ws_prev = xk[s - 1, :]
-                        # Get intersection w2 of edge and line ->(vi->vi+1)->vi+1
-                        w2 = get_intersection(ws_prev, ws, start_point, vi_1)
-
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                            col = 'r' if w2 is None else 'g'
-                            plt.plot([ws_prev[0], ws[0]], [ws_prev[1], ws[1]], marker='*', color=col, label="edge")
-                            plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                     label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                            plt.title(
-                                "Scan xk cw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                    i + 1,
-                                                                                                                    i + 1))
-
-                        if w2 is not None:
-                            if xk_bounded and s > t:
-                                alpha = xk[xk.shape[0]:, :]  # Empty array
-                                beta = xk[t:s, :]
-                                L1_idx = L1_idx - t + 2
-                            else:
-                                alpha = xk[:s, :]
-                                beta = xk[t:, :]
-                                L1_idx = L1_idx - t + s + 2
-                            if debug:
-                                print("xk: ", end=" ")
-                                print(xk)
-                                print("alpha: ", end=" ")
-                                print(alpha)
-                                print("beta: ", end=" ")
-                                print(beta)
-                                print("w1: ", end=" ")
-                                print(w1)
-                                print("w2: ", end=" ")
-                                print(w2)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            xk = np.vstack((alpha, w2, w1, beta))
-                            w1_idx = alpha.shape[0] + 1
-                            w2_idx = alpha.shape[0]
-                            ####### F1 index reassignment should not be necessary for this case
-                            F1_idx = w2_idx
-                            # L1_idx = L1_idx - t + s + 2
-
-                            if verbose:
-                                print("Update 1")
-                                print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w2[0], w2[1], i,
-                                                                                                    i + 1, i + 1))
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached
-                    if w2 is None:
-                        # Test if xk+1 is bounded
-                        # If slope ->(vi->vi+1)->vi+1 is comprised between the slopes of initial and final half lines of xk,
-                        if (orientation_val(xk[-2, :], xk[-1, :], start_point) * orientation_val(vi_1, start_point,
-                                                                                                 xk[0, :])) > 0:
-                            beta = xk[t:, :]
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.plot(xk[:2, 0], xk[:2, 1], '--c', label="initial half line")
-                                plt.plot(xk[-2:, 0], xk[-2:, 1], '--m', label="final half line")
-                                plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                         label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                plt.title(
-                                    "->(v{}->v{})->v{} between initial and finial half lines of xk".format(
-                                        i, i + 1, i + 1))
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 2 - xk still unbounded")
-                            # then xk+1= ->(vi->vi+1)->w1->beta is also unbounded.
-                            xk = np.vstack((start_point, w1, beta))
-                            w1_idx = 1
-                            # xk_bounded = False
-                            F1_idx = 0
-                            L1_idx -= t - 1
-
-
-                        else:
-                            # otherwise scan xk cw from xk[-1,:] until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                            if verbose:
-                                print(
-                                    "Scan xk cw from end until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                        i, i + 1, i + 1))
-                            w2 = None
-                            if xk_bounded:
-                                r = xk.shape[0]
-                                w2 = get_intersection(xk[0, :], xk[r - 1, :], start_point, vi_1)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                    col = 'r' if w2 is None else 'g'
-                                    plt.plot([xk[r - 1, 0], xk[0, 0]], [xk[r - 1, 1], xk[0, 1]], marker='*', color=col,
-                                             label="edge")
-                                    plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*',
-                                             color='y',
-                                             label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                    plt.title(
-                                        "Scan xk cw from xk[-1, :] until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                            i, i + 1, i + 1))
-                                    if w2 is not None:
-                                        delta = xk[t:r, :]
-                                        if debug:
-                                            print(t, r)
-                                            plt.plot(delta[:, 0], delta[:, 1], 'k--', label="delta")
-                                            plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                            plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                            plt.legend()
-                                            plt.show()
-                                    if debug:
-                                        plt.legend()
-                                        plt.show()
-                            if w2 is None:
-                                for r in range(xk.shape[0] - 1, 0, -1):
-                                    # Get intersection w2 of edge and line ->(vi->vi+1)->vi+1
-                                    w2 = get_intersection(xk[r, :], xk[r - 1, :], start_point, vi_1)
-                                    if debug:
-                                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                        plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                        col = 'r' if w2 is None else 'g'
-                                        plt.plot([xk[r - 1, 0], xk[r, 0]], [xk[r - 1, 1], xk[r, 1]], marker='*',
-                                                 color=col, label="edge")
-                                        plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*',
-                                                 color='y', label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                        plt.title(
-                                            "Scan xk cw from xk[-1, :] until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                                i, i + 1, i + 1))
-                                    if w2 is not None:
-                                        delta = xk[t:r, :]
-                                        if debug:
-                                            print(t, r)
-                                            plt.plot(delta[:, 0], delta[:, 1], 'k--', label="delta")
-                                            plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                            plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                            plt.legend()
-                                            plt.show()
-                                        break
-                                    if debug:
-                                        plt.legend()
-                                        plt.show()
-                            if verbose:
-                                print("Update 3")
-                                print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w2[0], w2[1], i,
-                                                                                                    i + 1, i + 1))
-                            # Set xk as delta-w2-w1
-                            xk = np.vstack((delta, w2, w1))
-                            w1_idx = delta.shape[0] + 1
-                            w2_idx = delta.shape[0]
-                            xk_bounded = True
-
-                            F1_idx = 0
-                            L1_idx = min(L1_idx - t, xk.shape[0] - 1)
-
-                # F1 update
-                if case == 1:
-                    # If ->(vi->vi+1)->vi+1 has just one intersection with xk F1 = startpoint
-                    if w2 is None:
-                        F1_idx = 0
-                    # Otherwise F1 = w2
-                    else:
-                        F1_idx = w2_idx
-                if case == 2:
-                    # Scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the
-                    # right of vi+1->(vi+1->wt)->. Let F1 = wt.
-                    idx_offsets = range(xk.shape[0])
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        w_next = xk[(t + 1) % xk.shape[0], :]
-                        line_end_point = vi_1 + INF_VAL * (xk[t, :] - vi_1)
-                        if point_right_of_line(w_next, vi_1, line_end_point):
-                            F1_idx = t
-                            break
-
-                # Check update of previous L1 index for new xk
-                # if not np.isclose(np.linalg.norm(L1 - xk[L1_idx, :]), 0):
-                # print("BAD L1 update [{},{}] -> [{},{}]".format(xk[L1_idx, 0], xk[L1_idx, 1], L1[0], L1[1]))
-                # plt.figure(2)
-                # draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                # plt.show()
-
-                # L1 update
-                # scan xk ccw from L1 until find vertex wu s.t. wu+1 lies to the
-                # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                idx_offsets = range(xk.shape[0])
-                for off in idx_offsets:
-                    u = (L1_idx + off) % xk.shape[0]
-                    w_next = xk[(u + 1) % xk.shape[0], :]
-                    line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                    if point_left_of_line(w_next, vi_1, line_end_point):
-                        L1_idx = u
-                        break
-
-            else:
-                if verbose:
-                    print("(2)")
-                # Endpoint for line vi->(vi->vi+1)->
-                end_point = vi + INF_VAL * (vi_1 - vi) / np.linalg.norm(vi_1 - vi)
-
-                # (2.2) L1 lies to the left of line vi->(vi->vi+1)->
-                if point_left_of_line(L1, vi, end_point):
-                    case = 2
-                    if verbose:
-                        print("(2.2) - L1 ({},{}) lies to the left of line v{}->(v{}->v{})->".format(L1[0], L1[1], i, i,
-                                                                                                     i + 1))
-                    # xk stays the same
-
-                    if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.plot([end_point[0], vi[0]], [end_point[1], vi[1]], marker='*', color='y',
-                                 label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                        plt.title("L1 lies to the left of line v{}->(v{}->v{})->".format(i, i, i + 1))
-                        plt.show()
-
-                # (2.1) L1 lies on or to the right of line vi->(vi->vi+1)->
-                else:
-                    case = 1
-                    if verbose:
-                        print(
-                            "(2.1) - L1 ({},{}) lies on or to the right of line v{}->(v{}->v{})->".format(L1[0], L1[1],
-                                                                                                          i, i, i + 1))
-                        print(
-                            "Scan xk cw from L1 until we reach F1 or an edge intersecting line v{}->(v{}->v{})->".format(
-                                i, i, i + 1))
-                    # Scan xk cw from L1 until we reach F1 or an edge intersecting line vi->(vi->vi+1)->
-                    idx_offsets = range(xk.shape[0])
-                    w1 = None
-                    for off in idx_offsets:
-                        t = L1_idx - off
-                        # If circular
-                        if t < 0:
-                            t += xk.shape[0]
-                        if t == F1_idx:
-                            break
-                        # Get intersection w1 of edge and line vi->(vi->vi+1)->
-                        w1 = get_intersection(xk[t, :], xk[t - 1, :], vi, end_point)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w1 is None else 'g'
-                            plt.plot([xk[t - 1, 0], xk[t, 0]], [xk[t - 1, 1], xk[t, 1]], marker='*', color=col,
-                                     label="edge")
-                            plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                     label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                            plt.title(
-                                "Scan xk cw from L1 until we reach F1 or an edge intersecting line v{}->(v{}->v{})->".format(
-                                    i,
-                                    i,
-                                    i + 1))
-                        if w1 is not None:
-                            if debug:
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.legend()
-                                plt.show()
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached no kernel exists
-                    if w1 is None:
-                        # if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.title('No kernel found. Polygon not starshaped.')
-                        plt.show()
-                        return False
-
-                    if verbose:
-                        print("Found intersection ({},{}) at line v{}->(v{}->v{})-> for edge ({},{})-({},{})".format(
-                            w1[0], w1[1], i, i, i + 1, xk[t - 1, 0], xk[t - 1, 1], xk[t, 0], xk[t, 1]))
-                        print("Scan xk ccw from L1 until we reach edge intersecting line v{}->(v{}->v{})->".format(i,
-                                                                                                                   i,
-                                                                                                                   i + 1))
-                    # Scan xk ccw from L1 until we reach edge w2 intersecting line vi->(vi->vi+1)->
-                    w2 = None
-                    idx_offsets = range(1, xk.shape[0] + 1)
-                    for off in idx_offsets:
-                        s = (L1_idx + off) % xk.shape[0]
-                        if not xk_bounded and s == 0:
-                            break
-                        # Get intersection w2 of edge and line vi->(vi->vi+1)->
-                        w2 = get_intersection(xk[s - 1, :], xk[s, :], vi, end_point)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w2 is None else 'g'
-                            plt.plot([xk[s - 1, 0], xk[s, 0]], [xk[s - 1, 1], xk[s, 1]], marker='*', color=col,
-                                     label="edge")
-                            plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                     label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                            plt.title(
-                                "Scan xk ccw from L1 until we reach edge intersecting line v{}->(v{}->v{})->".format(i,
-                                                                                                                     i,
-                                                                                                                     i + 1))
-                        if w2 is not None:
-                            if xk_bounded and t > s:
-                                alpha = xk[xk.shape[0]:, :]  # Empty array
-                                beta = xk[s:t, :]
-                            else:
-                                alpha = xk[:t, :]
-                                beta = xk[s:, :]
-                            if debug:
-                                print("xk: ", end=" ")
-                                print(xk)
-                                print("alpha: ", end=" ")
-                                print(alpha)
-                                print("beta: ", end=" ")
-                                print(beta)
-                                print("w1: ", end=" ")
-                                print(w1)
-                                print("w2: ", end=" ")
-                                print(w2)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 1")
-                                print(
-                                    "Found intersection ({},{}) at line v{}->(v{}->v{})-> for edge ({},{})-({},{})".format(
-                                        w2[0], w2[1], i, i, i + 1, xk[s, 0], xk[s, 1], xk[(s + 1) % xk.shape[0], 0],
-                                        xk[(s + 1) % xk.shape[0], 1]))
-
-                            xk = np.vstack((alpha, w1, w2, beta))
-                            w1_idx = alpha.shape[0]
-                            w2_idx = alpha.shape[0] + 1
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached
-                    if w2 is None:
-                        # Test if xk+1 is bounded
-                        # If slope vi->(vi->vi+1)-> is comprised between the slopes of initial and final half lines of xk,
-                        if not xk_bounded and ((orientation_val(xk[-2, :], xk[-1, :], end_point) * orientation_val(vi,
-                                                                                                                   end_point,
-                                                                                                                   xk[0,
-                                                                                                                   :])) > 0):
-                            alpha = xk[:t, :]
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.plot(xk[:2, 0], xk[:2, 1], '--c', label="initial half line")
-                                plt.plot(xk[-2:, 0], xk[-2:, 1], '--m', label="final half line")
-                                plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                         label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                                plt.title(
-                                    "v{}->(v{}->v{})-> between initial and final half lines of xk".format(
-                                        i, i, i + 1))
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 2 - xk still unbounded")
-                            # then xk+1= alpha->w1->(vi->vi+1)-> is also unbounded.
-                            xk = np.vstack((alpha, w1, end_point))
-                            w1_idx = alpha.shape[0]
-                            L1_idx = xk.shape[0] - 1
-                            F1_idx = 0
-                        else:
-                            if verbose:
-                                print(
-                                    "Scan xk ccw from start until we reach edge intersecting line v{}->(v{}->v{})->".format(
-                                        i,
-                                        i,
-                                        i + 1))
-                            # otherwise scan xk ccw from xk[0,:] until we reach edge intersecting line vi->(vi->vi+1)->
-                            w2 = None
-                            for r in range(1, xk.shape[0] + 1):
-                                # Get intersection w2 of edge and line vi->(vi->vi+1)->
-                                w2 = get_intersection(xk[r - 1, :], xk[r % xk.shape[0], :], vi, end_point)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    col = 'r' if w2 is None else 'g'
-                                    plt.plot([xk[r - 1, 0], xk[r % xk.shape[0], 0]],
-                                             [xk[r - 1, 1], xk[r % xk.shape[0], 1]], marker='*', color=col,
-                                             label="edge")
-                                    plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                             label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                                    plt.title(
-                                        "Scan xk ccw from xk[0,:] until we reach edge intersecting line v{}->(v{}->v{})->".format(
-                                            i,
-                                            i,
-                                            i + 1))
-                                if w2 is not None:
-                                    delta = xk[r:t, :]
-                                    if debug:
-                                        plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                        plt.legend()
-                                        plt.show()
-                                    break
-                                if debug:
-                                    plt.legend()
-                                    plt.show()
-                            if verbose:
-                                print("Update 3")
-                                print("Found intersection ({},{}) at line v{}->(v{}->v{})->".format(w2[0], w2[1], i, i,
-                                                                                                    i + 1))
-                            # Set xk as delta-w1-vi-vi+1-w2
-                            xk = np.vstack((delta, w1, w2))
-                            w1_idx = delta.shape[0]
-                            w2_idx = delta.shape[0] + 1
-                            xk_bounded = True
-                            F1_idx = 0
-                            L1_idx = min(L1_idx - t, xk.shape[0] - 1)
-
-                # F1 update
-
-                # If vi+1 in vi->(vi->vi+1)->w1,
-                if case == 2 or is_between(vi, vi_1, w1):
-                    # scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the
-                    # right of vi+1->(vi+1->wt)->. Let F1 = wt.
-                    idx_offsets = range(xk.shape[0])
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        w_next = xk[(t + 1) % xk.shape[0], :]
-                        line_end_point = vi_1 + INF_VAL * (xk[t, :] - vi_1)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                     label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                            c = 'g' if point_right_of_line(w_next, vi_1, line_end_point) else 'r'
-                            plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                            plt.title(
-                                "Update F1\n scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the right of v{}->(v{}->wt)->.".format(
-                                    i + 1, i + 1))
-                            plt.legend()
-                            plt.show()
-                        if point_right_of_line(w_next, vi_1, line_end_point):
-                            F1_idx = t
-                            break
-                else:
-                    F1_idx = w1_idx
-
-                # L1 update
-                if case == 1:
-                    if w2 is not None:
-                        # If vi+1 in vi->(vi->vi+1)->w2
-                        if is_between(vi, vi_1, w2):
-                            L1_idx = w2_idx
-                        else:
-                            # scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the
-                            # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                            idx_offsets = range(xk.shape[0])
-                            for off in idx_offsets:
-                                u = (w2_idx + off) % xk.shape[0]
-                                w_next = xk[(u + 1) % xk.shape[0], :]
-                                line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                             label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                                    c = 'g' if point_left_of_line(w_next, vi_1, line_end_point) else 'r'
-                                    plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                                    plt.title(
-                                        "Update L1\n scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the left of v{}->(v{}->wt)->.".format(
-                                            i + 1, i + 1))
-                                    plt.legend()
-                                    plt.show()
-                                if point_left_of_line(w_next, vi_1, line_end_point):
-                                    L1_idx = u
-                                    break
-
-                    # (2.1.2) line vi->(vi->vi+1)-> intersects xk just in w1
-                    else:
-                        L1_idx = xk.shape[0] - 1
-                if case == 2:
-                    # print("(2.1.2)")
-                    if xk_bounded:
-                        # scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the
-                        # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                        idcs_list = np.roll(np.arange(xk.shape[0]), -L1_idx) if xk_bounded else range(L1_idx,
-                                                                                                      xk.shape[0] - 1)
-                        for u in idcs_list:
-                            w_next = xk[(u + 1) % xk.shape[0], :]
-                            line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                         label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                                c = 'g' if point_left_of_line(w_next, vi_1, line_end_point) else 'r'
-                                plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                                plt.title(
-                                    "Update L1\n scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the left of v{}->(v{}->wt)->.".format(
-                                        i + 1, i + 1))
-                                plt.legend()
-                                plt.show()
-                            if point_left_of_line(w_next, vi_1, line_end_point):
-                                L1_idx = u
-                                break
-
-            if verbose:
-                print("F1:", end=" ")
-                print(F1)
-                print("L1:", end=" ")
-                print(L1)
-                print("xk:", end=" ")
-                print(xk)
-        if debug or verbose:
-            draw(xk, F1_idx, L1_idx, 0, xk_bounded)
-            plt.show()
-        _, idx = np.unique(xk, axis=0, return_index=True)
-        xk = xk[np.sort(idx), :]
-        self._kernel = shapely.geometry.Polygon(xk)
+            dx, dy = v[i, :] - v[i - 1, :]
+            # Signed distance (scaled) of the vertices of the remaining part to the line, positive to the left
+            dist = dx * (kernel[:, 1] - v[i, 1]) - dy * (kernel[:, 0] - v[i, 0])
+            clipped = []
+            for j in range(kernel.shape[0]):
+                if dist[j - 1] * dist[j] < 0:
+                    t = dist[j - 1] / (dist[j - 1] - dist[j])
+                    clipped += [kernel[j - 1, :] + t * (kernel[j, :] - kernel[j - 1, :])]
+                if dist[j] >= 0:
+                    clipped += [kernel[j, :]]
+            if len(clipped) < 3:
+                print("No kernel found. Polygon not starshaped.")
+                return False
+            kernel = np.array(clipped)
+        self._kernel = shapely.geometry.Polygon(kernel)
 
 
-- 
2.43.0


From 967b591b998aeb24f14df499efe89fe635e082f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 39/49] fix: starshaped hull of nonconvex polygons is invalid
 or too large

---
 starshaped_hull/starshaped_hull.py | 169 ++---------------------------
 1 file changed, 8 insertions(+), 161 deletions(-)

diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index 88e2889..c3898b9 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -1,8 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Polygon
-from utils import is_ccw, is_cw, line, ray, Cone, convex_hull, polygon_union
-import matplotlib.pyplot as plt
+from utils import Cone, convex_hull, polygon_union
 
 
 def admissible_kernel(obstacle, x):
@@ -45,163 +44,11 @@ def convex_kernel_starshaped_hull(convex_obstacle, kernel_points):
     return shapely.geometry.Polygon(pol)
 
 
-# TODO: Improve computational consideration
-def polygon_kernel_starshaped_hull(polygon, kernel_points, debug=0):
+# The smallest set which contains the polygon and is starshaped w.r.t. all kernel points consists of the convex hulls of
+# the kernel points and each edge of the polygon
+def polygon_kernel_starshaped_hull(polygon, kernel_points):
     kernel_points = kernel_points.reshape((kernel_points.size//2, 2))
-
-    if kernel_points.shape[0] > 2:
-        # NOTE: Assumes kernel points convex
-        # convex_kernel_subset = shapely.geometry.Polygon(kernel_points[ConvexHull(kernel_points).vertices, :])
-        convex_kernel_subset = shapely.geometry.Polygon(kernel_points)
-
-    # polygon_sh = polygon.polygon()  # Shapely represenation of polygon
-    # vertices = np.asarray(polygon_sh.exterior.coords)[:-1, :]  # Vertices of polygon
-    vertices = np.asarray(polygon.exterior.coords)[:-1, :]  # Vertices of polygon
-    star_vertices = []  # Vertices of starshaped hull polygon
-    v_bar = kernel_points[0].copy() # Last vertex of starshaped hull polygon
-    e1_idx = 0
-    e2_idx = 0
-    k_centroid = np.mean(kernel_points, axis=0)
-    k_included = [False] * kernel_points.shape[0]
-
-    # Arrange vertices such that v_1 is the one with largest x-value and vendv1v2 is CCW, (assumes no collinear vertices in P)
-    start_idx = np.argmax(vertices[:, 0])
-    vertices = np.roll(vertices, -start_idx, axis=0)
-    if is_cw(vertices[-1], vertices[0], vertices[1]):
-        vertices = np.flip(vertices, axis=0)
-        vertices = np.roll(vertices, 1, axis=0)
-    # print("Initial sort: {:.1f}".format(toc(t0)))
-
-    # Iterate through all vertices
-    for v_idx, v in enumerate(vertices):
-        adjust_e1 = False
-        # Check if no ray r(v,kv) intersects with interior of polygon
-        if all([ray(v, k, v).disjoint(polygon) for k in kernel_points]):
-            # Add current vertex
-            if kernel_points.shape[0] < 3 or not convex_kernel_subset.contains(shapely.geometry.Point(v)):
-                star_vertices += [v]
-            if star_vertices:
-                # Intersections of lines l(k,v) and l(e1,e2)
-                e1, e2 = star_vertices[e1_idx], star_vertices[e2_idx]
-                e1_e2 = line(e1, e2)
-
-                for k in kernel_points:
-                    kv_e1e2_intersect = line(k,v).intersection(e1_e2)
-                    # Adjust to closest intersection to e2
-                    if not kv_e1e2_intersect.is_empty:
-                        adjust_e1 = True
-                        e1_candidate = np.array([kv_e1e2_intersect.x, kv_e1e2_intersect.y])
-                        if np.linalg.norm(e2 - e1_candidate) < np.linalg.norm(e2 - star_vertices[e1_idx]):
-                            star_vertices[e1_idx] = e1_candidate
-
-            if not adjust_e1:
-                for k_idx, k in enumerate(kernel_points):
-                    kps = [kp for kp in kernel_points if not np.array_equal(kp, k)]
-                    kv_P_intersect = line(k, v).intersection(polygon)
-
-                    # If l(k,v) intersects interior of P
-                    if not kv_P_intersect.is_empty:
-                        # Find last intersection of l(k,v) and polygon boundary
-                        if kv_P_intersect.geom_type == 'LineString':
-                            intersection_points = [np.array([ip[0], ip[1]]) for ip in kv_P_intersect.coords]
-                        elif kv_P_intersect.geom_type == 'MultiLineString':
-                            intersection_points = [np.array([ip[0], ip[1]]) for l in kv_P_intersect.geoms for ip in
-                                                   l.coords]
-                        elif kv_P_intersect.geom_type == 'GeometryCollection':
-                            intersection_points = []
-                            for g in kv_P_intersect.geoms:
-                                if g.geom_type == 'Point':
-                                    intersection_points += [np.array(g.coords[0])]
-                                if kv_P_intersect.geom_type == 'LineString':
-                                    intersection_points += [np.array([ip[0], ip[1]]) for ip in g.coords]
-                        else:
-                            intersection_points = []
-
-                        u = None
-                        u_v = None
-                        for u_candidate in intersection_points:
-                            u_v = line(u_candidate, v)
-                            if u_v.disjoint(polygon):
-                                u = u_candidate
-                                break
-                        if u is None:
-                            continue
-
-                        # If no ray r(u,k'v) intersect with interior of polygon
-                        if not any([ray(u, kp, v).intersects(polygon) for kp in kps]):
-                            # Adjust u if l(k',v_bar) intersects l(u,v)
-                            for kp in kps:
-                                kpvb_uv_intersect = line(kp, v_bar).intersection(u_v)
-                                if not kpvb_uv_intersect.is_empty:
-                                    u = np.array([kpvb_uv_intersect.x, kpvb_uv_intersect.y])
-                            # Append u to P*
-                            star_vertices += [u]
-                            # Update last augmented edge
-                            e1_idx, e2_idx = len(star_vertices)-1, len(star_vertices)-2
-                            # Swap last vertices if not CCW
-                            if is_ccw(u, v, vertices[v_idx-1]):
-                            # if is_ccw(v_bar, v, u):
-                            # if is_cw(k_centroid, v, u):
-                                star_vertices[-2], star_vertices[-1] = star_vertices[-1], star_vertices[-2]
-                                e1_idx, e2_idx = e2_idx, e1_idx
-                            adjust_e1 = True
-                    else:
-                        # Check if no ray r(k,k'v) intersect with interior of polygon
-                        if (not k_included[k_idx]) and (not any([ray(k, kp, v).intersects(polygon) for kp in kps])):
-                            k_included[k_idx] = True
-                            # Append k to P*
-                            star_vertices += [k]
-                            # Update last augmented edge
-                            e1_idx, e2_idx = len(star_vertices)-1, len(star_vertices)-2
-                            # Swap last vertices if not CCW
-                            if is_ccw(k, v, vertices[v_idx-1]):
-                            # if is_cw(k_centroid, v, k):
-                                star_vertices[-2], star_vertices[-1] = star_vertices[-1], star_vertices[-2]
-                                e1_idx, e2_idx = e2_idx, e1_idx
-                            adjust_e1 = True
-            # Update v_bar
-            v_bar = star_vertices[-1]
-
-            # Visualize debug information
-            if debug == 1:
-                plt.plot(*k_centroid, 'ko')
-                plt.plot(*polygon.exterior.xy, 'k')
-                plt.plot([p[0] for p in star_vertices], [p[1] for p in star_vertices], 'g-o', linewidth=2)
-                [plt.plot(*k, 'kx') for k in kernel_points]
-                [plt.plot(*line(k,v).xy, 'k--') for k in kernel_points]
-                if adjust_e1:
-                    plt.plot(*star_vertices[e1_idx], 'ys')
-                plt.show()
-
-    # Check not added kernel points if they should be included
-    for j in range(len(star_vertices)):
-        v, vp = star_vertices[j - 1], star_vertices[j]
-        for k_idx, k in enumerate(kernel_points):
-            if (not k_included[k_idx]) and is_cw(k, v, vp):
-                k_included[k_idx] = True
-                # Insert k
-                star_vertices = star_vertices[:j] + [k] + star_vertices[j:]
-                # Visualize debug information
-                if debug == 1:
-                    plt.plot(*k_centroid, 'ko')
-                    plt.plot(*polygon.exterior.xy, 'k')
-                    plt.plot([p[0] for p in star_vertices], [p[1] for p in star_vertices], 'g-o', linewidth=2)
-                    [plt.plot(*ki, 'kx') for ki in kernel_points]
-                    plt.plot(*line(k, v).xy, 'r--*')
-                    plt.plot(*line(k, vp).xy, 'r--*')
-                    plt.plot(*k, 'go')
-                    plt.show()
-    # print("Final kernel check: {:.1f}".format(toc(t0)))
-
-    if debug:
-        ax = plt.gca()
-        ax.plot(*polygon.exterior.xy, 'k')
-        ax.plot([p[0] for p in star_vertices] + [star_vertices[0][0]],
-                [p[1] for p in star_vertices] + [star_vertices[0][1]], 'g-o', linewidth=2)
-        # [ax.plot(star_vertices[i][0], star_vertices[i][1], 'r*') for i in augmented_vertex_idcs]
-        [ax.plot(*zip(k, sv), 'y--') for sv in star_vertices for k in kernel_points]
-        ax.plot(*k_centroid, 'bs')
-        plt.show()
-
-    return shapely.geometry.Polygon(star_vertices)
-
+    vertices = np.asarray(polygon.exterior.coords)
+    edge_hulls = [shapely.geometry.MultiPoint(np.vstack((vertices[i:i+2], kernel_points))).convex_hull
+                  for i in range(vertices.shape[0]-1)]
+    return polygon_union([polygon] + [h for h in edge_hulls if h.geom_type == 'Polygon'])
-- 
2.43.0


From d539970f8ef2d31a44bc4f0304999ff9e9efd64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 40/49] fix: polygons with almost coinciding vertices at reflex
 corners are taken for convex

---
 obstacles/polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index 53f3c10..ced56ed 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -140,6 +140,8 @@ class Polygon(Obstacle):
     # ------------ Private methods ------------ #
     def _check_convexity(self):
         v = np.asarray(self._polygon.exterior.coords)[:-1, :]
+        # Vertices which almost coincide hide the turn made there
+        v = v[np.linalg.norm(v - np.roll(v, 1, axis=0), axis=1) > 1e-6]
         i = 0
         N = v.shape[0]
         # Make sure first vertice is not collinear
-- 
2.43.0


From 216de3abe68b32ec6bd4cceafd7050480694e705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 41/49] fix: kernel of clusters with non-starshaped obstacles
 is chosen anywhere, not in the obstacles

---
 starshaped_hull/cluster_and_starify.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 408ba8b..f015e96 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -116,6 +116,8 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     if all([o.is_starshaped() for o in cl.obstacles]):
         for o in cl.obstacles:
             tcss_tmp = tcss_tmp.intersection(o.kernel())
+    else:
+        tcss_tmp = shapely.geometry.Polygon()
     ts['kernel intersection'] = toc(t0)-list(ts.values())[-1]
     # Else, try to use union of all obstacles in cluster
     if tcss_tmp.area < 1e-6:
-- 
2.43.0


From 63ab6bd6e9ac73e1bb43130854588451d9ad0a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 42/49] fix: planning fails for convex obstacles given as plain
 polygons

---
 starshaped_hull/cluster_and_starify.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index f015e96..eddea0c 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -1,6 +1,6 @@
 import shapely
 import numpy as np
-from obstacles import Frame, StarshapedPrimitiveCombination, Ellipse, StarshapedPolygon
+from obstacles import Frame, StarshapedObstacle, StarshapedPrimitiveCombination, Ellipse, StarshapedPolygon
 from utils import is_ccw, is_collinear, equilateral_triangle, Cone, tic, toc, draw_shapely_polygon
 from scipy.spatial import ConvexHull
 import starshaped_hull as sh
@@ -115,7 +115,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     # Try to use intersection of all obstacle kernels in cluster if all starshaped
     if all([o.is_starshaped() for o in cl.obstacles]):
         for o in cl.obstacles:
-            tcss_tmp = tcss_tmp.intersection(o.kernel())
+            tcss_tmp = tcss_tmp.intersection(o.polygon() if o.is_convex() else o.kernel())
     else:
         tcss_tmp = shapely.geometry.Polygon()
     ts['kernel intersection'] = toc(t0)-list(ts.values())[-1]
@@ -280,7 +280,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         hull_compute_time[0] += toc(t1)
         t1 = tic()
         k_centroid = np.mean(cl.kernel_points, axis=0)
-        if cluster_hull_extensions is None:
+        if cluster_hull_extensions is None and isinstance(o, StarshapedObstacle):
             cl.cluster_obstacle = o
             cl.cluster_obstacle.set_xr(k_centroid, input_frame=Frame.GLOBAL)
         else:
-- 
2.43.0


From e2818d329b4daefd2addc0659a81795252e1f59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:46 +0000
Subject: [PATCH 43/49] fix: kernel of a polygon has almost coinciding vertices
 and gets invalid when moved

---
 obstacles/starshaped_polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 0fc4e27..359fefb 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -200,6 +200,8 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
             dx, dy = v[i, :] - v[i - 1, :]
             # Signed distance (scaled) of the vertices of the remaining part to the line, positive to the left
             dist = dx * (kernel[:, 1] - v[i, 1]) - dy * (kernel[:, 0] - v[i, 0])
+            # Vertices on the line up to rounding must not be split in two
+            dist[np.abs(dist) < 1e-12 * np.sum(np.ptp(v, axis=0)**2)] = 0
             clipped = []
             for j in range(kernel.shape[0]):
                 if dist[j - 1] * dist[j] < 0:
-- 
2.43.0


From 05fb84a7aa9084f593052745d66e2518329ee71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 44/49] fix: no exclusion of points surrounded by the obstacle

---
 starshaped_hull/cluster_and_starify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index eddea0c..f6abbbf 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -241,7 +241,8 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if o_ex.id() == o.id():
                     continue
                 o_x_exclude = o_ex.extreme_points()
-                if not all([o.exterior_point(x_ex) for x_ex in o_x_exclude]):
+                # Exterior points surrounded by the obstacle have no tangents and cannot be excluded
+                if not all([o.exterior_point(x_ex) and o.tangent_points(x_ex) for x_ex in o_x_exclude]):
                     adm_ker_obstacles[o.id()][o_ex.id()] = None
                     continue
                 adm_ker_obstacles[o.id()][o_ex.id()] = sh.admissible_kernel(o, o_x_exclude[0]).polygon()
-- 
2.43.0


From 4bcf2151ad7f6ea9dc2316ddae468e9ec4f23a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 45/49] fix: plan is given up when the admissible kernel of a
 single obstacle is empty

---
 starshaped_hull/cluster_and_starify.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index f6abbbf..a1caf8f 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -267,6 +267,11 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         cl.admissible_kernel = adm_ker_robot_cones[o.id()].intersection(adm_ker_goal_cones[o.id()])
         kernel_time[0] += toc(t1)
 
+        if cl.admissible_kernel.is_empty or cl.admissible_kernel.area < 1e-6:
+            if verbose:
+                print("[Cluster and Starify]: Could not find disjoint starshaped obstacles. Admissible kernel empty for the obstacle " + cl.name)
+            return default_result()
+
         t1 = tic()
         cl_prev = extract_cluster(cl, previous_clusters)
         # if cl_prev is None:
-- 
2.43.0


From 6f9235253ee0a47971868bbc06c701159d36c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 46/49] fix: velocity of a combined obstacle is not that of the
 obstacle at its boundary

---
 obstacles/starshaped_primitive_combination.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index f86b0f3..834e1c8 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -69,15 +69,16 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         return intersection_points[np.argmax(dist_intersection_points)]
 
     def vel_intertial_frame(self, x):
+        # Velocity of the obstacle which forms the boundary in direction of x
         boundary_obs_idx = 0
         max_dist = -1
-        for i, ps in enumerate(self.line_intersection([self._xr, self._xr+10*(x-self._xr)])):
-            o_intersection_dist = max([np.linalg.norm(p-self._xr) for p in ps] + [-1])
+        line = self._reference_ray(x)
+        for i, o in enumerate(self._obstacle_cluster):
+            intersection_points = o.line_intersection(line, Frame.GLOBAL, Frame.GLOBAL)
+            o_intersection_dist = max([np.linalg.norm(p - self._xr) for p in intersection_points] + [-1])
             if o_intersection_dist > max_dist:
                 boundary_obs_idx = i
                 max_dist = o_intersection_dist
-        if boundary_obs_idx >= len(self._obstacle_cluster):
-            boundary_obs_idx -= len(self._obstacle_cluster)
         return self._obstacle_cluster[boundary_obs_idx].vel_intertial_frame(x)
 
     def normal(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL, x_is_boundary=False, type='weigthed_polygon_approx'):
-- 
2.43.0


From 6930ddc3dca51d02d9fe96f249891187d2517fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 47/49] fix: weighted normal of a starshaped polygon is no unit
 vector

---
 obstacles/starshaped_polygon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 359fefb..0760676 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -87,6 +87,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
             w = np.array([1/(d+1e-6) for d in dist])
             w /= sum(w)
             n_obstacle = edge_neighbors_normal.T.dot(w)
+            n_obstacle /= np.linalg.norm(n_obstacle)
         return self.rotate(n_obstacle, Frame.OBSTACLE, output_frame)
 
 
-- 
2.43.0


From 500c458ee140b11aafdbf3b5ba61cef8e3e31f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:42 +0000
Subject: [PATCH 48/49] fix: guarded reference point update raises for a region
 without exact kernel

---
 obstacles/starshaped_obstacle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/obstacles/starshaped_obstacle.py b/obstacles/starshaped_obstacle.py
index b12abb4..5dccc0c 100644
--- a/obstacles/starshaped_obstacle.py
+++ b/obstacles/starshaped_obstacle.py
@@ -20,7 +20,9 @@ class StarshapedObstacle(Obstacle):
     def set_xr(self, xr, input_frame=Frame.OBSTACLE, safe_set=False):
         new_xr = np.array(self.transform(xr, input_frame, Frame.OBSTACLE))
         if safe_set:
-            if self.kernel(Frame.OBSTACLE).intersects(shapely.geometry.Point(new_xr)):
+            kernel = self.kernel(Frame.OBSTACLE)
+            # A region which is starshaped up to tolerance only may have no kernel
+            if kernel is not None and kernel.intersects(shapely.geometry.Point(new_xr)):
                 self._xr = new_xr
         else:
             self._xr = new_xr
-- 
2.43.0


From 55d02999831f54cc9c7c5f9b6b5fafc609af014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:27 +0000
Subject: [PATCH 49/49] fix: crossings of a segment that runs along an edge and
 meets the boundary elsewhere raise

---
 obstacles/polygon.py                          | 4 ++--
 obstacles/starshaped_primitive_combination.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index ced56ed..4e3e3bf 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -82,8 +82,8 @@ class Polygon(Obstacle):
             intersection_points_obstacle = [np.array([p.x, p.y]) for p in intersection_points_shapely.geoms]
         elif intersection_points_shapely.geom_type == 'LineString':
             intersection_points_obstacle = [np.array([ip[0], ip[1]]) for ip in intersection_points_shapely.coords]
-        elif intersection_points_shapely.geom_type == 'MultiLineString':
-            intersection_points_obstacle = [np.array([ip[0], ip[1]]) for line in intersection_points_shapely.geoms for ip in line.coords]
+        elif intersection_points_shapely.geom_type in ('MultiLineString', 'GeometryCollection'):
+            intersection_points_obstacle = [np.array([ip[0], ip[1]]) for part in intersection_points_shapely.geoms for ip in part.coords]
         else:
             print(intersection_points_shapely)
         return [self.transform(ip, Frame.OBSTACLE, output_frame) for ip in intersection_points_obstacle]
diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 834e1c8..d6b2eae 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -218,9 +218,9 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             return [np.array([p.x, p.y]) for p in intersection_points_shapely.geoms]
         elif intersection_points_shapely.geom_type == 'LineString':
             return [np.array([ip[0], ip[1]]) for ip in intersection_points_shapely.coords]
-        elif intersection_points_shapely.geom_type == 'MultiLineString':
-            return [np.array([l[0], l[1]]) for line in intersection_points_shapely.geoms for
-                                            l in line.coords]
+        elif intersection_points_shapely.geom_type in ('MultiLineString', 'GeometryCollection'):
+            return [np.array([l[0], l[1]]) for part in intersection_points_shapely.geoms for
+                                            l in part.coords]
         else:
             print("[_hull_cluster_line_intersections]: Shapely geom_type not covered!")
             print(intersection_points_shapely)
-- 
2.43.0

