From ce56738643545d08a6d96334a22017b6309728d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 01/72] fix: medium beyond a surface is the enclosing node, not
 the next neighbour hit

---
 pvtrace/algorithm/photon_tracer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index 857dae1..80e0de2 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -103,7 +103,13 @@ def next_hit(scene, ray):
     hit_node = hit.hit
     distance = distance_between(ray.position, point)
     if container == hit_node:
+        # Leaving the hit node. Unless another node touches this surface the
+        # material beyond it is the innermost other node enclosing the ray; the
+        # next intersection may belong to a neighbour further along the path.
+        others = [x for x in intersections if x.hit is not hit_node]
         adjacent = intersections[1].hit
+        if others and not close_to_zero(intersections[1].distance - hit.distance):
+            adjacent = find_container(others)
     else:
         adjacent = hit_node
     return hit_node, (container, adjacent), point, distance
-- 
2.43.0


From aaa42eb9e30288f1fead7518f3f06c910d798ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 02/72] fix: engine kernel picks the enclosing node as the
 medium beyond a surface

---
 pvtrace/engine/_kernel.pyx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index f2a3fae..2b6918d 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -708,10 +708,20 @@ cdef int trace_one(
                     container = node
             if container < 0:
                 container = hit
-            if container == hit:
-                adjacent = hit_node[second]
-            else:
+            if container != hit:
                 adjacent = hit
+            else:
+                # Leaving the hit node. Unless another node touches this
+                # surface the medium beyond it is the innermost other node
+                # enclosing the ray; the next intersection may belong to a
+                # neighbour further along the path.
+                adjacent = hit_node[second]
+                if hit_t[second] - t0 > EPS:
+                    best = INFINITY
+                    for node in range(S.n_nodes):
+                        if node != hit and node_hits[node] == 1 and node_min_t[node] < best:
+                            best = node_min_t[node]
+                            adjacent = node
 
         if count > maxsteps:
             record(elog, base, &nevents, EV_KILL, -1, container, -1, -1, source,
-- 
2.43.0


From 78aea6690e448a9a0973c35f100d2c997423eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 03/72] fix: ray inside a non-convex mesh was not contained by
 it when crossing more than one wall

---
 pvtrace/algorithm/photon_tracer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index 80e0de2..9f67347 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -44,7 +44,9 @@ def find_container(intersections):
     if len(intersections) == 1:
         return intersections[0].hit
     count = collections.Counter([x.hit for x in intersections]).most_common()
-    candidates = [x[0] for x in count if x[1] == 1]
+    # The ray starts inside a closed shape if it crosses its boundary an odd number
+    # of times; more than once is possible when the shape is not convex.
+    candidates = [x[0] for x in count if x[1] % 2 == 1]
     pairs = []
     for intersection in intersections:
         node = intersection.hit
-- 
2.43.0


From 2142c805e87124c46d963e29909598ed534bcee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 04/72] fix: engine emits along the phase function in the
 container's frame

---
 pvtrace/engine/_kernel.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 2b6918d..6df3c79 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -799,8 +799,8 @@ cdef int trace_one(
                 # Radiative: re-emit with new direction (and wavelength)
                 sample_phase(S.comp_phase_type[comp], S.comp_phase_param[comp],
                              &rng, new_dir)
-                for i in range(3):
-                    direction[i] = new_dir[i]
+                # Phase functions are defined in the container's frame
+                transform_vector(S.l2w + container * 16, new_dir, direction)
                 source = comp
                 if ctype == COMP_LUMINOPHORE:
                     ax = S.ems_x + S.ems_start[comp]
-- 
2.43.0


From 07bcbfbbdfb60ec704d9056d7e13004652699180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 05/72] fix: spectrum CDF accounts for the spacing of
 non-uniform grids

---
 pvtrace/material/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index 235ef22..ef128b6 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -51,7 +51,7 @@ class Distribution(object):
                 self._cdf = cdf
                 self._edges = np.insert(x, x.size, 2 * x[-1] - x[-2])
             else:
-                cdf = np.cumsum((y[:-1] + y[1:]) * 0.5)
+                cdf = np.cumsum((y[:-1] + y[1:]) * 0.5 * np.diff(x))
                 cdf = cdf / np.max(cdf)
                 cdf = np.hstack([0.0, cdf])
                 self._cdf = cdf
-- 
2.43.0


From cabffc207b3d0f465774ef51d5db04e0b6b51a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 06/72] fix: sphere intersections keep both ends of short
 chords

---
 pvtrace/geometry/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/geometry/sphere.py b/pvtrace/geometry/sphere.py
index 45b4c4f..d281023 100644
--- a/pvtrace/geometry/sphere.py
+++ b/pvtrace/geometry/sphere.py
@@ -48,7 +48,7 @@ class Sphere(Geometry):
             return []
 
         # Discriminant is zero = one solution, positive == two solutions.
-        if np.isclose(discriminant, 0.0):
+        if discriminant == 0.0:
             t = np.array([-b / (2 * a)])
         else:
             t = np.array(
-- 
2.43.0


From 81137f44f81313a0d319330cd60814a6e0feeb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 07/72] fix: cylinder normals close to the rim belong to the
 face that was hit

---
 pvtrace/engine/_kernel.pyx   | 12 ++++--------
 pvtrace/geometry/cylinder.py |  9 ++++++---
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 6df3c79..bc34393 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -384,17 +384,13 @@ cdef inline void local_normal(SceneT* S, int node, double* p, double* out) noexc
         out[2] = p[2] / mag
     else:
         half = 0.5 * params[0]
-        # np.isclose default tolerances
-        if fabs(p[2] + half) <= 1e-8 + 1e-5 * fabs(half):
+        r = sqrt(p[0] * p[0] + p[1] * p[1])
+        # Close to the rim both faces are near, the point belongs to the nearest
+        if fabs(fabs(p[2]) - half) <= fabs(r - params[1]):
             out[0] = 0.0
             out[1] = 0.0
-            out[2] = -1.0
-        elif fabs(p[2] - half) <= 1e-8 + 1e-5 * fabs(half):
-            out[0] = 0.0
-            out[1] = 0.0
-            out[2] = 1.0
+            out[2] = 1.0 if p[2] > 0.0 else -1.0
         else:
-            r = sqrt(p[0] * p[0] + p[1] * p[1])
             out[0] = p[0] / r
             out[1] = p[1] / r
             out[2] = 0.0
diff --git a/pvtrace/geometry/cylinder.py b/pvtrace/geometry/cylinder.py
index 70181b8..01120e2 100644
--- a/pvtrace/geometry/cylinder.py
+++ b/pvtrace/geometry/cylinder.py
@@ -53,11 +53,14 @@ class Cylinder(Geometry):
         """ Normal faces outwards by convention.
         """
         z = surface_point[2]
-        if np.isclose(z, -0.5 * self.length):
+        r = np.sqrt(np.sum(np.array(surface_point[:2]) ** 2))
+        # Close to the rim both faces are near, the point belongs to the nearest.
+        near_cap = np.abs(np.abs(z) - 0.5 * self.length) <= np.abs(r - self.radius)
+        if near_cap and np.isclose(z, -0.5 * self.length):
             return (0.0, 0.0, -1.0)
-        elif np.isclose(z, 0.5 * self.length):
+        elif near_cap and np.isclose(z, 0.5 * self.length):
             return (0.0, 0.0, 1.0)
-        elif np.isclose(self.radius, np.sqrt(np.sum(np.array(surface_point[:2]) ** 2))):
+        elif np.isclose(self.radius, r):
             v = np.array(surface_point) - np.array([0.0, 0.0, surface_point[2]])
             n = tuple(norm(v).tolist())
             return n
-- 
2.43.0


From 9d41a560f5697ccbe7556968b8aeb37610f5339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 08/72] fix: surface interactions keep ray directions unit
 length over long paths

---
 pvtrace/material/surface.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pvtrace/material/surface.py b/pvtrace/material/surface.py
index 00142be..65f6e9f 100644
--- a/pvtrace/material/surface.py
+++ b/pvtrace/material/surface.py
@@ -10,6 +10,15 @@ from pvtrace.material.utils import (
 )
 
 
+def unit_direction(direction):
+    """ Returns the direction as a unit vector.
+
+        Rays move along `direction * distance`. Rounding errors in its length add up
+        over many interactions and move rays off the surfaces they hit.
+    """
+    return tuple((np.array(direction) / np.linalg.norm(direction)).tolist())
+
+
 class SurfaceDelegate(abc.ABC):
     """ Defines a interface for custom surface interactions.
     """
@@ -253,7 +262,7 @@ class Surface(BaseSurface):
             raise ValueError(
                 "Delegate method `reflected_direction` should return a tuple of length 3."
             )
-        return replace(ray, direction=direction)
+        return replace(ray, direction=unit_direction(direction))
 
     def transmit(self, ray, geometry, container, adjacent):
         """ Returns ray which is transmitted from the interface.
@@ -269,4 +278,4 @@ class Surface(BaseSurface):
             raise ValueError(
                 "Delegate method `transmitted_direction` should return a tuple of length 3."
             )
-        return replace(ray, direction=direction)
+        return replace(ray, direction=unit_direction(direction))
-- 
2.43.0


From 5ea412891abe0d2f628cb8ead3c5141773da7120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 09/72] fix: propagating a ray by zero distance raised
 ZeroDivisionError

---
 pvtrace/light/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/light/ray.py b/pvtrace/light/ray.py
index 7860ea3..c3dbe73 100644
--- a/pvtrace/light/ray.py
+++ b/pvtrace/light/ray.py
@@ -70,7 +70,7 @@ class Ray:
             position=new_position,
             travelled=self.travelled + distance,
             duration=self.duration
-            + 1 / (speed_of_light_cm_per_s / refractive_index / distance),
+            + distance * refractive_index / speed_of_light_cm_per_s,
         )
         return new_ray
 
-- 
2.43.0


From b017efe3856a3ea51c6b95c54d0ab1553662f1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 10/72] fix: engine histories that run out of event budget end
 with a kill in their container

---
 pvtrace/engine/_kernel.pyx | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index bc34393..510c94d 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -651,13 +651,6 @@ cdef int trace_one(
     while True:
         count += 1
 
-        # Kill the ray when its event budget is exhausted rather than
-        # silently dropping events (leave room for the KILL record).
-        if base >= 0 and nevents >= elog.max_events - 1:
-            record(elog, base, &nevents, EV_KILL, -1, -1, -1, -1, source,
-                   pos, direction, NULL, wavelength, travelled, duration)
-            break
-
         # --- next_hit: intersect every node ---------------------------
         nhits = 0
         for node in range(S.n_nodes):
@@ -719,7 +712,9 @@ cdef int trace_one(
                             best = node_min_t[node]
                             adjacent = node
 
-        if count > maxsteps:
+        # Also kill the ray when its event budget is exhausted rather than
+        # silently dropping events (leave room for the KILL record).
+        if count > maxsteps or (base >= 0 and nevents >= elog.max_events - 1):
             record(elog, base, &nevents, EV_KILL, -1, container, -1, -1, source,
                    pos, direction, NULL, wavelength, travelled, duration)
             if S.n_recorders > 0:
@@ -766,6 +761,16 @@ cdef int trace_one(
             depth = -log(1.0 - rng_uniform(&rng)) / alpha
 
         if depth < t0:
+            if base >= 0 and nevents >= elog.max_events - 2:
+                # No room for the absorption, its outcome and a KILL record
+                record(elog, base, &nevents, EV_KILL, -1, container, -1, -1, source,
+                       pos, direction, NULL, wavelength, travelled, duration)
+                if S.n_recorders > 0:
+                    transform_point(S.w2l + container * 16, pos, local_p)
+                    tally(S, AB, tid, REC_KILLED, container, rseen, NULL,
+                          local_p, 0.0, wavelength, travelled, duration)
+                break
+
             for i in range(3):
                 pos[i] = pos[i] + direction[i] * depth
             travelled += depth
-- 
2.43.0


From 6967a5367d3a7d7c3274f86c61f6f25a506ec7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 11/72] fix: engine runs no more threads than it has
 accumulators for

---
 pvtrace/engine/_kernel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 510c94d..5880d9e 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -1083,7 +1083,7 @@ def trace_bundle(
     cdef long i, base
     cdef int tid, nev
     with nogil:
-        for i in prange(n, num_threads=num_threads, schedule="dynamic", chunksize=64):
+        for i in prange(n, num_threads=nthr, schedule="dynamic", chunksize=64):
             tid = threadid()
             if record_every > 0 and i % record_every == 0:
                 base = (i // record_every) * max_events
-- 
2.43.0


From 34a9c57b6da74a4ad59f9c9b0f163beaf2d6c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 12/72] fix: recorder histograms counted values just below
 their range in the first bin

---
 pvtrace/engine/_kernel.pyx | 17 +++++++++++++----
 pvtrace/engine/tally.py    |  4 +++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 5880d9e..7ff948b 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -494,6 +494,15 @@ cdef inline double prop_value(int prop, double wavelength, double angle,
     return lpos[2]
 
 
+cdef inline int bin_index(double value, double lo, double hi, int bins) noexcept nogil:
+    """Histogram bin of `value`, or -1 if it is outside of the range."""
+    cdef int index
+    if not (value >= lo and value < hi):
+        return -1
+    index = <int>((value - lo) / (hi - lo) * bins)
+    return index if index < bins else bins - 1
+
+
 cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
                        unsigned char* seen, double* wnormal,
                        double* lpos, double angle, double wavelength,
@@ -538,16 +547,16 @@ cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
         for h in range(S.rec_hist_start[r], S.rec_hist_start[r] + S.rec_hist_n[r]):
             va = prop_value(S.h_prop_a[h], wavelength, angle, duration,
                             travelled, lpos)
-            ia = <int>((va - S.h_lo_a[h]) / (S.h_hi_a[h] - S.h_lo_a[h]) * S.h_na[h])
-            if ia < 0 or ia >= S.h_na[h]:
+            ia = bin_index(va, S.h_lo_a[h], S.h_hi_a[h], S.h_na[h])
+            if ia < 0:
                 continue
             if S.h_prop_b[h] < 0:
                 bins[S.h_offset[h] + ia] += 1
             else:
                 vb = prop_value(S.h_prop_b[h], wavelength, angle, duration,
                                 travelled, lpos)
-                ib = <int>((vb - S.h_lo_b[h]) / (S.h_hi_b[h] - S.h_lo_b[h]) * S.h_nb[h])
-                if ib < 0 or ib >= S.h_nb[h]:
+                ib = bin_index(vb, S.h_lo_b[h], S.h_hi_b[h], S.h_nb[h])
+                if ib < 0:
                     continue
                 bins[S.h_offset[h] + ia * S.h_nb[h] + ib] += 1
 
diff --git a/pvtrace/engine/tally.py b/pvtrace/engine/tally.py
index ae9d8c6..f446e06 100644
--- a/pvtrace/engine/tally.py
+++ b/pvtrace/engine/tally.py
@@ -79,8 +79,10 @@ class _TallyState:
 
 
 def _bin_index(value, hist):
+    if not hist.start <= value < hist.stop:
+        return -1
     index = int((value - hist.start) / (hist.stop - hist.start) * hist.bins)
-    return index if 0 <= index < hist.bins else -1
+    return min(index, hist.bins - 1)
 
 
 def tally_histories(scene, histories):
-- 
2.43.0


From 3d3a1489fc87b16839c021c627ca9db3b8fd8714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 13/72] fix: scenes with too many nodes for the engine are
 reported as unsupported

---
 pvtrace/engine/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 9bc600c..4b5e3ad 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -21,6 +21,7 @@ from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
 # Volume interaction selectors cannot be restricted by surface facet
 VOLUME_EVENTS = {"lost", "reacted", "killed"}
 MAX_RECORDERS = 256  # per-ray distinct tracking array size in the kernel
+MAX_NODES = 128  # per-ray intersection array size in the kernel
 
 # Geometry type tags
 GEOM_BOX = 0
@@ -67,6 +68,10 @@ class CompiledScene:
             raise UnsupportedSceneError("Root node must have a geometry.")
 
         n = len(nodes)
+        if n > MAX_NODES:
+            raise UnsupportedSceneError(
+                f"At most {MAX_NODES} geometry nodes are supported."
+            )
         self.scene = scene
         self.nodes = nodes
         self.node_names = [node.name for node in nodes]
-- 
2.43.0


From 3b0d41dac007420d0aa23146c5926eef4bbd36a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 14/72] fix: cylinder surface points were missed depending on
 where they are on the surface

---
 pvtrace/geometry/cylinder.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pvtrace/geometry/cylinder.py b/pvtrace/geometry/cylinder.py
index 01120e2..d5de6a5 100644
--- a/pvtrace/geometry/cylinder.py
+++ b/pvtrace/geometry/cylinder.py
@@ -1,6 +1,12 @@
 from pvtrace.geometry.geometry import Geometry
 from pvtrace.common.errors import GeometryError
-from pvtrace.geometry.utils import angle_between, norm, close_to_zero, ray_z_cylinder
+from pvtrace.geometry.utils import (
+    angle_between,
+    norm,
+    close_to_zero,
+    ray_z_cylinder,
+    EPS_ZERO,
+)
 import numpy as np
 import logging
 
@@ -27,15 +33,12 @@ class Cylinder(Geometry):
         self._material = new_value
 
     def is_on_surface(self, point):
-        # Just use any direction for a fake ray, we only need the distance
-        _, dist = ray_z_cylinder(self.length, self.radius, point, norm((1, 1, 1)))
-        if len(dist) == 0:
-            return False
-        dist = dist[0]  # Only need closest intersection
-        if close_to_zero(dist):
-            # print("dist from point {} {} is_on_surface True".format(dist, point))
-            return True
-        # print("dist from point {} {} is_on_surface False".format(dist, point))
+        radial = np.sqrt(np.sum(np.array(point[:2]) ** 2)) - self.radius
+        axial = np.abs(point[2]) - 0.5 * self.length
+        if close_to_zero(axial):
+            return bool(radial < EPS_ZERO)
+        if close_to_zero(radial):
+            return bool(axial < EPS_ZERO)
         return False
 
     def contains(self, point):
-- 
2.43.0


From 91cb32a51ba0e1c60f3a446579088dedb4812b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 15/72] fix: material of spheres and cylinders can be assigned
 like that of the other shapes

---
 pvtrace/geometry/cylinder.py | 2 +-
 pvtrace/geometry/sphere.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/geometry/cylinder.py b/pvtrace/geometry/cylinder.py
index d5de6a5..d583d85 100644
--- a/pvtrace/geometry/cylinder.py
+++ b/pvtrace/geometry/cylinder.py
@@ -29,7 +29,7 @@ class Cylinder(Geometry):
         return self._material
 
     @material.setter
-    def set_material(self, new_value):
+    def material(self, new_value):
         self._material = new_value
 
     def is_on_surface(self, point):
diff --git a/pvtrace/geometry/sphere.py b/pvtrace/geometry/sphere.py
index d281023..1c46783 100644
--- a/pvtrace/geometry/sphere.py
+++ b/pvtrace/geometry/sphere.py
@@ -21,7 +21,7 @@ class Sphere(Geometry):
         return self._material
 
     @material.setter
-    def set_material(self, new_value):
+    def material(self, new_value):
         self._material = new_value
 
     def is_on_surface(self, point):
-- 
2.43.0


From 3ba43d40860ddb460e074c27a5769ed6986ea0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 16/72] fix: box points within single precision of a face were
 reported outside

---
 pvtrace/geometry/box.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvtrace/geometry/box.py b/pvtrace/geometry/box.py
index d5ca672..e7ec8f7 100644
--- a/pvtrace/geometry/box.py
+++ b/pvtrace/geometry/box.py
@@ -43,6 +43,9 @@ class Box(Mesh):
         mesh = trimesh.creation.box(size)
         super(Box, self).__init__(mesh, material=material)
 
+    def contains(self, point):
+        return bool(np.all(np.abs(point) < 0.5 * self._size))
+
     def is_on_surface(self, point):
         on_surf, _ = on_aabb_surface(self._size, point, atol=2 * EPS_ZERO)
         return on_surf
-- 
2.43.0


From 3b9203ae0440ff4c7dc79cbccb8680972e639f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 17/72] fix: nodes placed with integer coordinates could not be
 moved by fractions

---
 pvtrace/geometry/transformable.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pvtrace/geometry/transformable.py b/pvtrace/geometry/transformable.py
index a405999..07c4b35 100644
--- a/pvtrace/geometry/transformable.py
+++ b/pvtrace/geometry/transformable.py
@@ -46,7 +46,9 @@ class Transformable(object):
         """
         super(Transformable, self).__init__()
         self._location = (
-            np.zeros(3, dtype=float) if location is None else np.array(location)
+            np.zeros(3, dtype=float)
+            if location is None
+            else np.array(location, dtype=float)
         )
         self._pose = translation_matrix(self._location)
 
@@ -64,8 +66,8 @@ class Transformable(object):
 
     @pose.setter
     def pose(self, new_value):
-        self._location = translation_from_matrix(new_value)
-        self._pose = np.array(new_value)
+        self._pose = np.array(new_value, dtype=float)
+        self._location = translation_from_matrix(self._pose)
         return self
 
     @property
@@ -74,7 +76,7 @@ class Transformable(object):
 
     @location.setter
     def location(self, new_value):
-        self._location = np.array(new_value)
+        self._location = np.array(new_value, dtype=float)
         self._pose[0:3, 3] = np.array(new_value)
         return self
 
-- 
2.43.0


From 4ba223e88e7193ae3428daa6dce51606173ac56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 18/72] fix: look_at was off for directions close to the z axis

---
 pvtrace/scene/node.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/pvtrace/scene/node.py b/pvtrace/scene/node.py
index 017bcab..e8f8738 100644
--- a/pvtrace/scene/node.py
+++ b/pvtrace/scene/node.py
@@ -6,7 +6,6 @@ from pvtrace.common.errors import AppError
 from pvtrace.geometry.intersection import Intersection
 from pvtrace.geometry.transformable import Transformable
 from pvtrace.geometry.utils import distance_between
-from pvtrace.geometry.transformations import rotation_from_matrix
 import logging
 
 logger = logging.getLogger(__name__)
@@ -52,21 +51,12 @@ class Node(NodeMixin, Transformable):
         """
         a = np.array([0, 0, 1])  # +z direction
         b = np.array(vector)  # direction we want to face
-        c = np.dot(a, b)
-        if np.isclose(c, -1.0):
-            # Anti-parallel rotation can be done without computation
-            self.rotate(np.pi, [0, 1, 0])
-            return
-
-        v = np.cross(a, b)
-        C = 1 / (1 + c)
-        v1, v2, v3 = v[0], v[1], v[2]
-        vx = np.array([[0, -v3, v2], [v3, 0, -v1], [-v2, v1, 0]])
-        r = np.identity(3) + vx + vx @ vx * C
-        R = np.identity(4)
-        R[:3, :3] = r
-        angle, direc, point = rotation_from_matrix(R)
-        self.rotate(angle, direc)
+        axis = np.cross(a, b)
+        angle = np.arctan2(np.linalg.norm(axis), np.dot(a, b))
+        if not np.any(axis):
+            # Parallel or anti-parallel, any perpendicular axis will do
+            axis = np.array([0, 1, 0])
+        self.rotate(angle, axis)
 
     # Convert between coordinate systems
 
-- 
2.43.0


From f1484943e7ccce966a68274cfb925f01ba4ef72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 19/72] fix: distributions with some non-finite entries were
 accepted

---
 pvtrace/material/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index ef128b6..7ec6ed7 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -35,8 +35,8 @@ class Distribution(object):
         else:
             if not np.all(np.diff(x) > 0):
                 raise ValueError("x must be sorted and ascending.")
-            if not np.isfinite(y).any():
-                raise ValueError("All values of y must be finite.")
+            if not (np.isfinite(x).all() and np.isfinite(y).all()):
+                raise ValueError("All values of x and y must be finite.")
             if np.any(y < 0.0):
                 raise ValueError(
                     "Distributions are like histograms all counts must be positive."
-- 
2.43.0


From 560ea653c6cb37b0a441dfd8c3f8d903020f1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 20/72] fix: histogram CDF could end just below one, sampling
 then left the data

---
 pvtrace/material/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index 7ec6ed7..7d1439c 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -47,7 +47,7 @@ class Distribution(object):
             self._y = y
             if hist:
                 cdf = np.cumsum(y, dtype=float)
-                cdf *= 1.0 / cdf[-1]
+                cdf /= cdf[-1]
                 self._cdf = cdf
                 self._edges = np.insert(x, x.size, 2 * x[-1] - x[-2])
             else:
-- 
2.43.0


From c85c522d237ae8166bc685567e46adf826002303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 21/72] fix: distributions accept any array-like data, as
 documented

---
 pvtrace/material/distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index 7d1439c..adb4c30 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -33,6 +33,8 @@ class Distribution(object):
             self._x = None
             self._y = y
         else:
+            x = np.asarray(x)
+            y = np.asarray(y)
             if not np.all(np.diff(x) > 0):
                 raise ValueError("x must be sorted and ascending.")
             if not (np.isfinite(x).all() and np.isfinite(y).all()):
-- 
2.43.0


From 896da9f7b6f25e3e21fec2e372246411a1634e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 22/72] fix: Henyey-Greenstein directions for zero and very
 small asymmetry

---
 pvtrace/engine/_kernel.pyx |  6 +++++-
 pvtrace/engine/emit.py     |  6 +++---
 pvtrace/material/utils.py  | 10 +++++-----
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 7ff948b..609a761 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -454,7 +454,11 @@ cdef inline void sample_phase(int phase_type, double phase_param, RNG* rng, doub
         g = phase_param
         g1 = rng_uniform(rng)
         s = 2.0 * g1 - 1.0
-        mu = 1.0 / (2.0 * g) * (1.0 + g * g - ((1.0 - g * g) / (1.0 + g * s)) ** 2)
+        mu = (s * (1.0 + g * g) + 0.5 * g * (s * s * (1.0 + g * g) + 3.0 - g * g)) / (1.0 + g * s) ** 2
+        if mu > 1.0:
+            mu = 1.0
+        elif mu < -1.0:
+            mu = -1.0
         phi = 2.0 * M_PI * rng_uniform(rng)
         theta = acos(mu)
     elif phase_type == PHASE_CONE:
diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 339a60a..cce1482 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -80,10 +80,10 @@ def _sample_directions(delegate, n):
         return _sphere_directions(theta, phi)
     if isinstance(delegate, HenyeyGreenstein):
         g = delegate.g
-        if abs(g) < 1e-12:
-            return _sample_directions(isotropic, n)
         s = 2 * np.random.uniform(0, 1, n) - 1
-        mu = (1 + g * g - ((1 - g * g) / (1 + g * s)) ** 2) / (2 * g)
+        g2 = g * g
+        mu = (s * (1 + g2) + 0.5 * g * (s * s * (1 + g2) + 3 - g2)) / (1 + g * s) ** 2
+        mu = np.clip(mu, -1.0, 1.0)
         phi = 2 * np.pi * np.random.uniform(0, 1, n)
         return _sphere_directions(np.arccos(mu), phi)
     return None
diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 905a2f1..5dc2cf9 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -116,11 +116,11 @@ def henyey_greenstein(g=0.0) -> numpy.ndarray:
     # https://www.astro.umd.edu/~jph/HG_note.pdf
     p = np.random.uniform(0, 1)
     s = 2 * p - 1
-    mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
-    # Inverse is not defined at g=0 but in the limit
-    # tends to the isotropic case.
-    if close_to_zero(g):
-        return isotropic()
+    # Same as (1 + g^2 - ((1 - g^2) / (1 + g * s))^2) / (2 * g) in a form which keeps
+    # its precision in the limit g=0, the isotropic case.
+    g2 = g ** 2
+    mu = (s * (1 + g2) + 0.5 * g * (s ** 2 * (1 + g2) + 3 - g2)) / (1 + g * s) ** 2
+    mu = min(max(mu, -1.0), 1.0)
     phi = 2 * np.pi * np.random.uniform()
     theta = np.arccos(mu)
     coords = spherical_to_cart(theta, phi)
-- 
2.43.0


From 4b3afcd6bf65508dedb736fd2473343b3f08a527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 23/72] fix: lights emit until terminated when no number of
 rays is given

---
 pvtrace/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/light/light.py b/pvtrace/light/light.py
index f0df3ea..28f7b92 100644
--- a/pvtrace/light/light.py
+++ b/pvtrace/light/light.py
@@ -242,7 +242,7 @@ class Light(object):
             The maximum number of rays this light source will generate. If set to
         None then the light will generate until manually terminated.
         """
-        if num_rays is None or num_rays == 0:
+        if num_rays == 0:
             return
         count = 0
         while True:
-- 
2.43.0


From 267b790a8959c5b9bb6746017044af7542c01462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 24/72] fix: engine ignored what subclasses of the built-in
 light delegates do

---
 pvtrace/engine/emit.py | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index cce1482..338e0f6 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -3,8 +3,8 @@
 `scene.emit` calls Python delegate functions once per ray, which
 dominates the run time once tracing itself is native. For the built-in
 delegate types (everything the YAML spec can express) this module
-samples whole bundles with numpy instead; unrecognised delegates fall
-back to the per-ray Python path, so custom light sources keep working.
+samples whole bundles with numpy instead; unrecognised delegates (also
+subclasses of the built-in ones, which may do anything) fall back to the per-ray Python path, so custom light sources keep working.
 """
 import numpy as np
 
@@ -20,13 +20,11 @@ def _sphere_directions(theta, phi):
 
 
 def _sample_wavelengths(delegate, n):
-    if delegate is light_module.default_wavelength or isinstance(
-        delegate, light_module.DefaultWavelength
-    ):
+    if delegate is light_module.default_wavelength or type(delegate) is light_module.DefaultWavelength:
         return np.full(n, 555.0)
-    if isinstance(delegate, light_module.ConstantWavelengthMask):
+    if type(delegate) is light_module.ConstantWavelengthMask:
         return np.full(n, delegate.nanometers)
-    if isinstance(delegate, light_module.SpectrumWavelengthMask):
+    if type(delegate) is light_module.SpectrumWavelengthMask:
         return np.asarray(
             delegate.distribution.sample(np.random.uniform(0, 1, n)), dtype=float
         )
@@ -34,23 +32,21 @@ def _sample_wavelengths(delegate, n):
 
 
 def _sample_positions(delegate, n):
-    if delegate is light_module.default_position or isinstance(
-        delegate, light_module.DefaultPosition
-    ):
+    if delegate is light_module.default_position or type(delegate) is light_module.DefaultPosition:
         return np.zeros((n, 3))
-    if isinstance(delegate, light_module.RectangularMask):
+    if type(delegate) is light_module.RectangularMask:
         return np.column_stack((
             np.random.uniform(-delegate.x, delegate.x, n),
             np.random.uniform(-delegate.y, delegate.y, n),
             np.zeros(n),
         ))
-    if isinstance(delegate, light_module.CircularMask):
+    if type(delegate) is light_module.CircularMask:
         angle = np.random.uniform(0, 2 * np.pi, n)
         radius = np.sqrt(np.random.uniform(0, 1, n)) * delegate.radius
         return np.column_stack(
             (radius * np.cos(angle), radius * np.sin(angle), np.zeros(n))
         )
-    if isinstance(delegate, light_module.CubeMask):
+    if type(delegate) is light_module.CubeMask:
         return np.column_stack((
             np.random.uniform(-delegate.x, delegate.x, n),
             np.random.uniform(-delegate.y, delegate.y, n),
@@ -60,11 +56,9 @@ def _sample_positions(delegate, n):
 
 
 def _sample_directions(delegate, n):
-    if delegate is light_module.default_direction or isinstance(
-        delegate, light_module.DefaultDirection
-    ):
+    if delegate is light_module.default_direction or type(delegate) is light_module.DefaultDirection:
         return np.tile((0.0, 0.0, 1.0), (n, 1))
-    if isinstance(delegate, Cone):
+    if type(delegate) is Cone:
         theta = np.arcsin(
             np.sqrt(np.random.uniform(0, 1, n)) * np.sin(delegate.theta_max)
         )
@@ -78,7 +72,7 @@ def _sample_directions(delegate, n):
         theta = np.arcsin(np.sqrt(np.random.uniform(0, 1, n)))
         phi = 2 * np.pi * np.random.uniform(0, 1, n)
         return _sphere_directions(theta, phi)
-    if isinstance(delegate, HenyeyGreenstein):
+    if type(delegate) is HenyeyGreenstein:
         g = delegate.g
         s = 2 * np.random.uniform(0, 1, n) - 1
         g2 = g * g
@@ -109,9 +103,11 @@ def emit_bundle(scene, num_rays):
         if n == 0:
             continue
         light = node.light
-        wav = _sample_wavelengths(light.wavelength, n)
-        pos = _sample_positions(light.position, n)
-        direction = _sample_directions(light.direction, n)
+        wav = pos = direction = None
+        if type(light) is light_module.Light:
+            wav = _sample_wavelengths(light.wavelength, n)
+            pos = _sample_positions(light.position, n)
+            direction = _sample_directions(light.direction, n)
 
         if wav is None or pos is None or direction is None:
             # Unknown delegate: per-ray Python fallback for this light
-- 
2.43.0


From 457f6f93bfd9f52d87c15045abc25ba5fb0456e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 25/72] fix: engine emitted from cones that are not valid

---
 pvtrace/engine/emit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 338e0f6..d08feb8 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -59,6 +59,8 @@ def _sample_directions(delegate, n):
     if delegate is light_module.default_direction or type(delegate) is light_module.DefaultDirection:
         return np.tile((0.0, 0.0, 1.0), (n, 1))
     if type(delegate) is Cone:
+        if np.isclose(delegate.theta_max, 0.0) or delegate.theta_max > np.pi / 2:
+            return None  # not a valid cone, let the delegate raise
         theta = np.arcsin(
             np.sqrt(np.random.uniform(0, 1, n)) * np.sin(delegate.theta_max)
         )
-- 
2.43.0


From 9c46fe535d82d916725d5142a1e9a28777afb22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 26/72] fix: engine traced rays without a direction when the
 scene has no light

---
 pvtrace/engine/emit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index d08feb8..cdad9ae 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -94,6 +94,8 @@ def emit_bundle(scene, num_rays):
     `scene.emit`.
     """
     lights = scene.light_nodes
+    if num_rays > 0 and len(lights) == 0:
+        raise ValueError("Scene has no light nodes.")
     positions = np.zeros((num_rays, 3))
     directions = np.zeros((num_rays, 3))
     wavelengths = np.zeros(num_rays)
-- 
2.43.0


From 03577bcf3aafa707ed4076b78e1ee9d742be546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:44 +0000
Subject: [PATCH 27/72] fix: streamed bundles continue the light cycle and
 history stride, seeds do not share streams

---
 pvtrace/engine/api.py  | 31 ++++++++++++++++++++++++-------
 pvtrace/engine/emit.py |  6 +++---
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/pvtrace/engine/api.py b/pvtrace/engine/api.py
index 3653372..16a550f 100644
--- a/pvtrace/engine/api.py
+++ b/pvtrace/engine/api.py
@@ -194,6 +194,16 @@ class EngineResult:
             yield history
 
 
+def _stream_seed(seed):
+    """Seed of the first ray's random stream, following rays count up from it.
+
+    Mixing keeps the streams of runs with different seeds apart, otherwise
+    neighbouring seeds would share all but one of their streams.
+    """
+    state = np.random.SeedSequence(int(seed)).generate_state(1, np.uint64)
+    return int(state[0]) >> 1
+
+
 def simulate(
     scene,
     num_rays,
@@ -203,6 +213,7 @@ def simulate(
     max_events=128,
     emit_method="kT",
     record_every=1,
+    first=0,
 ):
     """Trace `num_rays` through `scene` with the compiled engine.
 
@@ -210,7 +221,8 @@ def simulate(
     all light delegates are supported); the tracing loop runs in native
     code. Recorders attached to scene nodes tally every ray; full event
     histories are kept for every `record_every`-th ray (all rays when 1,
-    none when 0). Raises `UnsupportedSceneError` if the scene cannot be
+    none when 0). When the rays are part of a larger run `first` is the
+    position of the first one in it. Raises `UnsupportedSceneError` if the scene cannot be
     compiled — callers can fall back to the Python tracer.
     """
     from pvtrace.engine import _kernel
@@ -227,7 +239,9 @@ def simulate(
 
     from pvtrace.engine.emit import emit_bundle
 
-    positions, directions, wavelengths, sources = emit_bundle(scene, num_rays)
+    positions, directions, wavelengths, sources = emit_bundle(
+        scene, num_rays, first=first
+    )
 
     tic = time.perf_counter()
     data = _kernel.trace_bundle(
@@ -235,7 +249,7 @@ def simulate(
         positions,
         directions,
         wavelengths,
-        int(seed),
+        _stream_seed(seed) + int(first),
         int(maxsteps),
         int(max_events),
         EMIT_METHODS[emit_method],
@@ -249,16 +263,19 @@ def simulate(
 def simulate_stream(scene, num_rays, bundle=50000, seed=None, **kwargs):
     """Trace in bundles, yielding (EngineResult, rays_traced_so_far).
 
-    Bundles use consecutive per-ray seed offsets, so the union of the
-    streamed results is identical to a single `simulate` call with the
-    same seed. Accumulate recorder tallies across bundles by summing
+    Bundles use consecutive per-ray seed offsets and continue the cycle of
+    the lights, so for the same emitted rays the union of the streamed
+    results is identical to a single `simulate` call with the same seed. For
+    this, bundles are a multiple of `record_every` rays. Accumulate recorder tallies across bundles by summing
     the `rec_*` arrays.
     """
     if seed is None:
         seed = np.random.randint(0, 2 ** 31 - 1)
+    stride = max(1, int(kwargs.get("record_every", 1)))
+    bundle = max(1, bundle // stride) * stride
     traced = 0
     while traced < num_rays:
         n = min(bundle, num_rays - traced)
-        result = simulate(scene, n, seed=int(seed) + traced, **kwargs)
+        result = simulate(scene, n, seed=seed, first=traced, **kwargs)
         traced += n
         yield result, traced
diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index cdad9ae..ce96a26 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -85,13 +85,13 @@ def _sample_directions(delegate, n):
     return None
 
 
-def emit_bundle(scene, num_rays):
+def emit_bundle(scene, num_rays, first=0):
     """Emit `num_rays` from the scene's lights as world-frame arrays.
 
     Returns (positions, directions, wavelengths, sources). Lights with
     built-in delegates are sampled with numpy; others fall back to the
     per-ray Python generator. Rays cycle between lights exactly like
-    `scene.emit`.
+    `scene.emit`, starting from the turn of the `first` ray.
     """
     lights = scene.light_nodes
     if num_rays > 0 and len(lights) == 0:
@@ -102,7 +102,7 @@ def emit_bundle(scene, num_rays):
     sources = np.empty(num_rays, dtype=object)
 
     for index, node in enumerate(lights):
-        rows = np.arange(index, num_rays, len(lights))
+        rows = np.arange((index - first) % len(lights), num_rays, len(lights))
         n = rows.size
         if n == 0:
             continue
-- 
2.43.0


From 3106d74823d7a61ba844021a7d30ba3e613483e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 28/72] fix: engine compiled subclasses of supported types as
 if they were the built-in ones

---
 pvtrace/engine/compiler.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 4b5e3ad..1b42878 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -15,7 +15,12 @@ from pvtrace.geometry.box import Box
 from pvtrace.geometry.cylinder import Cylinder
 from pvtrace.geometry.sphere import Sphere
 from pvtrace.material.component import Absorber, Luminophore, Reactor, Scatterer
-from pvtrace.material.surface import FresnelSurfaceDelegate, NullSurfaceDelegate
+from pvtrace.material.material import Material
+from pvtrace.material.surface import (
+    FresnelSurfaceDelegate,
+    NullSurfaceDelegate,
+    Surface,
+)
 from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
 
 # Volume interaction selectors cannot be restricted by surface facet
@@ -101,6 +106,10 @@ class CompiledScene:
                 raise UnsupportedSceneError(
                     f"Node {node.name!r} has geometry without a material."
                 )
+            if type(material) is not Material:
+                raise UnsupportedSceneError(
+                    f"Material type {type(material).__name__} is not supported."
+                )
             self.refractive_index[i] = float(material.refractive_index)
             self.surface_type[i] = self._surface_tag(node, material)
 
@@ -211,14 +220,14 @@ class CompiledScene:
     # -- geometry ------------------------------------------------------
 
     def _compile_geometry(self, i, geometry):
-        if isinstance(geometry, Box):
+        if type(geometry) is Box:
             self.geom_type[i] = GEOM_BOX
             size = np.asarray(geometry._size, dtype=np.float64)
             self.geom_params[i, :3] = size
-        elif isinstance(geometry, Sphere):
+        elif type(geometry) is Sphere:
             self.geom_type[i] = GEOM_SPHERE
             self.geom_params[i, 0] = float(geometry.radius)
-        elif isinstance(geometry, Cylinder):
+        elif type(geometry) is Cylinder:
             self.geom_type[i] = GEOM_CYLINDER
             self.geom_params[i, 0] = float(geometry.length)
             self.geom_params[i, 1] = float(geometry.radius)
@@ -240,6 +249,11 @@ class CompiledScene:
     # -- surfaces ------------------------------------------------------
 
     def _surface_tag(self, node, material):
+        if type(material.surface) is not Surface:
+            raise UnsupportedSceneError(
+                f"Node {node.name!r} uses surface "
+                f"{type(material.surface).__name__}; only Surface is supported."
+            )
         delegate = material.surface.delegate
         if type(delegate) is FresnelSurfaceDelegate:
             return SURF_FRESNEL
@@ -254,14 +268,14 @@ class CompiledScene:
     # -- components ----------------------------------------------------
 
     def _compile_component(self, node, component, abs_x, abs_y, ems_x, ems_cdf):
-        # Order matters: Reactor < Absorber < Scatterer, Luminophore < Scatterer
-        if isinstance(component, Reactor):
+        # Subclasses may do anything, only the built-in types are supported
+        if type(component) is Reactor:
             ctype = COMP_REACTOR
-        elif isinstance(component, Absorber):
+        elif type(component) is Absorber:
             ctype = COMP_ABSORBER
-        elif isinstance(component, Luminophore):
+        elif type(component) is Luminophore:
             ctype = COMP_LUMINOPHORE
-        elif isinstance(component, Scatterer):
+        elif type(component) is Scatterer:
             ctype = COMP_SCATTERER
         else:
             raise UnsupportedSceneError(
@@ -306,9 +320,9 @@ class CompiledScene:
         phase = component.phase_function
         if phase is isotropic:
             return PHASE_ISOTROPIC, 0.0
-        if isinstance(phase, HenyeyGreenstein):
+        if type(phase) is HenyeyGreenstein:
             return PHASE_HENYEY_GREENSTEIN, float(phase.g)
-        if isinstance(phase, Cone):
+        if type(phase) is Cone and 0.0 < phase.theta_max <= np.pi / 2:
             return PHASE_CONE, float(phase.theta_max)
         raise UnsupportedSceneError(
             f"Node {node.name!r}: custom phase functions are not supported."
-- 
2.43.0


From 598ad8eb12b865475e27872562fd61adf937795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 29/72] fix: components given a whole number as coefficient
 could not be used

---
 pvtrace/material/component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index 82d3b44..06e7541 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -107,8 +107,8 @@ class Scatterer(Component):
         self._coefficient = coefficient
         if coefficient is None:
             raise ValueError("Coefficient must be specified.")
-        elif isinstance(coefficient, (float,)):
-            self._abs_dist = Distribution(x=None, y=coefficient, hist=hist)
+        elif isinstance(coefficient, (int, float, np.number)):
+            self._abs_dist = Distribution(x=None, y=float(coefficient), hist=hist)
         elif isinstance(coefficient, np.ndarray):
             self._abs_dist = Distribution(
                 x=coefficient[:, 0], y=coefficient[:, 1], hist=hist
-- 
2.43.0


From a2e794167b046c4f005bf6f0c712208fa88fdc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 30/72] fix: recorders on nodes without a geometry were dropped
 by the engine

---
 pvtrace/engine/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 1b42878..2eac96f 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -148,7 +148,9 @@ class CompiledScene:
 
     def _compile_recorders(self, nodes):
         recorders = []
-        for i, node in enumerate(nodes):
+        for node in PreOrderIter(self.scene.root):
+            # Nothing ever interacts with nodes without a geometry (-1)
+            i = -1 if node.geometry is None else nodes.index(node)
             for recorder in getattr(node, "recorders", []):
                 if not isinstance(recorder, Recorder):
                     raise UnsupportedSceneError(
-- 
2.43.0


From 1734ad54dfde1196b31ea819c02285930b44d866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 31/72] fix: engine wrote outside of its event log for very
 large strides

n + record_every - 1 overflowed, so no rows were allocated although the
first ray is recorded.
---
 pvtrace/engine/_kernel.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 609a761..f067210 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -946,8 +946,8 @@ def trace_bundle(
     """
     cdef long n = positions.shape[0]
     cdef long n_recorded = 0
-    if record_every > 0:
-        n_recorded = (n + record_every - 1) // record_every
+    if record_every > 0 and n > 0:
+        n_recorded = (n - 1) // record_every + 1
     cdef long rows = n_recorded * max_events
 
     if compiled.geom_type.shape[0] > MAX_NODES:
-- 
2.43.0


From f3e85a4bb7ab450d3eff3394af9c6dc67f7cf17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 32/72] fix: large histograms overflowed the tally offset of
 later threads

---
 pvtrace/engine/_kernel.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index f067210..195a0dd 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -517,10 +517,11 @@ cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
     interaction only, tracked in `mask`); raw crossings are tallied
     separately.
     """
-    cdef long long* distinct = AB.distinct + tid * S.n_recorders
-    cdef long long* cross = AB.cross + tid * S.n_recorders
-    cdef double* sums = AB.sums + tid * S.n_recorders * 8
-    cdef long long* bins = AB.bins + tid * S.total_bins
+    cdef long slot = tid
+    cdef long long* distinct = AB.distinct + slot * S.n_recorders
+    cdef long long* cross = AB.cross + slot * S.n_recorders
+    cdef double* sums = AB.sums + slot * S.n_recorders * 8
+    cdef long long* bins = AB.bins + slot * S.total_bins
     cdef int r, h, ia, ib
     cdef double va, vb
     for r in range(S.n_recorders):
-- 
2.43.0


From 8a9f3ad7f085083a06632fbaa388656887d62586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 33/72] fix: histograms with an unbounded range made the engine
 write outside of its bins

---
 pvtrace/engine/recorder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvtrace/engine/recorder.py b/pvtrace/engine/recorder.py
index 6940776..3f79dde 100644
--- a/pvtrace/engine/recorder.py
+++ b/pvtrace/engine/recorder.py
@@ -28,6 +28,8 @@ wavelength and exit position::
     slab = Node(name="slab", geometry=Box(...), recorders=[top])
 """
 
+import math
+
 # Ray properties that can be histogrammed. Position properties (x, y, z)
 # are in the local frame of the node that owns the recorder.
 PROPERTIES = {
@@ -61,6 +63,8 @@ class Histogram:
             raise ValueError(f"Unknown property {prop!r}; use one of {sorted(PROPERTIES)}")
         if not stop > start:
             raise ValueError("Histogram range requires stop > start.")
+        if not math.isfinite(float(stop) - float(start)):
+            raise ValueError("Histogram range must be finite.")
         if bins < 1:
             raise ValueError("Histogram requires at least one bin.")
         self.prop = prop
-- 
2.43.0


From cadd60516d06e45570e1966e5b16b50a6b9206bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:22 +0000
Subject: [PATCH 34/72] fix: read scene files without running code written in
 them

yaml.Loader constructs arbitrary Python objects, so opening a scene file
could execute commands. Scene files only contain plain data.
---
 pvtrace/cli/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index c2fb7db..fe4da1c 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -65,7 +65,7 @@ def load_schema():
 def load_spec(filename):
     """Load user's scene specification file."""
     with open(filename, "r") as fp:
-        spec = yaml.load(fp, Loader=yaml.Loader)
+        spec = yaml.load(fp, Loader=yaml.SafeLoader)
         return spec
 
 
-- 
2.43.0


From 5586d899157aeeae7c214c36ffb9bb062367bee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:22 +0000
Subject: [PATCH 35/72] fix: spectrum files of whole numbers are not truncated
 when scaled

The scaled coefficients were stored in an integer array.
---
 pvtrace/cli/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index fe4da1c..c00d511 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -239,7 +239,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             index_col=0,
         )
         # like numpy.column_stack((x, y))
-        spectrum = df.iloc[:, 0:2].values
+        spectrum = df.iloc[:, 0:2].values.astype(float)
         return spectrum
 
     def parse_absorber(spec, name):
-- 
2.43.0


From 4953e38933c7d0e10fc21fe0c90b52cbd6362939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:22 +0000
Subject: [PATCH 36/72] fix: components may have only a coefficient or only a
 spectrum

The schema allows either; a spectrum alone raised because an array has no
truth value, a coefficient alone raised KeyError for scatterers and
luminophores, and a coefficient of zero was taken for a missing one.
---
 pvtrace/cli/parse.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index c00d511..3fd9ec3 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -256,12 +256,12 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if "spectrum" in spec:
             spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
-        if coefficient and (spectrum is not None):
+        if (coefficient is not None) and (spectrum is not None):
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Absorber(spectrum, name=name, hist=hist)
-        elif spectrum:
+        elif spectrum is not None:
             return Absorber(spectrum, name=name, hist=hist)
-        elif coefficient:
+        elif coefficient is not None:
             return Absorber(coefficient, name=name)
 
         raise ValueError("Unexpected absorber format.")
@@ -287,9 +287,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if "quantum-yield" in spec:
             quantum_yield = spec["quantum-yield"]
 
-        spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
+        spectrum = None
+        if "spectrum" in spec:
+            spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
-        if coefficient and (spectrum is not None):
+        if (coefficient is not None) and (spectrum is not None):
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Scatterer(
                 spectrum,
@@ -298,7 +300,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif spectrum:
+        elif spectrum is not None:
             return Scatterer(
                 spectrum,
                 quantum_yield=quantum_yield,
@@ -306,7 +308,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif coefficient:
+        elif coefficient is not None:
             return Scatterer(
                 coefficient,
                 quantum_yield=quantum_yield,
@@ -338,9 +340,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             if "quantum-yield" in spec["emission"]:
                 quantum_yield = spec["emission"]["quantum-yield"]
 
-        absorption_spectrum = parse_spectrum(
-            spec["absorption"]["spectrum"], named_type="absorption"
-        )
+        absorption_spectrum = None
+        if "spectrum" in spec["absorption"]:
+            absorption_spectrum = parse_spectrum(
+                spec["absorption"]["spectrum"], named_type="absorption"
+            )
 
         emission_spectrum = parse_spectrum(
             spec["emission"]["spectrum"], named_type="emission"
@@ -349,7 +353,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if emission_spectrum is None:
             raise ValueError("Luminophore must have an emission spectrum")
 
-        if coefficient and (absorption_spectrum is not None):
+        if (coefficient is not None) and (absorption_spectrum is not None):
             absorption_spectrum[:, 1] = (
                 absorption_spectrum[:, 1]
                 / numpy.max(absorption_spectrum[:, 1])
@@ -363,7 +367,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif absorption_spectrum:
+        elif absorption_spectrum is not None:
             return Luminophore(
                 absorption_spectrum,
                 emission=emission_spectrum,
@@ -372,7 +376,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif coefficient:
+        elif coefficient is not None:
             return Luminophore(
                 coefficient,
                 emission=emission_spectrum,
-- 
2.43.0


From deafa2a3c514909a28b1da8985c87e11aaec13f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:23 +0000
Subject: [PATCH 37/72] fix: light masks may be a plain number or vector as the
 schema says

A wavelength in nanometers, a position or a direction written directly
under the mask passed the schema but was rejected by the parser.
---
 pvtrace/cli/parse.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 3fd9ec3..7ecc64d 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -13,6 +13,7 @@ import os
 import trimesh
 import numpy as np
 import pvtrace
+import functools
 from typing import Callable, Tuple, List, Dict, Optional
 from pvtrace import (
     Scene,
@@ -138,6 +139,9 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         return Mesh(trimesh=mesh, material=material)
 
     def parse_position_mask(spec):
+        if isinstance(spec, list):
+            return functools.partial(tuple, [float(v) for v in spec])
+
         if "rect" in spec:
             return RectangularMask(*spec["rect"])
 
@@ -160,6 +164,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         return HenyeyGreensteinPhaseFunction(g)
 
     def parse_direction_mask(spec) -> Callable:
+        if isinstance(spec, list):
+            direction = np.array(spec, dtype=float)
+            direction = direction / np.linalg.norm(direction)
+            return functools.partial(tuple, direction.tolist())
+
         if "isotropic" in spec:
             return isotropic_phase_function
 
@@ -175,6 +184,9 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         raise ValueError("Missing attribute")
 
     def parse_wavelength_mask(spec) -> Callable:
+        if isinstance(spec, (int, float)):
+            return ConstantWavelengthMask(spec)
+
         if "nanometers" in spec:
             nm = float(spec["nanometers"])
             return ConstantWavelengthMask(nm)
-- 
2.43.0


From 82c4e50534bc5001ca7fe52a6b163cc2506605fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 38/72] fix: rays of different workers never share an identity
 in the queue

A pool process which finished early could pick up a second share of the
rays; its process id and ray numbers then repeated and the events of two
photons were merged. The pool is also closed when the simulation ends.
---
 pvtrace/scene/scene.py | 43 +++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/pvtrace/scene/scene.py b/pvtrace/scene/scene.py
index 63f5263..fe9bd3e 100644
--- a/pvtrace/scene/scene.py
+++ b/pvtrace/scene/scene.py
@@ -286,28 +286,29 @@ class Scene(object):
                 "Seed must be None to ensure different quasi-random sequences in each process"
             )
 
-        pool = multiprocessing.Pool(processes=workers)
-
-        # Results are send to queue
-        if queue:
+        # One task per process, queued results are identified by process and would
+        # be mixed up if a process simulated more than one share of the rays.
+        with multiprocessing.Pool(processes=workers, maxtasksperchild=1) as pool:
+            # Results are send to queue
+            if queue:
+                results_proxy = [
+                    pool.apply_async(
+                        do_simulation_add_to_queue,
+                        (self, rays[idx], seeds[idx], queue, end_rays),
+                    )
+                    for idx in range(workers)
+                ]
+                [result.get() for result in results_proxy]
+                return
+
+            # Results are processed directly and returned
             results_proxy = [
-                pool.apply_async(
-                    do_simulation_add_to_queue,
-                    (self, rays[idx], seeds[idx], queue, end_rays),
-                )
+                pool.apply_async(do_simulation, (self, rays[idx], seeds[idx]))
                 for idx in range(workers)
             ]
-            [result.get() for result in results_proxy]
-            return
-
-        # Results are processed directly and returned
-        results_proxy = [
-            pool.apply_async(do_simulation, (self, rays[idx], seeds[idx]))
-            for idx in range(workers)
-        ]
-        results = []
-        for result in results_proxy:
-            histories = result.get()
-            for history in histories:
-                results.append(history)
+            results = []
+            for result in results_proxy:
+                histories = result.get()
+                for history in histories:
+                    results.append(history)
         return results
-- 
2.43.0


From e6d5d1975050b0dbd19b64325988d7c9f3126eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 39/72] fix: time lost, reacted and killed do not crash

They passed the durations only to a function expecting the photon ids too.
---
 pvtrace/cli/time.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 4a45856..93ef085 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -234,8 +234,7 @@ def lost(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when reacted in node")
@@ -270,8 +269,7 @@ def reacted(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when killed in node")
@@ -306,8 +304,7 @@ def killed(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 def main():
-- 
2.43.0


From 18c416b58741e9b336b79994ca0e7d15849781e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 40/72] fix: count lost does not ignore its facet option

---
 pvtrace/cli/count.py |  2 +-
 pvtrace/cli/db.py    | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pvtrace/cli/count.py b/pvtrace/cli/count.py
index eefebac..ba8bfe4 100644
--- a/pvtrace/cli/count.py
+++ b/pvtrace/cli/count.py
@@ -154,7 +154,7 @@ def lost(
         None, "--source", "-s", help="Label of the rays source"
     ),
 ):
-    sql = sql_count_nonradiative_loss_in_node(node, source)
+    sql = sql_count_nonradiative_loss_in_node(node, source, facet=facet)
     conn = sqlite3.connect(database)
     cur = conn.cursor()
     print(cur.execute(*sql).fetchone()[0])
diff --git a/pvtrace/cli/db.py b/pvtrace/cli/db.py
index 6c82dcb..eaa3713 100644
--- a/pvtrace/cli/db.py
+++ b/pvtrace/cli/db.py
@@ -67,7 +67,7 @@ def _boundary_query(
     return sql, tuple(params)
 
 
-def _volume_query(columns, node, kind, source=None, count=False):
+def _volume_query(columns, node, kind, source=None, count=False, facet=None):
     """Query for rays terminating inside a node's volume."""
 
     inner = [
@@ -78,6 +78,10 @@ def _volume_query(columns, node, kind, source=None, count=False):
     ]
     params = [node, kind]
 
+    if facet:
+        inner.append("AND facet = ?")
+        params.append(facet)
+
     if source:
         inner.append("AND source = ?")
         params.append(source)
@@ -138,9 +142,13 @@ def sql_count_escaping_from_node(
     )
 
 
-def sql_count_nonradiative_loss_in_node(node: str, source: Optional[str] = None):
+def sql_count_nonradiative_loss_in_node(
+    node: str, source: Optional[str] = None, facet: Optional[str] = None
+):
     """Returns the number of rays nonradiatively absorbed in the node"""
-    return _volume_query("throw_id", node, "NONRADIATIVE", source=source, count=True)
+    return _volume_query(
+        "throw_id", node, "NONRADIATIVE", source=source, count=True, facet=facet
+    )
 
 
 def sql_count_reacted_in_node(node: str, source: Optional[str] = None):
-- 
2.43.0


From bb1059aa11efa38d734da7a900a9c2158c8d82f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 41/72] fix: json output of spectra and times keeps every value
 at full precision

pandas rounds to ten decimals, turning picosecond durations into zeros, and
refuses photons with more than one value.
---
 pvtrace/cli/spectrum.py | 12 +++++++-----
 pvtrace/cli/time.py     | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/pvtrace/cli/spectrum.py b/pvtrace/cli/spectrum.py
index 378ff3d..3cb2e5d 100644
--- a/pvtrace/cli/spectrum.py
+++ b/pvtrace/cli/spectrum.py
@@ -4,6 +4,7 @@ import numpy
 import pandas
 import enum
 import io
+import json
 import termplotlib as apl
 from typing import Optional
 from pathlib import Path
@@ -48,11 +49,12 @@ def handle_output(result, output, vertical=None):
         print(buffer.getvalue())
 
     if output == OutputChoice.json:
-        buffer = io.StringIO()
-        pandas.DataFrame(
-            result[:, 1], columns=["nanometers"], index=result[:, 0].astype(int)
-        ).to_json(buffer)
-        print(buffer.getvalue())
+        # A ray crossing the surface more than once has a list of values
+        values = {}
+        for throw_id, value in result.tolist():
+            values.setdefault(int(throw_id), []).append(value)
+        values = {k: v[0] if len(v) == 1 else v for k, v in values.items()}
+        print(json.dumps({"nanometers": values}))
 
 
 @app.command(short_help="Spectrum reflected by node")
diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 93ef085..4157859 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -4,6 +4,7 @@ import numpy
 import pandas
 import enum
 import io
+import json
 import termplotlib as apl
 from typing import Optional
 from pathlib import Path
@@ -48,11 +49,12 @@ def handle_output(result, output, vertical=None):
         print(buffer.getvalue())
 
     if output == OutputChoice.json:
-        buffer = io.StringIO()
-        pandas.DataFrame(
-            result[:, 1], columns=["seconds"], index=result[:, 0].astype(int)
-        ).to_json(buffer)
-        print(buffer.getvalue())
+        # A ray crossing the surface more than once has a list of values
+        values = {}
+        for throw_id, value in result.tolist():
+            values.setdefault(int(throw_id), []).append(value)
+        values = {k: v[0] if len(v) == 1 else v for k, v in values.items()}
+        print(json.dumps({"seconds": values}))
 
 
 @app.command(short_help="Time when reflected by node")
-- 
2.43.0


From 22c5b0927ea5d2879fa6b37701b0908a92f66769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 42/72] fix: histograms of values equal to within rounding do
 not crash

---
 pvtrace/cli/spectrum.py | 8 +++++++-
 pvtrace/cli/time.py     | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pvtrace/cli/spectrum.py b/pvtrace/cli/spectrum.py
index 3cb2e5d..5792288 100644
--- a/pvtrace/cli/spectrum.py
+++ b/pvtrace/cli/spectrum.py
@@ -31,7 +31,13 @@ def handle_output(result, output, vertical=None):
     # col 2: samples
     result = numpy.array(result)
     if output == OutputChoice.plot:
-        counts, bin_edges = numpy.histogram(result[:, 1])
+        values = result[:, 1]
+        try:
+            counts, bin_edges = numpy.histogram(values)
+        except ValueError:
+            # Values equal to within rounding cannot be binned over their range
+            limits = (values.min() - 0.5, values.max() + 0.5)
+            counts, bin_edges = numpy.histogram(values, range=limits)
         fig = apl.figure()
 
         orientation = "horizontal"
diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 4157859..bf939af 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -31,7 +31,13 @@ def handle_output(result, output, vertical=None):
     # col 2: samples
     result = numpy.array(result)
     if output == OutputChoice.plot:
-        counts, bin_edges = numpy.histogram(result[:, 1])
+        values = result[:, 1]
+        try:
+            counts, bin_edges = numpy.histogram(values)
+        except ValueError:
+            # Values equal to within rounding cannot be binned over their range
+            limits = (values.min() - 0.5, values.max() + 0.5)
+            counts, bin_edges = numpy.histogram(values, range=limits)
         fig = apl.figure()
 
         orientation = "horizontal"
-- 
2.43.0


From 6a37f021fbe8e0a8252169b488aeda4e5774edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 43/72] fix: studio finds data files next to the document

Documents were parsed from a temporary file in the current directory, so that
spectra uploaded next to the document were only found when the studio was
started from its folder.
---
 pvtrace/cli/parse.py     | 11 +++++++----
 pvtrace/studio/server.py | 25 +++++++++----------------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 7ecc64d..358cf3b 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -71,12 +71,15 @@ def load_spec(filename):
 
 
 def parse(filename: str) -> Scene:
-    schema = load_schema()
-    spec = load_spec(filename)
-    jsonschema.validate(spec, schema=schema)
+    return parse_spec(load_spec(filename), os.path.dirname(filename))
+
+
+def parse_spec(spec: dict, working_directory: str) -> Scene:
+    """Scene of a loaded specification; files in it are relative to the directory."""
+    jsonschema.validate(spec, schema=load_schema())
     schema_version = spec["version"]
     if schema_version == "1.0":
-        return parse_v_1_0(spec, os.path.dirname(filename))
+        return parse_v_1_0(spec, working_directory)
     else:
         raise ValueError("Version {} not supported".format(schema_version))
 
diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index e5f9de7..684c9f6 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -6,9 +6,9 @@ returns a geometry payload for the 3D viewport, and streams engine
 results (recorder tallies and sampled ray paths) over a websocket.
 """
 import asyncio
+import copy
 import io
 import os
-import tempfile
 import time
 from pathlib import Path
 
@@ -19,7 +19,7 @@ from fastapi.responses import FileResponse, JSONResponse
 from fastapi.staticfiles import StaticFiles
 
 import pvtrace.engine as engine
-from pvtrace.cli.parse import parse as parse_scene_file
+from pvtrace.cli.parse import parse_spec
 from pvtrace.engine.recorder import Heatmap
 
 STATIC = Path(__file__).resolve().parent / "static"
@@ -44,8 +44,9 @@ class NoCacheStaticFiles(StaticFiles):
 class Studio:
     """Holds the current document and its parsed scene."""
 
-    def __init__(self, document=""):
+    def __init__(self, document="", folder=None):
         self.document = document
+        self.folder = str(folder or os.getcwd())
         self.scene = None
         self.spec = None
 
@@ -55,16 +56,8 @@ class Studio:
         if not isinstance(spec, dict):
             raise ValueError("Document is not a YAML mapping.")
 
-        # parse() validates against the JSON schema and reads from disk
-        with tempfile.NamedTemporaryFile(
-            "w", suffix=".yml", delete=False, dir=os.getcwd()
-        ) as fp:
-            fp.write(text)
-            path = fp.name
-        try:
-            scene = parse_scene_file(path)
-        finally:
-            os.unlink(path)
+        # Validates against the JSON schema; data files are next to the document
+        scene = parse_spec(copy.deepcopy(spec), self.folder)
 
         compiled = engine.compile_scene(scene)  # raises if unsupported
 
@@ -139,9 +132,11 @@ class Studio:
 def create_app(document_path=None):
     app = FastAPI(title="pvtrace studio")
     text = ""
+    folder = None
     if document_path:
         text = Path(document_path).read_text()
-    studio = Studio(text)
+        folder = Path(document_path).resolve().parent
+    studio = Studio(text, folder)
 
     @app.get("/")
     async def index():
@@ -363,8 +358,6 @@ def _patch(studio, payload):
         if kind not in SNIPPETS:
             raise ValueError(f"Unknown object kind {kind!r}")
         name = _unique_name(data.get("nodes", {}), kind)
-        import copy
-
         data["nodes"][name] = copy.deepcopy(SNIPPETS[kind])
 
     elif operation == "add-recorder":
-- 
2.43.0


From 1477e545fdc4dd8564cf18b9e218d185f32ef2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 44/72] fix: studio does not apply documents it cannot describe

A document with a NaN or infinite number replaced the previous one although
the request failed when the response was encoded.
---
 pvtrace/studio/server.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 684c9f6..b57f8c1 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -8,6 +8,7 @@ results (recorder tallies and sampled ray paths) over a websocket.
 import asyncio
 import copy
 import io
+import json
 import os
 import time
 from pathlib import Path
@@ -15,6 +16,7 @@ from pathlib import Path
 import numpy as np
 import yaml
 from fastapi import FastAPI, WebSocket, WebSocketDisconnect
+from fastapi.encoders import jsonable_encoder
 from fastapi.responses import FileResponse, JSONResponse
 from fastapi.staticfiles import StaticFiles
 
@@ -61,10 +63,17 @@ class Studio:
 
         compiled = engine.compile_scene(scene)  # raises if unsupported
 
+        previous = (self.document, self.scene, self.spec)
         self.document = text
         self.scene = scene
         self.spec = spec
-        return self.scene_payload(compiled)
+        try:
+            payload = jsonable_encoder(self.scene_payload(compiled))
+            json.dumps(payload, allow_nan=False)  # must be fit for a response
+        except Exception:
+            self.document, self.scene, self.spec = previous
+            raise
+        return payload
 
     def scene_payload(self, compiled):
         """Geometry description for the three.js viewport."""
-- 
2.43.0


From d7dc1b462a47ce1457f138b6d40d91259cd88bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 45/72] fix: the parser reads what studio edits write

The two YAML libraries disagree about numbers such as 1e-06 and words such as
yes or on, edits which wrote them were refused.
---
 pvtrace/studio/server.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index b57f8c1..197f2ef 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -307,8 +307,21 @@ SNIPPETS = {
 
 def _round_trip_yaml():
     from ruamel.yaml import YAML
+    from ruamel.yaml.representer import RoundTripRepresenter
 
+    class Representer(RoundTripRepresenter):
+        pass
+
+    def represent_float(representer, value):
+        # The parser reads 1e-06 as text, it needs 1.0e-06
+        node = RoundTripRepresenter.represent_float(representer, value)
+        if "e" in node.value and "." not in node.value:
+            node.value = node.value.replace("e", ".0e", 1)
+        return node
+
+    Representer.add_representer(float, represent_float)
     ryaml = YAML()
+    ryaml.Representer = Representer
     ryaml.preserve_quotes = True
     return ryaml
 
@@ -321,13 +334,23 @@ def _unique_name(existing, stem):
 
 
 def _flow(value):
-    """Lists render inline ([x, y, z]) like hand-written scene files."""
+    """Lists render inline ([x, y, z]) like hand-written scene files.
+
+    Text which the parser would take for something else (yes, on) is quoted.
+    """
     from ruamel.yaml.comments import CommentedSeq
+    from ruamel.yaml.scalarstring import SingleQuotedScalarString
 
     if isinstance(value, list):
-        seq = CommentedSeq(value)
+        seq = CommentedSeq([_flow(v) for v in value])
         seq.fa.set_flow_style()
         return seq
+    if isinstance(value, dict):
+        return {_flow(k): _flow(v) for k, v in value.items()}
+    if isinstance(value, str):
+        tag = yaml.resolver.Resolver().resolve(yaml.ScalarNode, value, (True, False))
+        if tag != "tag:yaml.org,2002:str":
+            return SingleQuotedScalarString(value)
     return value
 
 
@@ -376,7 +399,7 @@ def _patch(studio, payload):
         recorders = data.setdefault("recorders", {})
         name = _unique_name(recorders, f"{node}-escaping")
         recorders[name] = {
-            "node": node,
+            "node": _flow(node),
             "event": "escaping",
             "histograms": {"wavelength": [400, 900, 80]},
         }
@@ -405,7 +428,7 @@ def _patch(studio, payload):
             bins_u = max(10, min(60, int(size[u_axis] * 10)))
             bins_v = max(10, min(60, int(size[v_axis] * 10)))
             recorders[name] = {
-                "node": node,
+                "node": _flow(node),
                 "event": "escaping",
                 "facet": _flow(facet),
                 "histograms": {
@@ -444,7 +467,7 @@ def _patch(studio, payload):
         for key, value in payload["changes"].items():
             if key not in ("event", "facet", "atol"):
                 raise ValueError(f"Cannot update recorder key {key!r}")
-            recorders[name][key] = _flow(value) if isinstance(value, list) else value
+            recorders[name][key] = _flow(value)
 
     elif operation == "delete-recorder":
         recorders = data.setdefault("recorders", {})
@@ -492,7 +515,7 @@ def _recorder_to_spec(studio, name):
                 else:
                     histograms[hist.prop] = _flow(
                         [hist.start, hist.stop, hist.bins])
-            spec = {"node": node.name, "event": recorder.event}
+            spec = {"node": _flow(node.name), "event": recorder.event}
             if recorder.facet is not None:
                 spec["facet"] = _flow(list(recorder.facet))
             spec["histograms"] = histograms
-- 
2.43.0


From b30c4ea40663bb4095adb5a54a40975e7915d36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 46/72] fix: studio can delete a node which has children

They move to the parent of the deleted node.
---
 pvtrace/studio/server.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 197f2ef..ad56afb 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -483,7 +483,13 @@ def _patch(studio, payload):
 
     elif operation == "delete-node":
         name = payload["node"]
-        del data["nodes"][name]
+        parent = data["nodes"].pop(name).get("parent")
+        for node_spec in data["nodes"].values():
+            if node_spec.get("parent") == name:
+                if parent is None:
+                    del node_spec["parent"]
+                else:
+                    node_spec["parent"] = parent
         for rec_name in list((data.get("recorders") or {})):
             if data["recorders"][rec_name].get("node") == name:
                 del data["recorders"][rec_name]
-- 
2.43.0


From 46dfaf9dccb959384e3b3b359fa113491d89694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 47/72] fix: studio run uses one scene throughout

An edit applied while the first message was sent made a run add up results of
a scene other than the one it announced.
---
 pvtrace/studio/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index ad56afb..fd28517 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -213,7 +213,8 @@ def create_app(document_path=None):
             record_every = int(params.get("record_every", 1000))
             max_paths = int(params.get("max_paths", 200))
 
-            compiled = engine.compile_scene(studio.scene)
+            scene = studio.scene  # edits during the run are for the next one
+            compiled = engine.compile_scene(scene)
             hist_meta = _histogram_meta(compiled)
             await ws.send_json({"type": "started", "total": num_rays,
                                 "histograms": hist_meta})
@@ -227,7 +228,7 @@ def create_app(document_path=None):
             tic = time.perf_counter()
 
             stream = engine.simulate_stream(
-                studio.scene, num_rays, bundle=bundle, seed=seed,
+                scene, num_rays, bundle=bundle, seed=seed,
                 record_every=record_every,
             )
             while True:
-- 
2.43.0


From 9356ba80bfa3d9e7c312931d97c8119837ab522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 48/72] fix: studio stops the current run before the next one

A stop request directly followed by a run request, which is what the page
sends, was undone by the latter and the results of both runs were mixed.
---
 pvtrace/studio/server.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index fd28517..4a80f3b 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -205,7 +205,9 @@ def create_app(document_path=None):
         stop = {"flag": False}
         task = None
 
-        async def run(params):
+        async def run(params, stop, previous):
+            if previous:
+                await asyncio.wait([previous])
             loop = asyncio.get_running_loop()
             num_rays = int(params.get("rays", 100000))
             bundle = int(params.get("bundle", 25000))
@@ -269,8 +271,10 @@ def create_app(document_path=None):
                         await ws.send_json({"type": "error",
                                             "message": "Apply a scene first."})
                         continue
-                    stop["flag"] = False
-                    task = asyncio.create_task(run(message))
+                    # A new run replaces the current one
+                    stop["flag"] = True
+                    stop = {"flag": False}
+                    task = asyncio.create_task(run(message, stop, task))
                 elif command == "stop":
                     stop["flag"] = True
         except WebSocketDisconnect:
-- 
2.43.0


From 0dac1e5cb9b8f177307eb7df8afe0a32f5e9069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 49/72] fix: studio reports runs which fail

The page waited forever for a run which raised, such as one without lights.
---
 pvtrace/studio/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 4a80f3b..e1a70fe 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -208,6 +208,12 @@ def create_app(document_path=None):
         async def run(params, stop, previous):
             if previous:
                 await asyncio.wait([previous])
+            try:
+                await trace(params, stop)
+            except Exception as exception:  # surface run errors to the UI
+                await ws.send_json({"type": "error", "message": str(exception)})
+
+        async def trace(params, stop):
             loop = asyncio.get_running_loop()
             num_rays = int(params.get("rays", 100000))
             bundle = int(params.get("bundle", 25000))
-- 
2.43.0


From baba76557c26d8bde2907ddf315a434590baecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 50/72] fix: studio edits keep the comments of what follows

Replacing a list or removing an entry lost the comment before the next entry,
and removing the last entry of a section could make the document unreadable.
---
 pvtrace/studio/server.py | 137 +++++++++++++++++++++++++++++----------
 1 file changed, 101 insertions(+), 36 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index e1a70fe..6967e9c 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -349,7 +349,7 @@ def _flow(value):
 
     Text which the parser would take for something else (yes, on) is quoted.
     """
-    from ruamel.yaml.comments import CommentedSeq
+    from ruamel.yaml.comments import CommentedMap, CommentedSeq
     from ruamel.yaml.scalarstring import SingleQuotedScalarString
 
     if isinstance(value, list):
@@ -357,7 +357,7 @@ def _flow(value):
         seq.fa.set_flow_style()
         return seq
     if isinstance(value, dict):
-        return {_flow(k): _flow(v) for k, v in value.items()}
+        return CommentedMap((_flow(k), _flow(v)) for k, v in value.items())
     if isinstance(value, str):
         tag = yaml.resolver.Resolver().resolve(yaml.ScalarNode, value, (True, False))
         if tag != "tag:yaml.org,2002:str":
@@ -365,6 +365,74 @@ def _flow(value):
     return value
 
 
+def _last_line(container, key):
+    """Where the comment after the value at key is kept."""
+    from ruamel.yaml.comments import CommentedMap, CommentedSeq
+
+    value = container[key]
+    while (
+        isinstance(value, (CommentedMap, CommentedSeq))
+        and len(value) > 0
+        and not value.fa.flow_style()
+    ):
+        is_map = isinstance(value, CommentedMap)
+        container, key = value, list(value)[-1] if is_map else len(value) - 1
+        value = container[key]
+    return container.ca, key, 2 if isinstance(container, CommentedMap) else 0
+
+
+def _following_comment(container, key):
+    """Removes and returns comment lines after the value at key."""
+    comments, last, slot = _last_line(container, key)
+    token = comments.items.get(last, [None] * 4)[slot]
+    if token is None:
+        lines = "".join(token.value for token in comments.end)
+        comments.end = []
+        return lines
+    own, _, following = token.value.partition("\n")
+    token.value = own + "\n"
+    return following
+
+
+def _add_comment(comments, key, slot, lines):
+    """Put comment lines after the value kept there."""
+    from ruamel.yaml.error import CommentMark
+    from ruamel.yaml.tokens import CommentToken
+
+    entry = comments.items.setdefault(key, [None] * 4)
+    if entry[slot] is None:
+        entry[slot] = CommentToken("\n" + lines, CommentMark(0), None)
+    else:
+        entry[slot].value = entry[slot].value.rstrip("\n") + "\n" + lines
+
+
+def _replace(container, key, value):
+    """Set or add the value at key, what follows it keeps its comments."""
+    lines = ""
+    if hasattr(container, "ca") and container:
+        end = key if key in container else list(container)[-1]
+        lines = _following_comment(container, end)
+        comments = container.ca.items.get(key)
+        if comments:
+            comments[3] = None  # inside the old value
+    container[key] = _flow(value)
+    if lines:
+        _add_comment(*_last_line(container, key), lines)
+
+
+def _remove(data, section, name):
+    """Remove an entry of a section, the next entry keeps its comments."""
+    entries = data[section]
+    index = list(entries).index(name)
+    lines = _following_comment(entries, name)
+    before = _last_line(entries, list(entries)[index - 1]) if index else None
+    del entries[name]
+    if not entries:
+        data[section] = {}  # what is left has no place for comments
+    if lines:
+        _add_comment(*(before or (data.ca, section, 2)), lines)
+
+
 def _patch(studio, payload):
     """Returns new document text for a structured edit; does not apply it."""
     ryaml = _round_trip_yaml()
@@ -373,12 +441,12 @@ def _patch(studio, payload):
 
     if operation == "set":
         target = data
-        path = payload["path"]
-        for key in path[:-1]:
-            if key not in target:
-                target[key] = {}
-            target = target[key]
-        target[path[-1]] = _flow(payload["value"])
+        path, value = list(payload["path"]), payload["value"]
+        while len(path) > 1 and path[0] in target:
+            target = target[path.pop(0)]
+        while len(path) > 1:
+            value = {path.pop(): value}
+        _replace(target, path[0], value)
 
     elif operation == "move":
         # World position from the viewport gizmo; location is relative
@@ -392,16 +460,15 @@ def _patch(studio, payload):
         if node.parent is None:
             raise ValueError("Cannot move the root node.")
         local = studio.scene.root.point_to_node(tuple(world), node.parent)
-        data["nodes"][name]["location"] = _flow(
-            [round(float(v), 6) for v in local]
-        )
+        _replace(data["nodes"][name], "location",
+                 [round(float(v), 6) for v in local])
 
     elif operation == "add-node":
         kind = payload["kind"]
         if kind not in SNIPPETS:
             raise ValueError(f"Unknown object kind {kind!r}")
         name = _unique_name(data.get("nodes", {}), kind)
-        data["nodes"][name] = copy.deepcopy(SNIPPETS[kind])
+        _replace(data["nodes"], name, SNIPPETS[kind])
 
     elif operation == "add-recorder":
         node = payload["node"]
@@ -409,11 +476,11 @@ def _patch(studio, payload):
             raise ValueError(f"Unknown node {node!r}")
         recorders = data.setdefault("recorders", {})
         name = _unique_name(recorders, f"{node}-escaping")
-        recorders[name] = {
-            "node": _flow(node),
+        _replace(recorders, name, {
+            "node": node,
             "event": "escaping",
             "histograms": {"wavelength": [400, 900, 80]},
-        }
+        })
 
     elif operation == "add-face-recorders":
         # One escaping recorder with a position heatmap per box face
@@ -438,35 +505,35 @@ def _patch(studio, payload):
             u_axis, v_axis = [i for i in range(3) if i != axis]
             bins_u = max(10, min(60, int(size[u_axis] * 10)))
             bins_v = max(10, min(60, int(size[v_axis] * 10)))
-            recorders[name] = {
-                "node": _flow(node),
+            _replace(recorders, name, {
+                "node": node,
                 "event": "escaping",
-                "facet": _flow(facet),
+                "facet": facet,
                 "histograms": {
-                    "position": _flow([
+                    "position": [
                         axes[u_axis], axes[v_axis],
-                        _flow([-half[u_axis], half[u_axis], bins_u]),
-                        _flow([-half[v_axis], half[v_axis], bins_v]),
-                    ]),
+                        [-half[u_axis], half[u_axis], bins_u],
+                        [-half[v_axis], half[v_axis], bins_v],
+                    ],
                 },
-            }
+            })
 
     elif operation == "add-component":
         components = data.setdefault("components", {})
         name = _unique_name(components, "absorber")
-        components[name] = {"absorber": {"coefficient": 1.0}}
+        _replace(components, name, {"absorber": {"coefficient": 1.0}})
 
     elif operation == "delete-component":
         name = payload["component"]
-        del data["components"][name]
+        _remove(data, "components", name)
         # Remove references from node materials
         for node_spec in data.get("nodes", {}).values():
             for geom in ("box", "sphere", "cylinder", "mesh"):
                 material = node_spec.get(geom, {}).get("material", {})
                 if name in (material.get("components") or []):
-                    material["components"] = [
+                    _replace(material, "components", [
                         c for c in material["components"] if c != name
-                    ]
+                    ])
 
     elif operation == "update-recorder":
         # Edits to auto recorders (from record: true) materialise them
@@ -474,16 +541,16 @@ def _patch(studio, payload):
         name = payload["recorder"]
         recorders = data.setdefault("recorders", {})
         if name not in recorders:
-            recorders[name] = _recorder_to_spec(studio, name)
+            _replace(recorders, name, _recorder_to_spec(studio, name))
         for key, value in payload["changes"].items():
             if key not in ("event", "facet", "atol"):
                 raise ValueError(f"Cannot update recorder key {key!r}")
-            recorders[name][key] = _flow(value)
+            _replace(recorders[name], key, value)
 
     elif operation == "delete-recorder":
         recorders = data.setdefault("recorders", {})
         if payload["recorder"] in recorders:
-            del recorders[payload["recorder"]]
+            _remove(data, "recorders", payload["recorder"])
         else:
             # Hide an auto recorder by materialising nothing: turn off
             # record: on its node is the way; report it clearly instead.
@@ -494,16 +561,14 @@ def _patch(studio, payload):
 
     elif operation == "delete-node":
         name = payload["node"]
-        parent = data["nodes"].pop(name).get("parent")
+        parent = data["nodes"][name].get("parent")
+        _remove(data, "nodes", name)
         for node_spec in data["nodes"].values():
             if node_spec.get("parent") == name:
-                if parent is None:
-                    del node_spec["parent"]
-                else:
-                    node_spec["parent"] = parent
+                _replace(node_spec, "parent", parent or "world")
         for rec_name in list((data.get("recorders") or {})):
             if data["recorders"][rec_name].get("node") == name:
-                del data["recorders"][rec_name]
+                _remove(data, "recorders", rec_name)
 
     else:
         raise ValueError(f"Unknown operation {operation!r}")
-- 
2.43.0


From 3ba8eb64323503ba887d128de05ee800aaa28319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 51/72] fix: studio uploads stay within the folder and do not
 touch the document

---
 pvtrace/studio/server.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 6967e9c..90a379c 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -144,7 +144,7 @@ def create_app(document_path=None):
     folder = None
     if document_path:
         text = Path(document_path).read_text()
-        folder = Path(document_path).resolve().parent
+        folder = Path(document_path).absolute().parent
     studio = Studio(text, folder)
 
     @app.get("/")
@@ -173,8 +173,13 @@ def create_app(document_path=None):
         if not name or not name.lower().endswith((".csv", ".txt")):
             return JSONResponse({"error": "Only .csv or .txt files."},
                                 status_code=422)
-        target = Path(document_path).parent / name
-        target.write_text(payload["content"])
+        folder = Path(studio.folder).resolve()
+        target = folder / name
+        document = Path(document_path).resolve()
+        if target.resolve() != target or target == document:
+            return JSONResponse({"error": f"{name} is not a data file."},
+                                status_code=422)
+        target.write_bytes(payload["content"].encode())
         return {"saved": name}
 
     @app.post("/api/save")
-- 
2.43.0


From 77c2096db1e6d813517fb90ff4e25ac96951197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 52/72] fix: LSC results do not use removed pandas functions

---
 pvtrace/device/lsc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index df5116c..ddfe656 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -379,22 +379,23 @@ class LSC(object):
     def _make_dataframe(self):
 
         # to-do: Only need to process additional rays not whole dataframe! Optimise!
-        df = pd.DataFrame()
+        rows = []
 
         # Rays entering the scene
         for ray, event in self._store["entrance_rays"]:
             rep = asdict(ray)
             rep["kind"] = "entrance"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            rows.append(rep)
 
         # Rays exiting the scene
         for ray, event in self._store["exit_rays"]:
             rep = asdict(ray)
             rep["kind"] = "exit"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            rows.append(rep)
 
+        df = pd.DataFrame(rows)
         self._df = df
         return df
 
-- 
2.43.0


From 1b1d86451fd3d25c3716d0ea7b4562ddb88d44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 53/72] fix: LSC simulations can be continued

---
 pvtrace/device/lsc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index ddfe656..16230c1 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -342,7 +342,9 @@ class LSC(object):
 
         # Simulate can be called multiple time to append rays to the store
         if self._store is None:
-            store = {"entrance_rays": [], "exit_rays": []}
+            self._store = {"entrance_rays": [], "exit_rays": []}
+        store = self._store
+        self._counts = None
 
         vis = self._renderer
         count = 0
@@ -367,7 +369,6 @@ class LSC(object):
                 count += 1
                 progress(count)
 
-        self._store = store
         print("Tracing finished.")
         print("Preparing results.")
         df = self._make_dataframe()
-- 
2.43.0


From 601bdedaede1ea36fe7d4c052923e602f8a02ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 54/72] fix: LSC results include lost photons

---
 pvtrace/device/lsc.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 16230c1..cee6d11 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -352,13 +352,13 @@ class LSC(object):
             history = photon_tracer.follow(scene, ray, emit_method=emit_method)
             rays, events = zip(*history)
             store["entrance_rays"].append((rays[1], events[1]))
-            if events[-1] in (Event.ABSORB, Event.KILL):
-                # final event is a lost store path information at final event
-                store["exit_rays"].append((rays[-1], events[-1]))
-            elif events[-1] == Event.EXIT:
+            if events[-1] == Event.EXIT:
                 # final event hits the world node. Store path information at
                 # penultimate location
                 store["exit_rays"].append((rays[-2], events[-2]))
+            else:
+                # final event is a lost store path information at final event
+                store["exit_rays"].append((rays[-1], events[-1]))
 
             # Update visualiser
             if vis:
@@ -594,7 +594,9 @@ class LSC(object):
         for facet in all_facets:
             incident += counts["Solar In"][facet]
 
-        lost = self.spectrum(source="all", events={"absorb"}, kind="last").shape[0]
+        lost = self.spectrum(
+            source="all", events={"nonradiative"}, kind="last"
+        ).shape[0]
 
         optical_efficiency = lum_collected / incident
         waveguide_efficiency = lum_collected / (lum_collected + lum_escaped)
@@ -679,7 +681,7 @@ def test1():
     lsc.simulate(throw, emit_method="redshift")
     edge = lsc.spectrum(facets={"left", "right", "near", "far"}, source="all")
     escape = lsc.spectrum(facets={"top", "bottom"}, source="all")
-    lost = lsc.spectrum(source="all", events={"absorb"})
+    lost = lsc.spectrum(source="all", events={"nonradiative"})
 
     import matplotlib.pyplot as plt
 
-- 
2.43.0


From 03e3513e12a485941a7ed1e15a52840591f405df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 55/72] fix: LSC uses its wavelength range

---
 pvtrace/device/lsc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index cee6d11..b621550 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -95,8 +95,9 @@ class LSC(object):
     def __init__(self, size, wavelength_range=None, n0=1.0, n1=1.5):
         super(LSC, self).__init__()
         if wavelength_range is None:
-            self.wavelength_range = np.arange(400, 800)
+            wavelength_range = np.arange(400, 800)
 
+        self.wavelength_range = wavelength_range
         self.size = size  # centimetres
         self.n0 = n0
         self.n1 = n1
-- 
2.43.0


From 00ba6453ab905236e2a25a241f5fc4d2df3455d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 56/72] fix: LSC can have scatterers

---
 pvtrace/device/lsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index b621550..963c1ab 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -1,4 +1,4 @@
-from pvtrace.material.component import Absorber, Luminophore
+from pvtrace.material.component import Absorber, Luminophore, Scatterer
 from pvtrace.light.light import Light, rectangular_mask
 from pvtrace.light.event import Event
 from pvtrace.scene.node import Node
-- 
2.43.0


From c5bd58bd417688b4079fec99054aa11c31b48520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 57/72] fix: LSC simulates what was added after it was first
 used

---
 pvtrace/device/lsc.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 963c1ab..93e4de0 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -159,10 +159,9 @@ class LSC(object):
         )
 
         # Create components (Absorbers, Luminophores and Scatteres)
-        if len(self._user_components) == 0:
-            self._user_components = self._make_default_components()
         components = []
-        for component_data in self._user_components:
+        for component_data in self._user_components or self._make_default_components():
+            component_data = dict(component_data)
             cls = component_data.pop("cls")
             coefficient = component_data.pop("coefficient")
             component = cls(coefficient, **component_data)
@@ -199,12 +198,9 @@ class LSC(object):
             # Move adjacent to bottom surface with a small air gap
             air_gap_mirror.translate((0.0, 0.0, -(0.5 * d + sheet_thickness)))
 
-        # Use user light if any have been given, otherwise use default values.
-        if len(self._user_lights) == 0:
-            self._user_lights = self._make_default_lights()
-
         # Create light nodes
-        for light_data in self._user_lights:
+        # Use user light if any have been given, otherwise use default values.
+        for light_data in self._user_lights or self._make_default_lights():
             name = light_data["name"]
             light = Light(
                 name=name,
@@ -222,12 +218,12 @@ class LSC(object):
     def component_names(self):
         if self._scene is None:
             raise ValueError("Run a simulation before calling this method.")
-        return {c["name"] for c in self._user_components}
+        return {component.name for component in self._scene.component_nodes}
 
     def light_names(self):
         if self._scene is None:
             raise ValueError("Run a simulation before calling this method.")
-        return {l["name"] for l in self._user_lights}
+        return {light.name for light in self._scene.light_nodes}
 
     def add_luminophore(
         self, name, coefficient, emission, quantum_yield, phase_function=None
@@ -322,8 +318,7 @@ class LSC(object):
             "short_length": short_length,
         }
 
-        if self._scene is None:
-            self._make_scene()
+        self._make_scene()
 
         self._renderer = MeshcatRenderer(
             open_browser=open_browser,
@@ -337,8 +332,7 @@ class LSC(object):
         return self._renderer
 
     def simulate(self, n, progress=None, emit_method="kT"):
-        if self._scene is None:
-            self._make_scene()
+        self._make_scene()
         scene = self._scene
 
         # Simulate can be called multiple time to append rays to the store
-- 
2.43.0


From b3ddaa436e1ed59f866228afc7722ce5dc691e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 58/72] fix: specular air gap mirror of the LSC reflects

---
 pvtrace/device/lsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 93e4de0..e58ed24 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -73,7 +73,7 @@ class AirGapMirror(FresnelSurfaceDelegate):
     def reflected_direction(self, surface, ray, geometry, container, adjacent):
         if not self.lsc._air_gap_mirror_info["lambertian"]:
             # Specular reflection
-            return super(AirGapMirror, self).transmitted_direction(
+            return super(AirGapMirror, self).reflected_direction(
                 surface, ray, geometry, container, adjacent
             )
         else:
-- 
2.43.0


From cf2fb327de69f9875c0307f7f4ccbf53f41145a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 59/72] fix: near and far facets of the LSC are those of its
 solar cells

---
 pvtrace/device/lsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index e58ed24..7afea40 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -444,8 +444,8 @@ class LSC(object):
         zmin, zmax = -0.5 * height, 0.5 * height
         df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
         df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
-        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "far"
-        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
         df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
         df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
         return df
-- 
2.43.0


From 8af424a9f01399ce6067f662f5ef50b6a4f194b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 60/72] fix: LSC facets are labelled where rays cross them only

---
 pvtrace/device/lsc.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 7afea40..7e0e5b6 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -442,12 +442,21 @@ class LSC(object):
         xmin, xmax = -0.5 * length, 0.5 * length
         ymin, ymax = -0.5 * width, 0.5 * width
         zmin, zmax = -0.5 * height, 0.5 * height
-        df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
-        df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
-        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
-        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
-        df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
-        df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
+        # Rays which are lost inside, or which hit something else, are not on a facet
+        on_box = df["event"].isin(("reflect", "transmit"))
+        for axis, limit in zip("xyz", (xmax, ymax, zmax)):
+            position = df["position_{}".format(axis)].abs()
+            on_box &= (position < limit) | np.isclose(position, limit, atol=EPS_ZERO)
+
+        def label(column, value, facet):
+            df.loc[on_box & np.isclose(df[column], value, atol=EPS_ZERO), "facet"] = facet
+
+        label("position_x", xmin, "left")
+        label("position_x", xmax, "right")
+        label("position_y", ymin, "near")
+        label("position_y", ymax, "far")
+        label("position_z", zmin, "bottom")
+        label("position_z", zmax, "top")
         return df
 
     def _make_counts(self, df):
-- 
2.43.0


From 78d9c60831ff6c9437529f18de555b5278388498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 61/72] fix: renderer removes the baubles of removed histories

---
 pvtrace/scene/renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 9f9df80..9ac44df 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -309,14 +309,14 @@ class MeshcatRenderer(object):
             if baubles:
                 event = start_part[1]
                 if event in {Event.TRANSMIT}:
-                    baubid = self.get_next_identifer()
-                    vis[f"exit/{baubid}"].set_object(
+                    baubid = f"exit/{self.get_next_identifer()}"
+                    vis[baubid].set_object(
                         g.Sphere(bauble_radius),
                         g.MeshBasicMaterial(
                             color=colour, transparency=False, opacity=1
                         ),
                     )
-                    vis[f"exit/{baubid}"].set_transform(tf.translation_matrix(start))
+                    vis[baubid].set_transform(tf.translation_matrix(start))
 
                     ids.append(baubid)
 
-- 
2.43.0


From a14ae74b27e9f9a6c76a58b1ed6ffbbd4075ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 62/72] fix: renderer keeps as many histories as asked for

---
 pvtrace/scene/renderer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 9ac44df..56eabf6 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -39,7 +39,7 @@ class MeshcatRenderer(object):
         self.vis = meshcat.Visualizer(zmq_url=zmq_url)
         if open_browser:
             self.vis.open()
-        self.ray_histories = deque(maxlen=max_histories)
+        self.ray_histories = deque()
         self.max_histories = max_histories
         self.added_index = 0
         self.wireframe = wireframe
@@ -321,7 +321,9 @@ class MeshcatRenderer(object):
                     ids.append(baubid)
 
         self.ray_histories.append(ids)
-        if len(self.ray_histories) == self.max_histories:
+        if self.max_histories is not None and (
+            len(self.ray_histories) > self.max_histories
+        ):
             ids_to_remove = self.ray_histories.popleft()
             for id_to_remove in ids_to_remove:
                 self.remove_object(id_to_remove)
-- 
2.43.0


From 7fadf2f3b547308fa830d857f97749aa64c82357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 63/72] fix: renderer shortens the segment to the world node
 only

---
 pvtrace/scene/renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 56eabf6..144f466 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -291,14 +291,14 @@ class MeshcatRenderer(object):
             raise AppError("Need at least two points to render a line.")
 
         ids = []
-        rays, events = zip(*history)
-        for (start_part, end_part) in zip(history[:-1], history[1:]):
+        last = len(history) - 2
+        for idx, (start_part, end_part) in enumerate(zip(history[:-1], history[1:])):
             start_ray, end_ray = start_part[0], end_part[0]
             nanometers = start_ray.wavelength
             start = start_ray.position
             end = end_ray.position
             if world_segment == "short":
-                if end_ray == history[-1][0]:
+                if idx == last and end_part[1] == Event.EXIT:
                     end = (
                         np.array(start_ray.position)
                         + np.array(start_ray.direction) * short_length
-- 
2.43.0


From fef6a3e5f76439af70efc5fa568ad57b40b138bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 64/72] fix: renderer can show the root

---
 pvtrace/scene/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 144f466..988cedb 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -51,7 +51,7 @@ class MeshcatRenderer(object):
         """"""
         vis = self.vis
         for node in LevelOrderIter(scene.root):
-            if node == scene.root:
+            if node == scene.root and not show_root:
                 continue
             self.add_node(node)
 
-- 
2.43.0


From 70a0587c36367adb2a2d67dc5fecc533828450a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 65/72] fix: renderer shows nodes which share a name

---
 pvtrace/scene/renderer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 988cedb..344fd67 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -59,13 +59,23 @@ class MeshcatRenderer(object):
         # Using a dot here as a quick fix to _avoid_ Meshcat automatically
         # transforming the parent coordinate system. If you use `"/"` then
         # you would get that behaviour.
-        pathname = " | ".join([x.name for x in node.path])
+        pathname = " | ".join([self._label(x) for x in node.path])
         if node.geometry is not None:
             # Transforming everything to global
             self.add_geometry(
                 node.geometry, pathname, node.transformation_to(node.root)
             )
 
+    def _label(self, node):
+        # Names need not be unique, and Meshcat would take a slash as a sub-tree
+        label = node.name.replace("/", "\u2215")
+        if node.parent is not None:
+            same = [x for x in node.parent.children if x.name == node.name]
+            idx = next(i for i, x in enumerate(same) if x is node)
+            if idx > 0:
+                label = "{} ({})".format(label, idx + 1)
+        return label
+
     def add_geometry(self, geometry, pathname, transform):
         vis = self.vis
         material = g.MeshBasicMaterial(
-- 
2.43.0


From 1078667c28bb6231d79e8d1d52f7cd3831b1594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 66/72] fix: renderer draws lines between integer points

---
 pvtrace/scene/renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 344fd67..122c2bd 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -144,7 +144,7 @@ class MeshcatRenderer(object):
         vis = self.vis
         line = (start, end)
         # self._will_add_expendable_to_scene(line)
-        vertices = np.column_stack(line)
+        vertices = np.column_stack(line).astype(float)
         assert vertices.shape[0] == 3  # easy to get this wrong
         identifier = self.get_next_identifer()
         vis[identifier].set_object(
@@ -182,7 +182,7 @@ class MeshcatRenderer(object):
         """
         vis = self.vis
         # self._will_add_expendable_to_scene(vertices)
-        vertices = np.array(vertices)
+        vertices = np.array(vertices, dtype=float)
         assert vertices.shape[0] == 3  # easy to get this wrong
         identifier = self.get_next_identifer()
         vis[identifier].set_object(
-- 
2.43.0


From 5311da38ec16a7a29ddee70cf0c8b3bb30d4d5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 67/72] fix: simulate fails when the database cannot be written

---
 pvtrace/cli/main.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pvtrace/cli/main.py b/pvtrace/cli/main.py
index 4d6a5c6..3371a88 100644
--- a/pvtrace/cli/main.py
+++ b/pvtrace/cli/main.py
@@ -212,8 +212,22 @@ def simulate(
     queue = manager.Queue(maxsize=10000)
     stop = threading.Event()
     with typer.progressbar(length=rays) as progress:
+        errors = []
+
+        def monitor(*args):
+            try:
+                monitor_queue(*args)
+            except Exception as err:
+                errors.append(err)
+                # Keep emptying the queue otherwise the workers never finish
+                while not (stop.is_set() and queue.empty()):
+                    try:
+                        queue.get(True, 0.1)
+                    except Empty:
+                        pass
+
         monitor_thread = threading.Thread(
-            target=monitor_queue,
+            target=monitor,
             args=(
                 dbfilepath,
                 queue,
@@ -238,6 +252,8 @@ def simulate(
                 pytime.sleep(0.2)
             stop.set()
             monitor_thread.join()
+    if errors:
+        raise errors[0]
     print("OK")
 
 
-- 
2.43.0


From 9d9b9620b6bb767b22dafda7fc17abb955d0a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 68/72] fix: photons at the critical angle have no direction

---
 pvtrace/engine/_kernel.pyx | 5 +++--
 pvtrace/material/utils.py  | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 195a0dd..7c7a255 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -20,6 +20,7 @@ from libc.math cimport (
     asin,
     cos,
     fabs,
+    fmax,
     log,
     sin,
     sqrt,
@@ -405,7 +406,7 @@ cdef inline double fresnel_reflectivity(double angle, double n1, double n2) noex
         return 1.0
     c = cos(angle)
     s = sin(angle)
-    k = sqrt(1.0 - (n1 / n2 * s) ** 2)
+    k = sqrt(fmax(1.0 - (n1 / n2 * s) ** 2, 0.0))  # at the critical angle
     rs1 = n1 * c - n2 * k
     rs2 = n1 * c + n2 * k
     rs = (rs1 / rs2) ** 2
@@ -433,7 +434,7 @@ cdef inline void fresnel_refract(double* d, double* normal, double n1, double n2
     """`normal` must already be flipped to point along the ray direction."""
     cdef double n = n1 / n2
     cdef double dd = dot3(d, normal)
-    cdef double c = sqrt(1.0 - n * n * (1.0 - dd * dd))
+    cdef double c = sqrt(fmax(1.0 - n * n * (1.0 - dd * dd), 0.0))
     cdef double sign = 1.0
     cdef int i
     if dd < 0.0:
diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 5dc2cf9..b893ae5 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -11,7 +11,7 @@ def fresnel_reflectivity(angle, n1, n2):
         return 1.0
     c = np.cos(angle)
     s = np.sin(angle)
-    k = np.sqrt(1 - (n1 / n2 * s) ** 2)
+    k = np.sqrt(np.maximum(1 - (n1 / n2 * s) ** 2, 0.0))  # at the critical angle
     Rs1 = n1 * c - n2 * k
     Rs2 = n1 * c + n2 * k
     Rs = (Rs1 / Rs2) ** 2
@@ -37,7 +37,7 @@ def fresnel_refraction(direction, normal, n1, n2):
     normal = np.array(normal)
     n = n1 / n2
     dot = np.dot(vector, normal)
-    c = np.sqrt(1 - n ** 2 * (1 - dot ** 2))
+    c = np.sqrt(np.maximum(1 - n ** 2 * (1 - dot ** 2), 0.0))
     sign = 1
     if dot < 0.0:
         sign = -1
-- 
2.43.0


From d5bc4d16eaa271fccdbb2083b70c0373610ea75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:08 +0000
Subject: [PATCH 69/72] fix: histogram emission exceeds the energy limit beyond
 its last value

---
 pvtrace/material/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index 06e7541..32f37ad 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -424,6 +424,9 @@ class Luminophore(Scatterer):
         p2 = 1.0
         gamma = np.random.uniform(p1, p2)
         wavelength = dist.sample(gamma)
+        if method != "full":
+            # The last value of a histogram with emission can be below the limit
+            wavelength = max(wavelength, nm)
 
         # Delay emission using the radiative lifetime
         emission_delay = 0.0
-- 
2.43.0


From 73ba9db9daef1ccbd1f1ba97d9cd3b4b58db98f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:56 +0000
Subject: [PATCH 70/72] fix: photons heading for the world's surface are not
 absorbed in its medium

---
 pvtrace/algorithm/photon_tracer.py |  6 ++---
 pvtrace/engine/_kernel.pyx         | 38 +++++++++++++++---------------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index 9f67347..e645c1e 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -181,7 +181,9 @@ def step_forward(scene, ray, maxsteps=1000, maxpathlength=np.inf, emit_method="k
             break
 
         refractive_index = container.geometry.material.refractive_index
-        if hit is scene.root:
+        material = container.geometry.material
+        absorbed, at_distance = material.is_absorbed(ray, full_distance)
+        if hit is scene.root and not absorbed:
             yield (
                 ray.propagate(full_distance, refractive_index),
                 Event.EXIT,
@@ -193,8 +195,6 @@ def step_forward(scene, ray, maxsteps=1000, maxpathlength=np.inf, emit_method="k
             )
             break
 
-        material = container.geometry.material
-        absorbed, at_distance = material.is_absorbed(ray, full_distance)
         if absorbed:
             ray = ray.propagate(at_distance, refractive_index)
             component = material.component(ray.wavelength)
diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 7c7a255..170ae4b 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -740,25 +740,6 @@ cdef int trace_one(
 
         n_container = S.nidx[container]
 
-        # --- exit through the root boundary ---------------------------
-        if hit == S.root:
-            for i in range(3):
-                pos[i] = pos[i] + direction[i] * t0
-            travelled += t0
-            duration += t0 * n_container / C_CM_PER_S
-            record(elog, base, &nevents, EV_EXIT, hit, container, adjacent, -1, source,
-                   pos, direction, NULL, wavelength, travelled, duration)
-            if S.n_recorders > 0:
-                transform_point(S.w2l + hit * 16, pos, local_p)
-                local_normal(S, hit, local_p, nrm_local)
-                transform_vector(S.l2w + hit * 16, nrm_local, nrm)
-                ddot = fabs(dot3(nrm, direction))
-                if ddot > 1.0:
-                    ddot = 1.0
-                tally(S, AB, tid, REC_EXIT, hit, rseen, nrm,
-                      local_p, acos(ddot), wavelength, travelled, duration)
-            break
-
         # --- volume absorption ----------------------------------------
         cbase = S.comp_start[container]
         ccount = S.comp_count[container]
@@ -857,6 +838,25 @@ cdef int trace_one(
                           local_p, 0.0, wavelength, travelled, duration)
                 break
 
+        # --- exit through the root boundary ---------------------------
+        if hit == S.root:
+            for i in range(3):
+                pos[i] = pos[i] + direction[i] * t0
+            travelled += t0
+            duration += t0 * n_container / C_CM_PER_S
+            record(elog, base, &nevents, EV_EXIT, hit, container, adjacent, -1, source,
+                   pos, direction, NULL, wavelength, travelled, duration)
+            if S.n_recorders > 0:
+                transform_point(S.w2l + hit * 16, pos, local_p)
+                local_normal(S, hit, local_p, nrm_local)
+                transform_vector(S.l2w + hit * 16, nrm_local, nrm)
+                ddot = fabs(dot3(nrm, direction))
+                if ddot > 1.0:
+                    ddot = 1.0
+                tally(S, AB, tid, REC_EXIT, hit, rseen, nrm,
+                      local_p, acos(ddot), wavelength, travelled, duration)
+            break
+
         # --- surface interaction --------------------------------------
         for i in range(3):
             pos[i] = pos[i] + direction[i] * t0
-- 
2.43.0


From 12a270508856ad2e83f5adeabaeaf71401f6f455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:01 +0000
Subject: [PATCH 71/72] fix: studio run announces recorders of nodes without a
 geometry under another node

---
 pvtrace/studio/server.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 90a379c..4f3ed52 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -612,6 +612,14 @@ def _recorder_to_spec(studio, name):
 
 def _histogram_meta(compiled):
     """Static histogram descriptions sent once per run."""
+    from anytree import PreOrderIter
+
+    # By name, recorders of nodes without a geometry have no compiled node
+    owners = {
+        recorder.name: node.name
+        for node in PreOrderIter(compiled.scene.root)
+        for recorder in getattr(node, "recorders", [])
+    }
     meta = {}
     for r, spec in enumerate(compiled.recorder_specs):
         entries = []
@@ -635,7 +643,7 @@ def _histogram_meta(compiled):
                 })
         meta[spec.name] = {
             "event": spec.event,
-            "node": compiled.node_names[int(compiled.rec_node[r])],
+            "node": owners[spec.name],
             "histograms": entries,
         }
     return meta
-- 
2.43.0


From 31d852535adf6747adec1b893ee40ec9d7acd885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:17 +0000
Subject: [PATCH 72/72] fix: parallel simulation with a failing worker no
 longer hangs

Leaving the pool at the first failure terminated the other workers, also
while they were sending a result; that left the result queue locked and
the pool waiting for it for ever.
---
 pvtrace/scene/scene.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pvtrace/scene/scene.py b/pvtrace/scene/scene.py
index fe9bd3e..24f01e0 100644
--- a/pvtrace/scene/scene.py
+++ b/pvtrace/scene/scene.py
@@ -89,6 +89,18 @@ def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays):
     return pid
 
 
+def _finish(pool, results):
+    """Wait for all results, also if some are failures, and for the workers to exit.
+
+    Terminating workers which are still sending a result can leave the pool's
+    queues locked, and with them the simulation.
+    """
+    for result in results:
+        result.wait()
+    pool.close()
+    pool.join()
+
+
 class Scene(object):
     """A scene graph of nodes."""
 
@@ -298,6 +310,7 @@ class Scene(object):
                     )
                     for idx in range(workers)
                 ]
+                _finish(pool, results_proxy)
                 [result.get() for result in results_proxy]
                 return
 
@@ -306,6 +319,7 @@ class Scene(object):
                 pool.apply_async(do_simulation, (self, rays[idx], seeds[idx]))
                 for idx in range(workers)
             ]
+            _finish(pool, results_proxy)
             results = []
             for result in results_proxy:
                 histories = result.get()
-- 
2.43.0

