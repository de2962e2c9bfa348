From 2829f01b44604e17c565d8f31a9e4615867ab48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 01/24] fix: do not overwrite the view factor matrix when
 calculating AOI losses

build_ts_vf_aoi_matrix wrote the AOI-weighted factors into the array saved as
pvarray.ts_vf_matrix, so that after a full run with AOI functions the reported
view factors no longer summed to one nor were reciprocal.
---
 pvfactors/viewfactors/calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvfactors/viewfactors/calculator.py b/pvfactors/viewfactors/calculator.py
index aa8e844..59e5048 100644
--- a/pvfactors/viewfactors/calculator.py
+++ b/pvfactors/viewfactors/calculator.py
@@ -153,7 +153,7 @@ class VFCalculator(object):
         n_ts_surfaces = pvarray.n_ts_surfaces
         vf_aoi_matrix = np.zeros(
             (n_ts_surfaces + 1, n_ts_surfaces + 1, n_steps),
-            dtype=float) if self.vf_matrix is None else self.vf_matrix
+            dtype=float) if self.vf_matrix is None else self.vf_matrix.copy()
 
         # Get timeseries objects
         ts_ground = pvarray.ts_ground
-- 
2.43.0


From a4a1da111a5aa30e7446679db5d98bd0ae7ae1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 02/24] fix: use the requested index to select non-point ground
 surfaces

TsGround.non_point_{shaded,illum}_surfaces_at(idx) always looked at index 0.
---
 pvfactors/geometry/pvground.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/pvground.py b/pvfactors/geometry/pvground.py
index f336c2a..1890317 100644
--- a/pvfactors/geometry/pvground.py
+++ b/pvfactors/geometry/pvground.py
@@ -522,7 +522,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for shadow_el in self.shadow_elements:
-            list_surfaces += shadow_el.non_point_surfaces_at(0)
+            list_surfaces += shadow_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_illum_surfaces_at(self, idx):
@@ -540,7 +540,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for illum_el in self.illum_elements:
-            list_surfaces += illum_el.non_point_surfaces_at(0)
+            list_surfaces += illum_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_surfaces_at(self, idx):
-- 
2.43.0


From f97c02f4e00bd2513cdcf875924abe02a7ebceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 03/24] fix: count the leaked direct light on shaded front
 surfaces (isotropic model)

IsotropicOrdered.total_perez['front_shaded_pvrow'], which the fast mode takes
as the irradiance incident on the shaded part of the neighbouring row, left out
the direct light passing through module transparency and spacing, although the
ground shadows, the surfaces themselves and HybridPerezOrdered count it.
---
 pvfactors/irradiance/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 904c44c..5d03cde 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -180,7 +180,9 @@ class IsotropicOrdered(BaseModel):
         self.total_perez['front_illum_pvrow'] = perez_front_pvrow['poa_global']
         self.total_perez['front_shaded_pvrow'] = (
             self.total_perez['front_illum_pvrow']
-            - self.direct['front_illum_pvrow'])
+            - self.direct['front_illum_pvrow']
+            # Direct light that leaks through PV modules and spacing
+            + self.direct['front_shaded_pvrow'])
         self.total_perez['ground_shaded'] = (self.DHI
                                              + self.direct['ground_shaded'])
 
-- 
2.43.0


From 3cadb1a7bee526d3b0c47bc0b434a72783b88e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 04/24] fix: take the values of pandas series in order when
 fitting the engine

Series were aligned on the timestamps by the Perez calculations, so that a
series with any other index (like the default one) silently lost its diffuse
light; lists, accepted by the documentation, raised.
---
 pvfactors/engine.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pvfactors/engine.py b/pvfactors/engine.py
index 9d8b252..0b0dc68 100644
--- a/pvfactors/engine.py
+++ b/pvfactors/engine.py
@@ -148,10 +148,18 @@ class PVEngine(object):
             surface_azimuth = np.array([surface_azimuth])
             ghi = None if ghi is None else np.array([ghi])
 
+        # Use plain arrays: the values of other array-likes (lists, or pandas
+        # series with any index) should be used in the order they are passed
+        DNI, DHI, solar_zenith, solar_azimuth, surface_tilt, \
+            surface_azimuth = map(np.asarray, [
+                DNI, DHI, solar_zenith, solar_azimuth, surface_tilt,
+                surface_azimuth])
+        ghi = None if ghi is None else np.asarray(ghi)
+
         # Format albedo
         self.n_points = len(DNI)
         albedo = (albedo * np.ones(self.n_points) if np.isscalar(albedo)
-                  else albedo)
+                  else np.asarray(albedo))
 
         # Fit PV array
         self.pvarray.fit(solar_zenith, solar_azimuth, surface_tilt,
-- 
2.43.0


From 7083bd3aac32491a48e098e7e4098b3a17942475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 05/24] fix: initialize reflectivities with default values when
 there are no faoi functions

PVEngine.with_rho_initialization raised AttributeError with a calculator
without AOI methods instead of using the given or default values.
---
 pvfactors/engine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pvfactors/engine.py b/pvfactors/engine.py
index 0b0dc68..02902e9 100644
--- a/pvfactors/engine.py
+++ b/pvfactors/engine.py
@@ -87,12 +87,14 @@ class PVEngine(object):
             PV engine where the rho values have been initialized
         """
         # Calculate global average reflectivity using VF calculator
+        # (only available when both faoi functions were passed)
+        aoi_methods = vf_calculator.vf_aoi_methods
         is_back = False
-        rho_front_calculated = (vf_calculator.vf_aoi_methods
-                                .rho_from_faoi_fn(is_back))
+        rho_front_calculated = (None if aoi_methods is None
+                                else aoi_methods.rho_from_faoi_fn(is_back))
         is_back = True
-        rho_back_calculated = (vf_calculator.vf_aoi_methods
-                               .rho_from_faoi_fn(is_back))
+        rho_back_calculated = (None if aoi_methods is None
+                               else aoi_methods.rho_from_faoi_fn(is_back))
         # Initialize rho values for irradiance model
         irradiance_model.rho_front = irradiance_model.initialize_rho(
             irradiance_model.rho_front, rho_front_calculated,
-- 
2.43.0


From 351374fc2905b003c802774676f4e09f10787522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:30 +0000
Subject: [PATCH 06/24] fix: no endless recursion in perez_diffuse_luminance
 when the sun is edge-on

---
 pvfactors/irradiance/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pvfactors/irradiance/utils.py b/pvfactors/irradiance/utils.py
index b25a582..fe682b7 100644
--- a/pvfactors/irradiance/utils.py
+++ b/pvfactors/irradiance/utils.py
@@ -78,6 +78,17 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
     )
     df_inputs_back_surface.loc[:, 'surface_tilt'] = (
         180. - df_inputs_back_surface.surface_tilt)
+    # When the sun is edge-on, rounding errors can leave it behind both sides:
+    # use a surface facing the sun, so that the recursion below always stops
+    edge_on = irradiance.aoi_projection(
+        df_inputs_back_surface.surface_tilt,
+        df_inputs_back_surface.surface_azimuth,
+        df_inputs_back_surface.solar_zenith,
+        df_inputs_back_surface.solar_azimuth) < 0
+    df_inputs_back_surface.loc[edge_on, 'surface_tilt'] = (
+        df_inputs_back_surface.solar_zenith[edge_on])
+    df_inputs_back_surface.loc[edge_on, 'surface_azimuth'] = (
+        df_inputs_back_surface.solar_azimuth[edge_on])
 
     if df_inputs_back_surface.shape[0] > 0:
         # Use recursion to calculate circumsolar luminance for back surface
-- 
2.43.0


From 98556ffb1aeb9ca0b38e403062de6d11e68f530b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 07/24] fix: difference of a line with a longer line that
 covers it is empty

---
 pvfactors/geometry/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index 8025768..e7c14ed 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -67,6 +67,9 @@ def difference(u, v):
             return LineString([ub1, vb2])
         else:
             return u
+    elif v_contains_ub1 and v_contains_ub2:
+        # nothing remains of u when v covers it and extends beyond it
+        return LineString()
     else:
         return u
 
-- 
2.43.0


From 7c269aaf597df5b254db82db58f4453f6e1d3044 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 08/24] fix: cast a shadow over several illuminated parts of a
 segment

---
 pvfactors/geometry/base.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 4cc7d1d..03f35f4 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -701,13 +701,13 @@ class PVSegment(GeometryCollection):
         intersection = (self._illum_collection.buffer(DISTANCE_TOLERANCE)
                         .intersection(linestring))
         if not intersection.is_empty:
-            # Split up only if interesects the illuminated collection
-            # print(intersection)
-            self._shaded_collection.add_linestring(intersection,
-                                                   normal_vector=self.n_vector)
-            # print(self._shaded_collection.length)
-            self._illum_collection.remove_linestring(intersection)
-            # print(self._illum_collection.length)
+            # Split up only if interesects the illuminated collection. The
+            # intersection has several parts when the segment is already
+            # shaded in between
+            for part in getattr(intersection, 'geoms', [intersection]):
+                self._shaded_collection.add_linestring(
+                    part, normal_vector=self.n_vector)
+                self._illum_collection.remove_linestring(part)
             super(PVSegment, self).__init__([self._shaded_collection,
                                              self._illum_collection])
 
-- 
2.43.0


From 4ae7b313ae15d40b454c9de95b6f2c5411b45dfd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 09/24] fix: merge surfaces that go down from left to right on
 their line

---
 pvfactors/geometry/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 03f35f4..1d06688 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -466,6 +466,10 @@ class ShadeCollection(GeometryCollection):
             merged_lines = linemerge(self.list_surfaces)
             minx, miny, maxx, maxy = merged_lines.bounds
             surf_1 = self.list_surfaces[0]
+            b1, b2 = surf_1.boundary
+            if (b2.x - b1.x) * (b2.y - b1.y) < 0:
+                # the surfaces go down from left to right
+                miny, maxy = maxy, miny
             new_pvsurf = PVSurface(
                 coords=[(minx, miny), (maxx, maxy)],
                 shaded=self.shaded, normal_vector=surf_1.n_vector,
-- 
2.43.0


From 755bd4aafc9eef4d1aeed53a4c4cbd7f2ca752b0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 10/24] fix: list the current surfaces of segments, sides and
 rows after they changed

---
 pvfactors/geometry/base.py  | 21 +++++++++------------
 pvfactors/geometry/pvrow.py | 10 ++++------
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 1d06688..5516b91 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -636,7 +636,6 @@ class PVSegment(GeometryCollection):
         self._shaded_collection = shaded_collection
         self._illum_collection = illum_collection
         self.index = index
-        self._all_surfaces = None
         super(PVSegment, self).__init__([self._shaded_collection,
                                          self._illum_collection])
 
@@ -917,11 +916,11 @@ class PVSegment(GeometryCollection):
         list of :py:class:`~pvfactors.geometry.base.PVSurface`
             PV surfaces in the PV segment
         """
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self._illum_collection.list_surfaces
-            self._all_surfaces += self._shaded_collection.list_surfaces
-        return self._all_surfaces
+        # Not saved: shading, cutting, and merging change the list
+        all_surfaces = []
+        all_surfaces += self._illum_collection.list_surfaces
+        all_surfaces += self._shaded_collection.list_surfaces
+        return all_surfaces
 
 
 class BaseSide(GeometryCollection):
@@ -939,7 +938,6 @@ class BaseSide(GeometryCollection):
         list_segments = [] if list_segments is None else list_segments
         check_collinear(list_segments)
         self.list_segments = tuple(list_segments)
-        self._all_surfaces = None
         super(BaseSide, self).__init__(list_segments)
 
     @classmethod
@@ -1012,11 +1010,10 @@ class BaseSide(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all surfaces in the Side object."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            for segment in self.list_segments:
-                self._all_surfaces += segment.all_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        for segment in self.list_segments:
+            all_surfaces += segment.all_surfaces
+        return all_surfaces
 
     @property
     def surface_indices(self):
diff --git a/pvfactors/geometry/pvrow.py b/pvfactors/geometry/pvrow.py
index 66fe966..74ebd29 100644
--- a/pvfactors/geometry/pvrow.py
+++ b/pvfactors/geometry/pvrow.py
@@ -695,7 +695,6 @@ class PVRow(GeometryCollection):
         self.back = back_side
         self.index = index
         self.original_linestring = original_linestring
-        self._all_surfaces = None
         super(PVRow, self).__init__([self.front, self.back])
 
     @classmethod
@@ -832,11 +831,10 @@ class PVRow(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all the surfaces in the PV row."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self.front.all_surfaces
-            self._all_surfaces += self.back.all_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        all_surfaces += self.front.all_surfaces
+        all_surfaces += self.back.all_surfaces
+        return all_surfaces
 
     @property
     def surface_indices(self):
-- 
2.43.0


From c3db2e3d71e70c18e286bb2713fdc20a1b6eb3f9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 11/24] fix: segments created without a collection do not share
 one

---
 pvfactors/geometry/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 5516b91..017e060 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -613,8 +613,8 @@ class PVSegment(GeometryCollection):
     call basic geometrical methods and properties on it, eg call length, etc.
     """
 
-    def __init__(self, illum_collection=ShadeCollection(shaded=False),
-                 shaded_collection=ShadeCollection(shaded=True), index=None):
+    def __init__(self, illum_collection=None, shaded_collection=None,
+                 index=None):
         """Initialize PV segment.
 
         Parameters
@@ -630,6 +630,11 @@ class PVSegment(GeometryCollection):
         index : int, optional
             Index of the PV segment (Default = None)
         """
+        # Collections change in place, so every segment needs its own
+        if illum_collection is None:
+            illum_collection = ShadeCollection(shaded=False)
+        if shaded_collection is None:
+            shaded_collection = ShadeCollection(shaded=True)
         assert shaded_collection.shaded, "surface should be shaded"
         assert not illum_collection.shaded, "surface should not be shaded"
         self._check_collinear(illum_collection, shaded_collection)
-- 
2.43.0


From cd2d563e4ffb391b7ea009c8f1b153fb1be97abf Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 12/24] fix: surfaces shaded by a cast shadow keep the
 parameter names of their segment

---
 pvfactors/geometry/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 017e060..2fa9a89 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -712,9 +712,11 @@ class PVSegment(GeometryCollection):
             # Split up only if interesects the illuminated collection. The
             # intersection has several parts when the segment is already
             # shaded in between
+            param_names = self._illum_collection.list_surfaces[0].param_names
             for part in getattr(intersection, 'geoms', [intersection]):
-                self._shaded_collection.add_linestring(
-                    part, normal_vector=self.n_vector)
+                self._shaded_collection.add_pvsurface(PVSurface(
+                    coords=part.coords, normal_vector=self.n_vector,
+                    shaded=True, param_names=param_names))
                 self._illum_collection.remove_linestring(part)
             super(PVSegment, self).__init__([self._shaded_collection,
                                              self._illum_collection])
-- 
2.43.0


From 3b0226021b35c23be4ad9708917efd76d979ed13 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 13/24] fix: merging shaded areas that are apart shades what
 lies in between

---
 pvfactors/geometry/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 2fa9a89..a447fde 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -1067,7 +1067,12 @@ class BaseSide(GeometryCollection):
     def merge_shaded_areas(self):
         """Merge shaded areas of all PV segments"""
         for seg in self.list_segments:
+            length = seg._shaded_collection.length
             seg._shaded_collection.merge_surfaces()
+            if seg._shaded_collection.length - length > DISTANCE_TOLERANCE:
+                # what was illuminated in between is now shaded
+                for surf in seg._shaded_collection.list_surfaces:
+                    seg._illum_collection.remove_linestring(surf)
 
     def cut_at_point(self, point):
         """Cut Side at point if the side contains it.
-- 
2.43.0


From 288363224c5449cf2dd5fe40d14ec512899eceea Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 14/24] fix: cut the shaded surfaces of a segment without
 illuminated ones

shapely puts empty geometries at a distance of 0 to any point, so that the
empty illuminated collection was taken to contain the point to cut at.
---
 pvfactors/geometry/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index e7c14ed..e6521ca 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -76,7 +76,9 @@ def difference(u, v):
 
 def contains(linestring, point, tol_distance=DISTANCE_TOLERANCE):
     """Fixing floating point errors obtained in shapely for contains"""
-    return linestring.distance(point) < tol_distance
+    # Note that shapely puts empty geometries at a distance of 0 to any point
+    return (not linestring.is_empty
+            and linestring.distance(point) < tol_distance)
 
 
 def is_collinear(list_elements):
-- 
2.43.0


From 647d17cdfd643fa6932831bc163c7ce59c5036d6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 15/24] fix: a shadow that only touches a segment does not
 shade it

The tolerance around the illuminated surfaces led to shaded surfaces of a
length of about that tolerance, from which merging then went on to the
other shaded surfaces of the segment.
---
 pvfactors/geometry/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index a447fde..2e48f45 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -714,6 +714,9 @@ class PVSegment(GeometryCollection):
             # shaded in between
             param_names = self._illum_collection.list_surfaces[0].param_names
             for part in getattr(intersection, 'geoms', [intersection]):
+                if part.length < 2. * DISTANCE_TOLERANCE:
+                    # only touches the illuminated collection
+                    continue
                 self._shaded_collection.add_pvsurface(PVSurface(
                     coords=part.coords, normal_vector=self.n_vector,
                     shaded=True, param_names=param_names))
-- 
2.43.0


From 7cd83eb9103eab683f46b15d311929a87b223be8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 16/24] fix: no circumsolar shading without a neighbor row

---
 pvfactors/irradiance/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 5d03cde..83a78ed 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -928,6 +928,7 @@ class HybridPerezOrdered(BaseModel):
 
         # TODO: should be applied to all pvrow surfaces
 
+        circ_shading_pct = 0.
         if idx_neighbor is not None:
             # Calculate the solar and circumsolar elevation angles in 2D plane
             solar_2d_elevation = np.abs(
-- 
2.43.0


From e7a569dfeecfbe5207e6866185c1ce57e31348b6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 17/24] fix: fit the PV array to floats and lists, as
 documented

---
 pvfactors/geometry/pvarray.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvfactors/geometry/pvarray.py b/pvfactors/geometry/pvarray.py
index a8cecbb..847adaa 100644
--- a/pvfactors/geometry/pvarray.py
+++ b/pvfactors/geometry/pvarray.py
@@ -148,6 +148,11 @@ class OrderedPVArray(BasePVArray):
             Surface azimuth angles [deg]
         """
 
+        # Floats and any array-like are accepted
+        solar_zenith, solar_azimuth, surface_tilt, surface_azimuth = (
+            np.atleast_1d(angles) for angles in (
+                solar_zenith, solar_azimuth, surface_tilt, surface_azimuth))
+
         self.n_states = len(solar_zenith)
         # Calculate rotation angles
         rotation_vec = _get_rotation_from_tilt_azimuth(
-- 
2.43.0


From 6870bce54c18673e5d61c4f33296756ad020d8f0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 18/24] fix: a ground without cut points still is one zone

The elements of a ground without cut points had no surfaces at all, so that
such a ground was empty in snapshots, although n cut points are documented to
divide an element into n+1 surfaces.
---
 pvfactors/geometry/pvground.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pvfactors/geometry/pvground.py b/pvfactors/geometry/pvground.py
index 1890317..8a85733 100644
--- a/pvfactors/geometry/pvground.py
+++ b/pvfactors/geometry/pvground.py
@@ -793,8 +793,7 @@ class TsGroundElement(object):
         self.surface_dict = None  # will be necessary for view factor calcs
         self.surface_list = []  # will be necessary for vf matrix formation
         list_ordered_cut_pts_coords = list_ordered_cut_pts_coords or []
-        if len(list_ordered_cut_pts_coords) > 0:
-            self._create_all_ts_surfaces(list_ordered_cut_pts_coords)
+        self._create_all_ts_surfaces(list_ordered_cut_pts_coords)
         self.n_ts_surfaces = len(self.surface_list)
 
     @property
-- 
2.43.0


From 68c60548dea3f8c81798734e75c762ca8dff921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 19/24] fix: clip the circumsolar view factor of back surfaces
 like pvlib does

With the sun less than 5 degrees above the horizon and behind the modules,
the circumsolar light on back surfaces was larger than on front surfaces
seen under the same angle, without bound as the sun sets.
---
 pvfactors/irradiance/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 83a78ed..773314c 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -1008,8 +1008,9 @@ class HybridPerezOrdered(BaseModel):
         aoi_back_pvrow = 180. - aoi_front_pvrow
 
         # Will be used for back surface adjustments: from Perez model
-        # FIXME: pvlib clips the angle values to calculate vf -> adjust here
-        vf_circumsolar_backsurface = cosd(aoi_back_pvrow) / cosd(solar_zenith)
+        # pvlib clips the angle values to calculate vf: do the same here
+        vf_circumsolar_backsurface = (
+            cosd(aoi_back_pvrow) / np.maximum(cosd(solar_zenith), cosd(85)))
         poa_circumsolar_back = (luminance_circumsolar
                                 * vf_circumsolar_backsurface)
 
-- 
2.43.0


From bf04ac3c63491c732fe34507b4081e74a3dbdcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 20/24] fix: the sky stays as bright when modules do not see it

The luminance of the sky dome and of the circumsolar area was derived from
the irradiance on the modules' plane, which pvlib sets to zero when the total
is negative (modules facing down, or steep ones when the sun is low), so that
the ground and all other surfaces lost their diffuse light as well, and from
0/0 for modules facing straight down.
---
 pvfactors/irradiance/utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pvfactors/irradiance/utils.py b/pvfactors/irradiance/utils.py
index fe682b7..ca27c4f 100644
--- a/pvfactors/irradiance/utils.py
+++ b/pvfactors/irradiance/utils.py
@@ -122,18 +122,25 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
         index=df_inputs.index
     )
 
-    # Calculate diffuse luminance
+    # Calculate diffuse luminance: the sky is equally bright for all planes, but
+    # pvlib ignores it where the total on the plane is negative, so use a
+    # horizontal plane to look at the sky dome and at the circumsolar area
+    horizontal = irradiance.perez(0., 0., df_inputs.dhi, df_inputs.dni, dni_et,
+                                  df_inputs.solar_zenith,
+                                  df_inputs.solar_azimuth, am,
+                                  return_components=True)
+    vf_circumsolar_horizontal = np.maximum(cosd(df_inputs.solar_zenith), 0) / b
     luminance = pd.DataFrame(
         np.array([
             components['horizon'] / vf_perez['vf_horizon'],
-            components['circumsolar'] / vf_perez['vf_circumsolar'],
-            components['isotropic'] / vf_perez['vf_isotropic']
+            horizontal['circumsolar'] / vf_circumsolar_horizontal,
+            horizontal['isotropic']
         ]).T,
         index=df_inputs.index,
         columns=['luminance_horizon', 'luminance_circumsolar',
                  'luminance_isotropic']
     )
-    luminance.loc[components['sky_diffuse'] == 0, :] = 0.
+    luminance.loc[horizontal['sky_diffuse'] == 0, :] = 0.
 
     # Format components column names
     components = components.rename(columns={'isotropic': 'poa_isotropic',
-- 
2.43.0


From dcd55af8bf60416107ca0b7ac07945648bfcd7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 21/24] fix: the fast mode sees no ground when the plane of the
 modules meets it beyond its end

---
 pvfactors/viewfactors/vfmethods.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pvfactors/viewfactors/vfmethods.py b/pvfactors/viewfactors/vfmethods.py
index 5943454..ff041b5 100644
--- a/pvfactors/viewfactors/vfmethods.py
+++ b/pvfactors/viewfactors/vfmethods.py
@@ -364,8 +364,8 @@ class VFTsMethods(object):
             # There is no obstruction to view of the ground on the left
             coords_left_gnd = TsLineCoords(
                 TsPointCoords(MIN_X_GROUND * np.ones(n_steps), y_ground),
-                TsPointCoords(np.minimum(MAX_X_GROUND, cut_point_coords.x),
-                              y_ground))
+                TsPointCoords(np.clip(cut_point_coords.x, MIN_X_GROUND,
+                                      MAX_X_GROUND), y_ground))
             vf_left_ground = self._vf_surface_to_surface(
                 pvrow_element_coords, coords_left_gnd, pvrow_element_length)
         else:
@@ -379,8 +379,8 @@ class VFTsMethods(object):
         if pvrow_idx == (n_pvrows - 1):
             # There is no obstruction of the view of the ground on the right
             coords_right_gnd = TsLineCoords(
-                TsPointCoords(np.maximum(MIN_X_GROUND, cut_point_coords.x),
-                              y_ground),
+                TsPointCoords(np.clip(cut_point_coords.x, MIN_X_GROUND,
+                                      MAX_X_GROUND), y_ground),
                 TsPointCoords(MAX_X_GROUND * np.ones(n_steps), y_ground))
             vf_right_ground = self._vf_surface_to_surface(
                 pvrow_element_coords, coords_right_gnd, pvrow_element_length)
-- 
2.43.0


From 1eed4fd690d043c09b4bcb74e6df13b8905cfce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 22/24] fix: collections and sides take their normal from the
 first part that is not empty

---
 pvfactors/geometry/base.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 2e48f45..6d886af 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -569,10 +569,11 @@ class ShadeCollection(GeometryCollection):
         if not self.is_collinear:
             msg = "Cannot request n_vector if all elements not collinear"
             raise PVFactorsError(msg)
-        if len(self.list_surfaces):
-            return self.list_surfaces[0].n_vector
-        else:
-            return DEFAULT_NORMAL_VEC
+        for surface in self.list_surfaces:
+            # empty surfaces have no direction
+            if not surface.is_empty:
+                return surface.n_vector
+        return DEFAULT_NORMAL_VEC
 
     @property
     def n_surfaces(self):
@@ -996,10 +997,11 @@ class BaseSide(GeometryCollection):
     @property
     def n_vector(self):
         """Normal vector of the Side."""
-        if len(self.list_segments):
-            return self.list_segments[0].n_vector
-        else:
-            return DEFAULT_NORMAL_VEC
+        for segment in self.list_segments:
+            # empty segments have no direction
+            if not segment.is_empty:
+                return segment.n_vector
+        return DEFAULT_NORMAL_VEC
 
     @property
     def shaded_length(self):
-- 
2.43.0


From 1eb4355d37df9e1afb7046a925be19f31f8f0568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:29 +0000
Subject: [PATCH 23/24] fix: flat modules given as whole numbers keep their
 negative zero rotation

---
 pvfactors/geometry/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 6d886af..3247c08 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -121,7 +121,8 @@ def _get_rotation_from_tilt_azimuth(surface_azimuth, axis_azimuth, tilt):
 
     # Calculate rotation of PV row (signed tilt angle)
     is_pointing_right = ((surface_azimuth - axis_azimuth) % 360.) > 180.
-    rotation = np.where(is_pointing_right, tilt, -tilt)
+    # (float, as whole numbers have no negative zero)
+    rotation = np.where(is_pointing_right, tilt, -tilt).astype(float)
     rotation[tilt == 0] = -0.0  # GH 125
     return rotation
 
-- 
2.43.0


From f6ea194c99c2fb247badf1583e940490d9061340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:47 +0000
Subject: [PATCH 24/24] fix: surfaces of a ground taken without cut points do
 not share their parameters

All the shaded (or all the illuminated) surfaces of such a snapshot held one
dictionary: a value put on one of them was put on all.
---
 pvfactors/geometry/pvground.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvfactors/geometry/pvground.py b/pvfactors/geometry/pvground.py
index 8a85733..54a3d44 100644
--- a/pvfactors/geometry/pvground.py
+++ b/pvfactors/geometry/pvground.py
@@ -241,7 +241,7 @@ class TsGround(object):
                     # No overlap for the given index or config
                     list_shadow_surfaces = [
                         PVSurface(shadow_el.coords.at(idx),
-                                  shaded=True, params=shaded_params,
+                                  shaded=True, params=dict(shaded_params),
                                   param_names=self.param_names)
                         for shadow_el in non_pt_shadow_elements
                         if shadow_el.coords.length[idx]
@@ -250,14 +250,15 @@ class TsGround(object):
                 # No need to merge the shadow surfaces
                 list_shadow_surfaces = [
                     PVSurface(shadow_el.coords.at(idx),
-                              shaded=True, params=shaded_params,
+                              shaded=True, params=dict(shaded_params),
                               param_names=self.param_names)
                     for shadow_el in non_pt_shadow_elements
                     if shadow_el.coords.length[idx]
                     > DISTANCE_TOLERANCE]
             # Get the illuminated surfaces
             list_illum_surfaces = [PVSurface(illum_el.coords.at(idx),
-                                             shaded=False, params=illum_params,
+                                             shaded=False,
+                                             params=dict(illum_params),
                                              param_names=self.param_names)
                                    for illum_el in self.illum_elements
                                    if illum_el.coords.length[idx]
-- 
2.43.0

