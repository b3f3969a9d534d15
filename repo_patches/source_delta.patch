From ed8fd8ab6232f4a09bd58d6f263e252dea94b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:41 +0000
Subject: [PATCH 01/45] fix: use the z component in the y row of
 transform_to_global_frame

The local z coordinate was replaced by y, so vectors and arcs came out wrong
whenever the third frame vector has a y component.
---
 src/hypervehicle/geometry/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 1f14705..fa9223d 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -205,7 +205,7 @@ class Vector3:
     ):
         """Change the coordinates from the local right-handed (RH) system at point c."""
         new_x = self.x * n.x + self.y * t1.x + self.z * t2.x
-        new_y = self.x * n.y + self.y * t1.y + self.y * t2.y
+        new_y = self.x * n.y + self.y * t1.y + self.z * t2.y
         new_z = self.x * n.z + self.y * t1.z + self.z * t2.z
         if c is not None:
             new_x += c.x
-- 
2.43.0


From d4cee782a37aee9331d0ec079b70587ea87f3f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:41 +0000
Subject: [PATCH 02/45] fix: transform_to_local_frame changes the vector in
 place with an origin

Subtracting the origin rebound self to a new vector, so the caller's vector
kept its global coordinates.
---
 src/hypervehicle/geometry/vector.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index fa9223d..1b5b0c4 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -221,11 +221,13 @@ class Vector3:
     ):
         """Change coordinates into the local right-handed (RH) system at point c."""
         if c is not None:
-            self -= c
+            local = self - c
+        else:
+            local = self
 
-        x = self.dot(n)
-        y = self.dot(t1)
-        z = self.dot(t2)
+        x = local.dot(n)
+        y = local.dot(t1)
+        z = local.dot(t2)
 
         self._x = x
         self._y = y
-- 
2.43.0


From 493553ac28fa1876aac9053b305bd39b3ec8fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:41 +0000
Subject: [PATCH 03/45] fix: reject unsupported operands of in-place vector
 division

Returning the NotImplementedError class replaced the vector by that class.
---
 src/hypervehicle/geometry/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 1b5b0c4..977a017 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -141,7 +141,7 @@ class Vector3:
             self._z /= other
             return self
         else:
-            return NotImplementedError
+            return NotImplemented
 
     def __abs__(self):
         """Returns magnitude."""
-- 
2.43.0


From 281ff497f058566979dbe85e5af8d5b204b056aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:41 +0000
Subject: [PATCH 04/45] fix: reject the product of two vectors

Multiplying two vectors returned the second one scaled by the x component of
the first. Use dot or cross_product instead.
---
 src/hypervehicle/geometry/vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 977a017..cefd553 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -108,6 +108,8 @@ class Vector3:
         multiple : float | int
             The multiple to use in the multiplication.
         """
+        if isinstance(multiple, Vector3):
+            raise Exception(f"Cannot multiply a vector by a {type(multiple)}.")
         return Vector3(x=self.x * multiple, y=self.y * multiple, z=self.z * multiple)
 
     def __rmul__(self, other):
-- 
2.43.0


From eb1854e6608f9ad68bd41bde5148abfa8b30a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:41 +0000
Subject: [PATCH 05/45] fix: close a polyline from its end to its start

The closing segment ran from the start to the end, so the curve jumped and
did not return to its start.
---
 src/hypervehicle/geometry/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index e3d6bc0..8f9a6f1 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -96,7 +96,7 @@ class Polyline(Path):
             p0 = self.segments[0](0.0)
             p1 = self.segments[-1](1.0)
             if abs(p1 - p0) > tolerance:
-                self.segments.append(Line(p0, p1))
+                self.segments.append(Line(p1, p0))
         self.reset_breakpoints()
 
     def reset_breakpoints(self):
-- 
2.43.0


From 0011ddb41d4a7ff2fa1f080f9b35b4e151f997f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:41 +0000
Subject: [PATCH 06/45] fix: select exactly one polyline segment next to a
 breakpoint

Just above a breakpoint the local parameter of the lower segment can round to
one, so both segments were added and the point came out doubled.
---
 src/hypervehicle/geometry/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index 8f9a6f1..b421e25 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -127,11 +127,11 @@ class Polyline(Path):
         for i, tl, tu in zip(range(n), self.t_values[:-1], self.t_values[1:]):
             t_local = (t - tl) / (tu - tl)
             if i == 0:
-                isokay = t_local <= 1.0
+                isokay = t <= tu
             elif i == n - 1:
-                isokay = t_local > 0.0
+                isokay = t > tl
             else:
-                isokay = np.logical_and(t_local > 0.0, t_local <= 1.0)
+                isokay = np.logical_and(t > tl, t <= tu)
             f += self.segments[i](t_local) * isokay
         return f
 
-- 
2.43.0


From 260ccc31fbd01e308cf4f473a45f2f46b70b2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:44 +0000
Subject: [PATCH 07/45] fix: return a new vector from a Bezier curve with a
 single point

The stored control point itself was returned, so changing the returned vector
in place changed the curve.
---
 src/hypervehicle/geometry/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index b421e25..275ef47 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -72,7 +72,7 @@ class Bezier(Path):
 
     def __call__(self, t):
         if len(self.B) == 1:
-            return self.B[0]
+            return Vector3(self.B[0])
         n_order = len(self.B) - 1
         # Apply de Casteljau's algorithm.
         Q = self.B.copy()  # work array will be overwritten
-- 
2.43.0


From 35bb3cf08fee193ab1ccd381ee5b2835efd34033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:44 +0000
Subject: [PATCH 08/45] fix: report the length of the sub-range of a path

SubRangedPath returned the length of the whole underlying path.
---
 src/hypervehicle/geometry/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 9e0919d..df59b96 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -33,7 +33,10 @@ class SubRangedPath(Path):
         return self.underlying_path(t_dash)
 
     def length(self):
-        return self.underlying_path.length()
+        if abs(self.t1 - self.t0) == 1:
+            # Whole path, possibly reversed
+            return self.underlying_path.length()
+        return super().length()
 
 
 class ReversedPath(SubRangedPath):
-- 
2.43.0


From 278837de3ac9d181d7c0e3169bbaf258fa770c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 09/45] fix: mesh a patch with its own resolution in the s
 direction

---
 src/hypervehicle/components/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index b784f60..7fd3573 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -273,7 +273,7 @@ class Component(AbstractComponent):
             ]
         else:
             case_list = [
-                [k, patch, self.patch_res_r[k], self.patch_res_r[k]]
+                [k, patch, self.patch_res_r[k], self.patch_res_s[k]]
                 for k, patch in self.patches.items()
             ]
 
-- 
2.43.0


From 1103e194c4e0a3163912ef7a11eeb8f8d2bf3723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 10/45] fix: keep the patch resolution when a component is
 reflected

---
 src/hypervehicle/components/component.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 7fd3573..ceda941 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -238,6 +238,11 @@ class Component(AbstractComponent):
             for key, patch in self.patches.items():
                 mirrored_patches[f"{key}_mirrored"] = MirroredPatch(patch, axis=axis)
 
+                # Mirrored patches keep the resolution of the original patch
+                if key in self.patch_res_r:
+                    self.patch_res_r[f"{key}_mirrored"] = self.patch_res_r[key]
+                    self.patch_res_s[f"{key}_mirrored"] = self.patch_res_s[key]
+
             # Now either add the reflected patches to the same component, or
             # replace the patches with their reflected versions
             if self._append_reflection:
-- 
2.43.0


From f0eb5a65d649b5be47745996a8a7e54cb5f90dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 11/45] fix: use the number of cells in the j direction for j
 clustering

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index ebfa8b0..757d09c 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -74,7 +74,7 @@ def surfce_to_stl(
         r_list = default_vertex_func(lb=0.0, ub=1.0, steps=ni + 1, spacing=si)
 
     if j_clustering_func:
-        s_list = [j_clustering_func(i) for i in np.linspace(0, 1, ni + 1)]
+        s_list = [j_clustering_func(i) for i in np.linspace(0, 1, nj + 1)]
     else:
         s_list = default_vertex_func(lb=0.0, ub=1.0, steps=nj + 1, spacing=sj)
 
-- 
2.43.0


From 6d9e50efc307ef7598a3068fb337b5a100e8769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 12/45] fix: honour the second discretisation point given for a
 wing

---
 src/hypervehicle/components/wing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index 498800d..9029269 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -163,7 +163,7 @@ class Wing(Component):
         if self.params["t_B2"] == None:
             self.t_B2 = 0.5 * (1 + self.t_B1)
         else:
-            self.t_B2 = self.params["t_B1"]
+            self.t_B2 = self.params["t_B2"]
 
         # Save other params
         self.TE_top = None
-- 
2.43.0


From 51c38045fa20845be0826b8b92399ba9e9df4d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 13/45] fix: shift component inertias with the parallel axis
 theorem

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 757d09c..44807c6 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -218,7 +218,7 @@ def assess_inertial_properties(
     for component in vehicle._named_components:
         m = masses[component]
         r = cgs[component] - composite_cog
-        I_adj = inertias[component] + m * r**2
+        I_adj = inertias[component] + m * (np.dot(r, r) * np.eye(3) - np.outer(r, r))
 
         shifted_inertias[component] = I_adj
         composite_inertia += I_adj
-- 
2.43.0


From 02cb1bd068df8cd027be9dae895b193291514622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 14/45] fix: only combine vertices that have a sensitivity for
 every parameter

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 44807c6..a09608c 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -610,7 +610,7 @@ class SensitivityStudy:
                 p_s = sensitivities[param][component][
                     [f"dxd{param}", f"dyd{param}", f"dzd{param}"]
                 ]
-                df = pd.concat([df, p_s], axis=1)
+                df = pd.concat([df, p_s], axis=1, join="inner")
 
             allsens[component] = df
 
-- 
2.43.0


From 487aabef2b027060bc13dafd87ff15d92accb3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 15/45] fix: ignore previous combined sensitivity files in any
 directory

The list of file names given by the caller is no longer modified.
---
 src/hypervehicle/utilities.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index a09608c..1cd1f69 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -698,11 +698,11 @@ def append_sensitivities_to_tri(
     points_df = pd.DataFrame(points_data_list, columns=["x", "y", "z"]).dropna()
 
     # Ensure previous components sensitivity file is not included
-    try:
-        del dp_filenames[dp_filenames.index(combined_sens_fn)]
-    except ValueError:
-        # It is not in there
-        pass
+    dp_filenames = [
+        f
+        for f in dp_filenames
+        if os.path.basename(f) != os.path.basename(combined_sens_fn)
+    ]
 
     # Load and concatenate sensitivity data across components
     dp_df = pd.DataFrame()
-- 
2.43.0


From f907d4c288cf667ff1f118d74a7e02a8fd9b1edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 16/45] fix: treat the X-43A flap angle as degrees, as
 documented

---
 src/hypervehicle/hangar/x43.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/hangar/x43.py b/src/hypervehicle/hangar/x43.py
index ce1c8bb..4de6cd6 100644
--- a/src/hypervehicle/hangar/x43.py
+++ b/src/hypervehicle/hangar/x43.py
@@ -185,7 +185,7 @@ class ParametricX43(Generator):
             top_tf=wing2_tf_top,
             bot_tf=wing2_tf_bot,
             flap_length=self.flap_length,
-            flap_angle=self.flap_angle,
+            flap_angle=np.deg2rad(self.flap_angle),
             LE_wf=leading_edge_width_function,
             close_wing=True,
         )
-- 
2.43.0


From a3764dc5f1c6ad73897b2d3e00cc2929048982f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 17/45] fix: merge the STL files that were written

---
 src/hypervehicle/vehicle.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index e143201..575bb33 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -334,6 +334,7 @@ class Vehicle:
                 print(f"{s}.")
 
         types_generated = {}
+        written_files = []
         for component in self.components:
             # Get component count
             no = types_generated.get(component.componenttype, 0)
@@ -355,6 +356,8 @@ class Vehicle:
                 print(f"  Writing: {stl_name}                 ", end="\r")
 
             component.to_stl(stl_name)
+            if not component._ghost:
+                written_files.append(stl_name)
 
             # Update component count
             types_generated[component.componenttype] = no + 1
@@ -410,13 +413,8 @@ class Vehicle:
                 if not prefix:
                     prefix = self.name
 
-                # Get component names (excluding ghost components)
-                filenames = []
-                for name, comp in self._named_components.items():
-                    if not comp._ghost:
-                        # Append
-                        filenames.append(f"{name}.stl")
-                utilities.merge_stls(stl_files=filenames, name=prefix)
+                # Merge the files written (excluding ghost components)
+                utilities.merge_stls(stl_files=written_files, name=prefix)
 
         if self.verbosity > 0:
             print("\rAll components written to STL file format.", end="\n")
-- 
2.43.0


From 4b832fdd86522516105c5a95b10f6f91044899d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 18/45] fix: start from a clean component when a vehicle is
 generated again

---
 src/hypervehicle/vehicle.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index 575bb33..75fd5ff 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -207,6 +207,11 @@ class Vehicle:
             if self.verbosity > 1:
                 print(f"  Generating patches for {component.componenttype} component.")
 
+            # Discard anything left from a previous generation
+            component.patches = {}
+            component.surfaces = None
+            component.mesh = None
+
             # Generate component patches
             component.generate_patches()
 
-- 
2.43.0


From 534bdccd5652c53aa4146c33f743d61058874793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 19/45] fix: update the analysis results when a vehicle is
 transformed

---
 src/hypervehicle/vehicle.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index 75fd5ff..1a0fb4a 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -232,6 +232,7 @@ class Vehicle:
 
         # Set generated boolean to True
         self._generated = True
+        self.analysis_results = None
 
         # Apply any vehicle transformations
         if self._vehicle_transformations:
@@ -239,10 +240,7 @@ class Vehicle:
 
         # Run analysis
         if self._analyse_on_generation:
-            analysis_results = self.analyse(self._analyse_on_generation)
-            self.analysis_results = dict(
-                zip(("volume", "mass", "cog", "moi"), analysis_results)
-            )
+            self._update_analysis_results()
 
         if self.verbosity > 0:
             print("All component patches generated.")
@@ -306,6 +304,17 @@ class Vehicle:
             component.surfaces = None
             component.mesh = None
 
+        # Update any results evaluated before the transformation
+        if self.analysis_results:
+            self._update_analysis_results()
+
+    def _update_analysis_results(self) -> None:
+        """Evaluate the results requested with analyse_after_generating."""
+        analysis_results = self.analyse(self._analyse_on_generation)
+        self.analysis_results = dict(
+            zip(("volume", "mass", "cog", "moi"), analysis_results)
+        )
+
     def to_stl(self, prefix: str = None, merge: Union[bool, List[str]] = False) -> None:
         """Writes the vehicle components to STL file. If analysis results are
         present, they will also be written to file, either as CSV, or using
-- 
2.43.0


From 0895b8433c954b4b36ee6928202ae13c9dd87de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 20/45] fix: apply the options given for the children of a
 composite component

---
 src/hypervehicle/components/composite.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hypervehicle/components/composite.py b/src/hypervehicle/components/composite.py
index 1b1b17f..d6c9297 100644
--- a/src/hypervehicle/components/composite.py
+++ b/src/hypervehicle/components/composite.py
@@ -121,8 +121,14 @@ class CompositeComponent(Component):
     def generate_patches(self):
         # Generate child patches
         for component in self.components:
+            component.patches = {}
             component.generate_patches()
 
+            # Apply the options of the child
+            component.curve()
+            component.reflect()
+            component.transform()
+
         # Merge patches
         merged = {}
         for ix, component in enumerate(self.components):
-- 
2.43.0


From 12f9a81de4afcce29abc607e86e6b2a974554f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 21/45] fix: orient all faces of cubes and spheres outwards

---
 src/hypervehicle/geometry/geometry.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index df59b96..ae195d4 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -809,18 +809,18 @@ class CubePatch(ParametricSurface):
             z = -1.0 + 2.0 * s
         elif self.face == "west":
             x = -1.0
-            y = -1.0 + 2.0 * r
+            y = 1.0 - 2.0 * r
             z = -1.0 + 2.0 * s
         elif self.face == "south":
             x = -1.0 + 2.0 * r
             y = -1.0
             z = -1.0 + 2.0 * s
         elif self.face == "north":
-            x = -1.0 + 2.0 * r
+            x = 1.0 - 2.0 * r
             y = 1.0
             z = -1.0 + 2.0 * s
         elif self.face == "bottom":
-            x = -1.0 + 2.0 * r
+            x = 1.0 - 2.0 * r
             y = -1.0 + 2.0 * s
             z = -1.0
         elif self.face == "top":
@@ -869,18 +869,18 @@ class SpherePatch(ParametricSurface):
             z = -1.0 + 2.0 * s
         elif self.face == "west":
             x = -1.0
-            y = -1.0 + 2.0 * r
+            y = 1.0 - 2.0 * r
             z = -1.0 + 2.0 * s
         elif self.face == "south":
             x = -1.0 + 2.0 * r
             y = -1.0
             z = -1.0 + 2.0 * s
         elif self.face == "north":
-            x = -1.0 + 2.0 * r
+            x = 1.0 - 2.0 * r
             y = 1.0
             z = -1.0 + 2.0 * s
         elif self.face == "bottom":
-            x = -1.0 + 2.0 * r
+            x = 1.0 - 2.0 * r
             y = -1.0 + 2.0 * s
             z = -1.0
         elif self.face == "top":
-- 
2.43.0


From d6b542cf19b1d2033b192d72f195f967c6ecee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 22/45] fix: print the half-length of a cube face

---
 src/hypervehicle/geometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index ae195d4..400f1e8 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -799,7 +799,7 @@ class CubePatch(ParametricSurface):
 
     def __repr__(self):
         return "Cube: a = {}, centre = {}".format(
-            self.r, self.centre
+            self.a, self.centre
         ) + "face = {}".format(self.face)
 
     def __call__(self, r, s):
-- 
2.43.0


From 9777194a7d15be1a23e6612d22876c99f5851b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 23/45] fix: print the corners of a patch

---
 src/hypervehicle/geometry/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/surface.py b/src/hypervehicle/geometry/surface.py
index 53ef201..d482ff5 100644
--- a/src/hypervehicle/geometry/surface.py
+++ b/src/hypervehicle/geometry/surface.py
@@ -90,7 +90,7 @@ class CoonsPatch(ParametricSurface):
     def __repr__(self):
         str = "CoonsPatch("
         if self.defined_by_corners:
-            str += f"p00={self.p00}, p10={self.p10}, p11={self.p10}, p01={self.p10}"
+            str += f"p00={self.p00}, p10={self.p10}, p11={self.p11}, p01={self.p01}"
         else:
             str += f"north={self.north}, east={self.east}, south={self.south}, west={self.west}"
         str += f", offset={self.offset})"
-- 
2.43.0


From 3a7a9d9872727fbf5a59bcc53664a59f9757bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 24/45] fix: allow the mesh check without the matching lines
 check

---
 src/hypervehicle/components/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index ceda941..b92441f 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -406,6 +406,9 @@ class Component(AbstractComponent):
                     ),
                 )
             }
+        else:
+            return pass_flag
+
         undirected_edges = {frozenset((edge[:3], edge[3:])) for edge in directed_edges}
         edge_check = len(directed_edges) == 3 * mesh.data.size
         print(f"        len(directed_edges) == 3 * mesh.data.size")
-- 
2.43.0


From 8961fbb70a5d7d919e9b766e6738c4f195de07fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:42 +0000
Subject: [PATCH 25/45] fix: join all vertices closer than the repair distance

Points were grouped per coordinate from the smallest value, so that close
points on both sides of a group limit were left apart.
---
 src/hypervehicle/components/component.py | 57 ++++++++----------------
 1 file changed, 18 insertions(+), 39 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index b92441f..93d00be 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -4,6 +4,9 @@ from stl import mesh
 from copy import deepcopy
 from abc import abstractmethod
 from collections import Counter
+from scipy.spatial import cKDTree
+from scipy.sparse import coo_matrix
+from scipy.sparse.csgraph import connected_components
 from multiprocess.pool import Pool
 from typing import Callable, Union, Optional
 from hypervehicle.geometry.vector import Vector3
@@ -463,45 +466,21 @@ class Component(AbstractComponent):
         N_faces = np.shape(mesh)[0]
         vectors = np.vstack((mesh.v0, mesh.v1, mesh.v2))
 
-        def find_groups(vector, small_distance):
-            """find indices for groups of points that within small_distance from one another."""
-            sort_i = np.argsort(vector)
-            groups = []
-            li = []
-            count = 0
-            for i in range(len(vector) - 1):
-                if count == 0:
-                    x0 = vector[sort_i[i]]
-                x1 = vector[sort_i[i + 1]]
-                if abs(x1 - x0) < small_distance:
-                    if count == 0:
-                        li.append(sort_i[i])
-                        li.append(sort_i[i + 1])
-                        count = 1
-                    else:
-                        li.append(sort_i[i + 1])
-                else:
-                    groups.append(li)
-                    li = []
-                    count = 0
-                if i == len(vector) - 2 and count > 0:
-                    groups.append(li)
-            return groups
-
-        iix = find_groups(vectors[:, 0], small_distance)
-        iiy = find_groups(vectors[:, 1], small_distance)
-        iiz = find_groups(vectors[:, 2], small_distance)
-
-        # find intersecting sets and take average
-        for ix in iix:
-            for iy in iiy:
-                common0 = set(ix) & set(iy)
-                if len(common0) == 0:
-                    continue  # jumpt to next loop iteration if only one entry
-                for iz in iiz:
-                    common = list(common0 & set(iz))
-                    if common:
-                        vectors[common] = np.mean(vectors[common], axis=0)
+        # Find groups of points that are within small_distance from one another
+        pairs = cKDTree(vectors).query_pairs(
+            small_distance, p=np.inf, output_type="ndarray"
+        )
+        graph = coo_matrix(
+            (np.ones(len(pairs)), (pairs[:, 0], pairs[:, 1])),
+            shape=(len(vectors), len(vectors)),
+        )
+        n_groups, group = connected_components(graph, directed=False)
+
+        # Move the points of each group to their average
+        mean = np.zeros((n_groups, 3))
+        np.add.at(mean, group, vectors)
+        mean /= np.bincount(group, minlength=n_groups)[:, np.newaxis]
+        vectors = mean[group]
         mesh.v0 = vectors[0:N_faces, :]
         mesh.v1 = vectors[N_faces : 2 * N_faces, :]
         mesh.v2 = vectors[2 * N_faces : 3 * N_faces, :]
-- 
2.43.0


From 903ed7c811721b92931c66a2b3385a474607f204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:25 +0000
Subject: [PATCH 26/45] fix: discard the mesh when the surfaces of a component
 are generated again

---
 src/hypervehicle/components/component.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 93d00be..ff029e8 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -296,6 +296,7 @@ class Component(AbstractComponent):
             return (key, surface)
 
         self.surfaces = {}
+        self._mesh = None
         if self._multiprocess is True:
             # Initialise surfaces and pool
             pool = Pool()
-- 
2.43.0


From bf3e34b1a8bdafe114d91855b476d1c5bb488a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:12 +0000
Subject: [PATCH 27/45] fix: discard the mesh of a component when its patches
 are changed

---
 src/hypervehicle/components/component.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index ff029e8..6784a0a 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -174,7 +174,13 @@ class Component(AbstractComponent):
             setattr(result, k, deepcopy(v, memo))
         return result
 
+    def _discard_surfaces(self):
+        """Discards surfaces and meshes made from superseded patches."""
+        self.surfaces = None
+        self._mesh = None
+
     def curve(self):
+        self._discard_surfaces()
         if self._curvatures is not None:
             for curvature in self._curvatures:
                 for key, patch in self.patches.items():
@@ -209,6 +215,7 @@ class Component(AbstractComponent):
         self._mesh = value
 
     def rotate(self, angle: float = 0, axis: str = "y"):
+        self._discard_surfaces()
         for key, patch in self.patches.items():
             self.patches[key] = RotatedPatch(patch, np.deg2rad(angle), axis=axis)
 
@@ -220,6 +227,7 @@ class Component(AbstractComponent):
             offset_function = offset
 
         # Could wrap it in a lambda if provided
+        self._discard_surfaces()
         for key, patch in self.patches.items():
             self.patches[key] = OffsetPatchFunction(patch, offset_function)
 
@@ -229,12 +237,14 @@ class Component(AbstractComponent):
             func(*transform[1:])
 
     def apply_modifier(self):
+        self._discard_surfaces()
         if self._modifier_function:
             for key, patch in self.patches.items():
                 self.patches[key] = OffsetPatchFunction(patch, self._modifier_function)
 
     def reflect(self, axis: str = None):
         axis = self._reflection_axis if self._reflection_axis is not None else axis
+        self._discard_surfaces()
         if axis is not None:
             # Create mirrored patches
             mirrored_patches = {}
@@ -364,6 +374,7 @@ class Component(AbstractComponent):
         j_clustering_func : Callable, optional
             The clustering function in the j direction. The default is None.
         """
+        self._discard_surfaces()
         if i_clustering_func:
             self._clustering.update({"i_clustering_func": i_clustering_func})
 
-- 
2.43.0


From 6bd1875f466fc025b27414a8ef55b0ff169814f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:03 +0000
Subject: [PATCH 28/45] fix: keep all patches when a component is reflected
 more than once

---
 src/hypervehicle/components/component.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 6784a0a..dafd6c6 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -249,12 +249,16 @@ class Component(AbstractComponent):
             # Create mirrored patches
             mirrored_patches = {}
             for key, patch in self.patches.items():
-                mirrored_patches[f"{key}_mirrored"] = MirroredPatch(patch, axis=axis)
+                # Keep patches mirrored by a previous reflection
+                mirrored_key = f"{key}_mirrored"
+                while mirrored_key in self.patches or mirrored_key in mirrored_patches:
+                    mirrored_key += "_mirrored"
+                mirrored_patches[mirrored_key] = MirroredPatch(patch, axis=axis)
 
                 # Mirrored patches keep the resolution of the original patch
                 if key in self.patch_res_r:
-                    self.patch_res_r[f"{key}_mirrored"] = self.patch_res_r[key]
-                    self.patch_res_s[f"{key}_mirrored"] = self.patch_res_s[key]
+                    self.patch_res_r[mirrored_key] = self.patch_res_r[key]
+                    self.patch_res_s[mirrored_key] = self.patch_res_s[key]
 
             # Now either add the reflected patches to the same component, or
             # replace the patches with their reflected versions
-- 
2.43.0


From ec609b416fb308e74c9abcfc8074ae7eb969d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:03 +0000
Subject: [PATCH 29/45] fix: reflect a component about the axis asked for

---
 src/hypervehicle/components/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index dafd6c6..65e1e7d 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -243,7 +243,7 @@ class Component(AbstractComponent):
                 self.patches[key] = OffsetPatchFunction(patch, self._modifier_function)
 
     def reflect(self, axis: str = None):
-        axis = self._reflection_axis if self._reflection_axis is not None else axis
+        axis = axis if axis is not None else self._reflection_axis
         self._discard_surfaces()
         if axis is not None:
             # Create mirrored patches
-- 
2.43.0


From 7ca01b7c533063326e01dc8f00d7404bc746a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:16 +0000
Subject: [PATCH 30/45] fix: evaluate the area of a component with current
 numpy versions

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 1cd1f69..163e66b 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -192,7 +192,7 @@ def assess_inertial_properties(
         )
 
         # Also calculate surface area
-        area = float(sum(component.mesh.areas))
+        area = float(np.sum(component.mesh.areas))
 
         # Save component result
         volumes[name] = volume
-- 
2.43.0


From a4d3795a52a2851530baa948c37161f6845ecc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:51 +0000
Subject: [PATCH 31/45] fix: create circular patches at the height of their
 centre

---
 src/hypervehicle/components/common.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/hypervehicle/components/common.py b/src/hypervehicle/components/common.py
index 7ed5bd9..f626071 100644
--- a/src/hypervehicle/components/common.py
+++ b/src/hypervehicle/components/common.py
@@ -29,12 +29,11 @@ def uniform_thickness_function(thickness: float, side: str):
 def circle_patch(centre: Vector3, r: float, plane: str = "xy") -> CoonsPatch:
     """Returns a parametric surface of a circle."""
     # TODO - planes other than xy
-    tr = Vector3(x=centre.x + r * np.cos(np.pi / 4), y=centre.y + r * np.sin(np.pi / 4))
-    tl = Vector3(x=centre.x - r * np.cos(np.pi / 4), y=centre.y + r * np.sin(np.pi / 4))
-    br = Vector3(x=centre.x + r * np.cos(np.pi / 4), y=centre.y - r * np.sin(np.pi / 4))
-    bl = Vector3(
-        x=centre.x - r * np.cos(np.pi / 4), y=centre.y + -r * np.sin(np.pi / 4)
-    )
+    d = r * np.cos(np.pi / 4)
+    tr = Vector3(x=centre.x + d, y=centre.y + d, z=centre.z)
+    tl = Vector3(x=centre.x - d, y=centre.y + d, z=centre.z)
+    br = Vector3(x=centre.x + d, y=centre.y - d, z=centre.z)
+    bl = Vector3(x=centre.x - d, y=centre.y - d, z=centre.z)
 
     n = Arc(a=tl, b=tr, c=centre)
     e = Arc(a=br, b=tr, c=centre)
-- 
2.43.0


From dd8241546ae74d3f400914e629c3da718574e8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:52 +0000
Subject: [PATCH 32/45] fix: evaluate swept patches at their last cross section
 whatever the rounding

---
 src/hypervehicle/geometry/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 400f1e8..83d55cc 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -653,6 +653,9 @@ class SweptPatch(ParametricSurface):
         # Calculate physical axial distance
         dist = self.min_origin + r * self.origin_dist
 
+        # Rounding must not carry it past the last cross section
+        dist = min(dist, max(self.section_origins))
+
         # Find index of bounding cross sections
         for i, lv in enumerate(self.section_origins):
             if dist == self.section_origins[-1]:
-- 
2.43.0


From ce8c5af71aa0a03e38281ad20c619882161a708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:40 +0000
Subject: [PATCH 33/45] fix: keep the length of a rudder when it is deflected

---
 src/hypervehicle/components/fin.py    | 11 ++++++++---
 src/hypervehicle/geometry/geometry.py |  8 ++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/hypervehicle/components/fin.py b/src/hypervehicle/components/fin.py
index 1a3d573..4f1fdb2 100644
--- a/src/hypervehicle/components/fin.py
+++ b/src/hypervehicle/components/fin.py
@@ -363,7 +363,9 @@ class Fin(Component):
             south = Line(
                 p0=Vector3(x=p1.x, y=p1.y, z=thickness_top),
                 p1=Vector3(
-                    x=p1.x - self.params["rudder_length"],
+                    x=p1.x
+                    - self.params["rudder_length"]
+                    * np.cos(self.params["rudder_angle"]),
                     y=p1.y,
                     z=self.params["rudder_length"]
                     * np.sin(self.params["rudder_angle"]),
@@ -371,7 +373,9 @@ class Fin(Component):
             )
             east = Line(
                 p0=Vector3(
-                    x=p1.x - self.params["rudder_length"],
+                    x=p1.x
+                    - self.params["rudder_length"]
+                    * np.cos(self.params["rudder_angle"]),
                     y=p1.y,
                     z=self.params["rudder_length"]
                     * np.sin(self.params["rudder_angle"]),
@@ -387,7 +391,8 @@ class Fin(Component):
             p0_top = p0 - Vector3(0, 0, fin_thickness / 2)
             p0_bot = p0 + Vector3(0, 0, fin_thickness / 2)
             TE = Vector3(
-                x=p0.x - self.params["rudder_length"],
+                x=p0.x
+                - self.params["rudder_length"] * np.cos(self.params["rudder_angle"]),
                 y=p0.y,
                 z=self.params["rudder_length"] * np.sin(self.params["rudder_angle"]),
             )
diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 83d55cc..b661838 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -376,12 +376,12 @@ class TrailingEdgePatch(ParametricSurface):
             north = self.TE_path
             south = Line(
                 p0=Vector3(
-                    x=self.A0.x - self.flap_length,
+                    x=self.A0.x - self.flap_length * np.cos(self.flap_angle),
                     y=self.A0.y,
                     z=0.0 + self.flap_length * np.sin(self.flap_angle),
                 ),
                 p1=Vector3(
-                    x=self.B0.x - self.flap_length,
+                    x=self.B0.x - self.flap_length * np.cos(self.flap_angle),
                     y=self.B0.y,
                     z=0.0 + self.flap_length * np.sin(self.flap_angle),
                 ),
@@ -392,12 +392,12 @@ class TrailingEdgePatch(ParametricSurface):
             south = self.TE_path
             north = Line(
                 p0=Vector3(
-                    x=self.A0.x - self.flap_length,
+                    x=self.A0.x - self.flap_length * np.cos(self.flap_angle),
                     y=self.A0.y,
                     z=0.0 + self.flap_length * np.sin(self.flap_angle),
                 ),
                 p1=Vector3(
-                    x=self.B0.x - self.flap_length,
+                    x=self.B0.x - self.flap_length * np.cos(self.flap_angle),
                     y=self.B0.y,
                     z=0.0 + self.flap_length * np.sin(self.flap_angle),
                 ),
-- 
2.43.0


From 5c51ab06b162a29944033b7dcda7ae99890b5951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:05 +0000
Subject: [PATCH 34/45] fix: append sensitivities to a surface file with
 current pandas versions

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 163e66b..64bc062 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -734,7 +734,7 @@ def append_sensitivities_to_tri(
         match = match_x & match_y & match_z
         try:
             # TODO - what if there are multiple matches? (due to intersect perturbations)
-            matched_data = dp_df[match].iloc[0][param_cols].values
+            matched_data = dp_df[match].iloc[0][param_cols].to_numpy(copy=True)
 
             # Round off infinitesimally small values
             matched_data[abs(matched_data) < rounding_tolerance] = 0
-- 
2.43.0


From 78e0d56654496be97e09e2dbef8bb23c3287ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:28 +0000
Subject: [PATCH 35/45] fix: do not share clustering options between the
 children of a composite

CompositeComponent.add_component stored the caller's dictionary on the
component. Adding clustering options to one component then changed the
dictionary, and with it every other component added with it. Copy the options
in, as Vehicle.add_component does.
---
 src/hypervehicle/components/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/composite.py b/src/hypervehicle/components/composite.py
index d6c9297..4681620 100644
--- a/src/hypervehicle/components/composite.py
+++ b/src/hypervehicle/components/composite.py
@@ -106,7 +106,7 @@ class CompositeComponent(Component):
 
             # Add component clustering
             if clustering is not None:
-                component._clustering = clustering
+                component.add_clustering_options(**clustering)
 
             # Add transformations
             if transformations is not None:
-- 
2.43.0


From 7ce515608b96ce5bc43ee79df36b2e3d75fd78f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:07:00 +0000
Subject: [PATCH 36/45] fix: keep no incomplete surfaces when meshing a
 component fails

---
 src/hypervehicle/components/component.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 65e1e7d..8b086bb 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -309,15 +309,14 @@ class Component(AbstractComponent):
             )
             return (key, surface)
 
-        self.surfaces = {}
-        self._mesh = None
+        surfaces = {}
         if self._multiprocess is True:
             # Initialise surfaces and pool
             pool = Pool()
 
             # Submit tasks
             for result in pool.starmap(wrapper, case_list):
-                self.surfaces[result[0]] = result[1]
+                surfaces[result[0]] = result[1]
 
         else:
             for case in case_list:
@@ -325,9 +324,13 @@ class Component(AbstractComponent):
                 pat = case[1]
                 print(f"START: Creating stl for '{k}'.")
                 result = wrapper(k, pat, case[2], case[3])
-                self.surfaces[result[0]] = result[1]
+                surfaces[result[0]] = result[1]
                 print(f"  DONE: Creating stl for '{k}'.")
 
+        # Only keep the surfaces once all of them are complete
+        self.surfaces = surfaces
+        self._mesh = None
+
     def to_vtk(self):
         raise NotImplementedError("This method has not been implemented yet.")
         # TODO - check for processed grids
-- 
2.43.0


From 4667bc24e10181a3b0d49c3e433870b503762ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:44 +0000
Subject: [PATCH 37/45] fix: do not treat a vehicle as generated when
 generating it fails

---
 src/hypervehicle/vehicle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index 1a0fb4a..0b586fc 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -203,6 +203,10 @@ class Vehicle:
             utilities.print_banner()
             print("Generating component patches.")
 
+        # The vehicle is not generated until all components are
+        self._generated = False
+        self.analysis_results = None
+
         for component in self.components:
             if self.verbosity > 1:
                 print(f"  Generating patches for {component.componenttype} component.")
@@ -232,7 +236,6 @@ class Vehicle:
 
         # Set generated boolean to True
         self._generated = True
-        self.analysis_results = None
 
         # Apply any vehicle transformations
         if self._vehicle_transformations:
-- 
2.43.0


From 24862dab8cf044c711cd155ffec732572dd3622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:44 +0000
Subject: [PATCH 38/45] fix: discard superseded analysis results when analysing
 again fails

---
 src/hypervehicle/vehicle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index 0b586fc..a8c0389 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -313,6 +313,8 @@ class Vehicle:
 
     def _update_analysis_results(self) -> None:
         """Evaluate the results requested with analyse_after_generating."""
+        # Keep no superseded results if the analysis fails
+        self.analysis_results = None
         analysis_results = self.analyse(self._analyse_on_generation)
         self.analysis_results = dict(
             zip(("volume", "mass", "cog", "moi"), analysis_results)
-- 
2.43.0


From ace38b444b2ec8d9a48cac6b44b6c61197200a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:19:35 +0000
Subject: [PATCH 39/45] fix: keep clustered parameter values within the ends of
 their interval

---
 src/hypervehicle/geometry/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index 275ef47..56fbd13 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -410,6 +410,8 @@ def clustered_roberts(eta: float, end1: bool, end2: bool, beta: float):
         etabar = roberts(eta, alpha, beta)
         if reverse:
             etabar = 1.0 - etabar
+        # Rounding must not carry it past the ends
+        etabar = np.clip(etabar, 0.0, 1.0)
     else:
         etabar = eta
     return etabar
-- 
2.43.0


From 94a3fbd31f64377a3a86c5820df891cae5f82e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:22 +0000
Subject: [PATCH 40/45] fix: keep the full parameter name when appending
 sensitivities

A parameter whose name contains "dxd" was written under a shortened name.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 64bc062..fdc994c 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -714,7 +714,7 @@ def append_sensitivities_to_tri(
     parameters = []
     param_cols = dp_df.columns[3:]
     for i in range(int(len(param_cols) / 3)):
-        parameters.append(param_cols[int(i * 3)].split("dxd")[-1])
+        parameters.append(param_cols[int(i * 3)][len("dxd") :])
 
     # Match points_df to sensitivity df
     if verbosity > 0:
-- 
2.43.0


From 5e9c95ac2b93209ea3887ae5a3d731917cd516ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:09:12 +0000
Subject: [PATCH 41/45] fix: accept rounding errors in the closure of large
 cross-sections

Sections of arcs several thousand units across, such as a vehicle in
millimetres, were rejected as open because the closure tolerance was a fixed
length.
---
 src/hypervehicle/components/swept.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hypervehicle/components/swept.py b/src/hypervehicle/components/swept.py
index 72dcfba..dd05d0b 100644
--- a/src/hypervehicle/components/swept.py
+++ b/src/hypervehicle/components/swept.py
@@ -58,10 +58,12 @@ class SweptComponent(Component):
                     ip = 0
                 p1 = cs[i](1)
                 p0 = cs[ip](0)
+                # rounding errors grow with the size of the coordinates
+                tolerance = small_number * max(1.0, abs(p0), abs(p1))
                 if (
-                    abs(p0.x - p1.x) > small_number
-                    or abs(p0.y - p1.y) > small_number
-                    or abs(p0.z - p1.z) > small_number
+                    abs(p0.x - p1.x) > tolerance
+                    or abs(p0.y - p1.y) > tolerance
+                    or abs(p0.z - p1.z) > tolerance
                 ):
                     raise Exception(
                         f"Swept Component {self.name}, Slice {ns}, edges not closed.\n"
-- 
2.43.0


From b315c11c41bc937862adab82fe8b6c92cf35a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:28:31 +0000
Subject: [PATCH 42/45] fix: default leading-edge width whatever the case of
 the type

The type of leading edge is compared regardless of case, but the default
width was only used for the lower-case spelling. A wing of type "CUSTOM"
without a width function failed when generated.
---
 src/hypervehicle/components/wing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index 9029269..f23eba5 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -116,7 +116,7 @@ class Wing(Component):
             The name tag for the component. The default is None.
         """
         # Check if a LE function was provided
-        if LE_wf is None and LE_type == "custom":
+        if LE_wf is None and LE_type.upper() == "CUSTOM":
             # Assign default LE function
             from hypervehicle.components.common import leading_edge_width_function
 
-- 
2.43.0


From 594833f5b6b000706f01eab5aec0766af76ccce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:46:54 +0000
Subject: [PATCH 43/45] fix: write analysis results for a prefix with a
 directory

A prefix such as out/vehicle wrote the STL files to that directory but then
failed on the analysis results and user properties, because the directory was
repeated in their file names.
---
 src/hypervehicle/vehicle.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index a8c0389..daa0464 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -391,17 +391,22 @@ class Vehicle:
             if not os.path.exists(properties_dir):
                 os.mkdir(properties_dir)
 
+            # The prefix may include the path to another directory
+            fn_prefix = os.path.basename(prefix)
+
             # Write volume and mass to file
-            self._volmass.to_csv(os.path.join(properties_dir, f"{prefix}_volmass.csv"))
+            self._volmass.to_csv(
+                os.path.join(properties_dir, f"{fn_prefix}_volmass.csv")
+            )
 
             # Write c.o.g. to file
             self.analysis_results["cog"].tofile(
-                os.path.join(properties_dir, f"{prefix}_cog.txt"), sep=", "
+                os.path.join(properties_dir, f"{fn_prefix}_cog.txt"), sep=", "
             )
 
             # Write M.O.I. to file
             self.analysis_results["moi"].tofile(
-                os.path.join(properties_dir, f"{prefix}_moi.txt"), sep=", "
+                os.path.join(properties_dir, f"{fn_prefix}_moi.txt"), sep=", "
             )
 
         # Write user-defined vehicle properties
@@ -416,7 +421,9 @@ class Vehicle:
 
             # Write properties to file
             pd.Series(self.properties).to_csv(
-                os.path.join(properties_dir, f"{prefix}_properties.csv")
+                os.path.join(
+                    properties_dir, f"{os.path.basename(prefix)}_properties.csv"
+                )
             )
 
         # Merge STL components
-- 
2.43.0


From 30ffeb627c7717d0017048c1e8eeb64c9b8fbb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:36:01 +0000
Subject: [PATCH 44/45] fix: evaluate polyline segments only within their own
 interval

---
 src/hypervehicle/geometry/path.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index 56fbd13..f531315 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -132,7 +132,9 @@ class Polyline(Path):
                 isokay = t > tl
             else:
                 isokay = np.logical_and(t > tl, t <= tu)
-            f += self.segments[i](t_local) * isokay
+            if np.any(isokay):
+                # Segments are only defined within their own interval
+                f += self.segments[i](t_local) * isokay
         return f
 
     def length(self):
-- 
2.43.0


From 59876ecd3f21acd6404b649ae227a2bf0e326fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:36:01 +0000
Subject: [PATCH 45/45] fix: leave the points returned by the first segment of
 a polyline unchanged

---
 src/hypervehicle/geometry/path.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index f531315..3777b38 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -121,8 +121,7 @@ class Polyline(Path):
         if n == 1:
             return self.segments[0](t)
 
-        f = self.segments[0](t)
-        f *= 0.0
+        f = self.segments[0](t) * 0.0
 
         for i, tl, tu in zip(range(n), self.t_values[:-1], self.t_values[1:]):
             t_local = (t - tl) / (tu - tl)
-- 
2.43.0

