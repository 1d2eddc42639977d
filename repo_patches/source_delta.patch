From 6e54a65bdad29ed73893698e05159fddd35abb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 001/137] fix: Meshes in-place vertex edits no longer write
 into shared padded storage

offset_verts_ and scale_verts_ wrote into the cached padded tensor, whose
storage may belong to the user or to another Meshes object.
---
 pytorch3d/structures/meshes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 85a1fee..1753051 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -1324,6 +1324,8 @@ class Meshes:
 
         # update verts padded
         if self._verts_padded is not None:
+            # the padded storage may be shared with other objects
+            self._verts_padded = self._verts_padded.clone()
             for i, verts in enumerate(new_verts_list):
                 if len(verts) > 0:
                     self._verts_padded[i, : verts.shape[0], :] = verts
@@ -1378,6 +1380,8 @@ class Meshes:
             self._verts_packed = torch.cat(new_verts_list, dim=0)
         # update padded
         if self._verts_padded is not None:
+            # the padded storage may be shared with other objects
+            self._verts_padded = self._verts_padded.clone()
             for i, verts in enumerate(self._verts_list):
                 if len(verts) > 0:
                     self._verts_padded[i, : verts.shape[0], :] = verts
-- 
2.43.0


From 7be8695d42b2245c26c2cd5d9197f20d82b08fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 002/137] fix: Pointclouds in-place edits no longer write into
 shared padded storage

offset_ and scale_ wrote into the cached padded tensor, whose storage may
belong to the user or to another Pointclouds object.
---
 pytorch3d/structures/pointclouds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 53ed5a5..d6055e4 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -903,6 +903,8 @@ class Pointclouds:
         # cannot be None even if not provided during construction.
         self._points_list = new_points_list
         if self._points_padded is not None:
+            # the padded storage may be shared with other objects
+            self._points_padded = self._points_padded.clone()
             for i, points in enumerate(new_points_list):
                 if len(points) > 0:
                     self._points_padded[i, : points.shape[0], :] = points
@@ -992,6 +994,8 @@ class Pointclouds:
         if self._points_packed is not None:
             self._points_packed = torch.cat(new_points_list, dim=0)
         if self._points_padded is not None:
+            # the padded storage may be shared with other objects
+            self._points_padded = self._points_padded.clone()
             for i, points in enumerate(new_points_list):
                 if len(points) > 0:
                     self._points_padded[i, : points.shape[0], :] = points
-- 
2.43.0


From 8349d4aa87be4c0f3675737414728524f8fe2e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 003/137] fix: Pointclouds.update_padded keeps normals/features
 that were only held as lists

normals_padded()/features_padded() of the result were None when the source
had not computed its padded representation yet.
---
 pytorch3d/structures/pointclouds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index d6055e4..b053cc9 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -1166,14 +1166,15 @@ class Pointclouds:
         if new_normals_padded is None:
             # If no normals are provided, keep old ones (shallow copy)
             new._normals_list = self._normals_list
-            new._normals_padded = self._normals_padded
+            new._normals_padded = self.normals_padded()
             new._normals_packed = self._normals_packed
 
         # copy features
         if new_features_padded is None:
             # If no features are provided, keep old ones (shallow copy)
             new._features_list = self._features_list
-            new._features_padded = self._features_padded
+            new._features_padded = self.features_padded()
+            new._C = self._C
             new._features_packed = self._features_packed
 
         # copy auxiliary tensors
-- 
2.43.0


From c56420dff23e8d0340ba9e03455667d9c72e5293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 004/137] fix: TexturesUV with several maps per mesh uses the
 right map

Sampling gathered padded map ids with packed face indices, so faces of a
heterogeneous batch read other faces' maps; the depth coordinate was only a
map centre for M > 1 with align_corners=True (M == 1 gave NaN); and
maps_ids_list() of padded ids kept the padding faces.
---
 pytorch3d/renderer/mesh/textures.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index df81c7c..282d7de 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -1145,11 +1145,26 @@ class TexturesUV(TexturesBase):
             # pyrefly: ignore [bad-return]
             return self._maps_ids_list
         elif self._maps_ids_padded is not None:
-            # pyrefly: ignore [bad-return]
-            return self._maps_ids_padded.unbind(0)
+            return [
+                maps_ids[:num_faces]
+                for maps_ids, num_faces in zip(
+                    # pyrefly: ignore [bad-argument-type]
+                    self._maps_ids_padded,
+                    self._num_faces_per_mesh,
+                )
+            ]
         else:
             return None
 
+    def _maps_ids_to_grid(self, maps_ids: torch.Tensor, M: int) -> torch.Tensor:
+        """
+        Location, in the normalized coordinates of grid_sample, of the centers
+        of the given maps along an axis with M maps.
+        """
+        if self.align_corners:
+            return 2.0 * maps_ids.float() / float(max(M - 1, 1)) - 1.0
+        return (2.0 * maps_ids.float() + 1.0) / float(M) - 1.0
+
     # Currently only the padded maps are used.
     def maps_padded(self) -> torch.Tensor:
         return self._maps_padded
@@ -1281,15 +1296,17 @@ class TexturesUV(TexturesBase):
             pix_to_face = fragments.pix_to_face.clone()
             pix_to_face[mask] = 0
 
+            # pix_to_face indexes the packed faces, so the ids must be packed too.
+            # pyrefly: ignore [no-matching-overload]
+            maps_ids_packed = torch.cat(self.maps_ids_list(), dim=0)
             pixel_to_map_ids = (
-                maps_ids_padded.flatten()
-                .gather(0, pix_to_face.flatten())
+                maps_ids_packed.gather(0, pix_to_face.flatten())
                 .view(N, H_out, W_out, K, 1)
                 .permute(0, 3, 1, 2, 4)
             )  # N x H_out x W_out x K x 1
 
             # Normalize between -1 and 1 with M (number of maps)
-            pixel_to_map_ids = (2.0 * pixel_to_map_ids.float() / float(M - 1)) - 1
+            pixel_to_map_ids = self._maps_ids_to_grid(pixel_to_map_ids, M)
             pixel_uvs = pixel_uvs.permute(0, 3, 1, 2, 4)
             pixel_uvs = torch.lerp(
                 pixel_uvs.new_tensor([-1.0, 1.0]),
@@ -1351,7 +1368,7 @@ class TexturesUV(TexturesBase):
             texture_maps = texture_maps.permute(0, 4, 1, 2, 3)
             # expand maps_ids to (N, F, 3, 1)
             maps_ids_padded = maps_ids_padded[:, :, None, None].expand(-1, -1, 3, -1)
-            maps_ids_padded = (2.0 * maps_ids_padded.float() / float(M - 1)) - 1.0
+            maps_ids_padded = self._maps_ids_to_grid(maps_ids_padded, M)
 
             # (N, F, 3, 2+1) -> (N, 1, F, 3, 3)
             faces_verts_uvs = torch.cat(
-- 
2.43.0


From 72f906f2368c31bede3738a361b22e8533b3a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 005/137] fix: TexturesUV.join_scene no longer divides by zero
 for one-texel maps

---
 pytorch3d/renderer/mesh/textures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index 282d7de..319008e 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -1595,9 +1595,9 @@ class TexturesUV(TexturesBase):
             # That is why the 1's and 0's are mismatched in these lines.
             one_if_align = 1 if self.align_corners else 0
             one_if_not_align = 1 - one_if_align
-            denom_x = merging_plan.total_size[0] - one_if_align
+            denom_x = max(merging_plan.total_size[0] - one_if_align, 1)
             scale_x = x_shape - one_if_align
-            denom_y = merging_plan.total_size[1] - one_if_align
+            denom_y = max(merging_plan.total_size[1] - one_if_align, 1)
             scale_y = y_shape - one_if_align
             new_uvs[:, 1] *= scale_x / denom_x
             new_uvs[:, 1] += (
-- 
2.43.0


From 972aacc2bddd13800baa85e8f9a33b65c4381fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 006/137] fix: indexing Volumes keeps align_corners

---
 pytorch3d/structures/volumes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 84edf33..2ce815f 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -297,6 +297,7 @@ class Volumes:
             # pyre-fixme[16]: `Optional` has no attribute `__getitem__`.
             features=self.features()[index] if self._features is not None else None,
             densities=self.densities()[index],
+            align_corners=self.get_align_corners(),
         )
         # dont forget to update grid_sizes!
         self.locator._copy_transform_and_sizes(new.locator, index=index)
-- 
2.43.0


From 43f5391418c47b495da8cecd7d0fc41bc932b4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 007/137] fix: Volumes.update_padded accepts heterogeneous
 batches

The padded tensors were required to match the individual grid sizes, so
every heterogeneous batch was rejected.
---
 pytorch3d/structures/volumes.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 2ce815f..2adfbb6 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -387,11 +387,11 @@ class Volumes:
             Volumes with updated features and densities
         """
         new = copy.copy(self)
-        new._set_densities(new_densities)
+        new._set_densities_features("densities", new_densities, is_padded=True)
         if new_features is None:
             new._features = None
         else:
-            new._set_features(new_features)
+            new._set_densities_features("features", new_features, is_padded=True)
         return new
 
     def _set_features(self, features: _TensorBatch) -> None:
@@ -400,7 +400,9 @@ class Volumes:
     def _set_densities(self, densities: _TensorBatch) -> None:
         self._set_densities_features("densities", densities)
 
-    def _set_densities_features(self, var_name: str, x: _TensorBatch) -> None:
+    def _set_densities_features(
+        self, var_name: str, x: _TensorBatch, is_padded: bool = False
+    ) -> None:
         x_tensor, grid_sizes = self._convert_densities_features_to_tensor(x, var_name)
         if x_tensor.device != self.device:
             raise ValueError(
@@ -412,9 +414,17 @@ class Volumes:
                 f"(minibatch, {var_name}_dim, height, width, depth)"
             )
 
+        if is_padded:
+            # x covers the whole padded resolution, whatever the individual grid sizes
+            expected_sizes = torch.tensor(
+                self._densities.shape[2:], dtype=torch.long, device=self.device
+            ).expand(len(self), 3)
+        else:
+            expected_sizes = self.get_grid_sizes()
+
         if not (
-            (self.get_grid_sizes().shape == grid_sizes.shape)
-            and torch.allclose(self.get_grid_sizes(), grid_sizes)
+            (expected_sizes.shape == grid_sizes.shape)
+            and torch.allclose(expected_sizes, grid_sizes)
         ):
             raise ValueError(
                 f"The size of every grid in `{var_name}` has to match the size of"
-- 
2.43.0


From 1c6a684b5ba4ceeb28261790412a48dc09c27ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 008/137] fix: VolumeLocator coordinate grid of heterogeneous
 sizes with align_corners=False and of one-voxel axes

The grids of smaller volumes were rescaled with the align_corners=True
rule, and an axis of size 1 gave NaN.
---
 pytorch3d/structures/volumes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 2adfbb6..ba356db 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -861,10 +861,11 @@ class VolumeLocator:
         vol_coords_local = torch.stack((X, Y, Z), dim=3)[None].repeat(ba, 1, 1, 1, 1)
 
         # get grid sizes relative to the maximal volume size
+        one_if_align = 1 if self._align_corners else 0
         grid_sizes_relative = (
             torch.tensor([[de, he, wi]], device=grid_sizes.device, dtype=torch.float32)
-            - 1
-        ) / (grid_sizes - 1).float()
+            - one_if_align
+        ) / (grid_sizes - one_if_align).clamp(min=1).float()
 
         if (grid_sizes_relative != 1.0).any():
             # if any of the relative sizes != 1.0, adjust the grid
-- 
2.43.0


From e813809650ac13c9f628b2b91bfa6d1e35d7f725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 009/137] fix: trilinear point splatting just outside the first
 voxel centres

std::modf rounds towards zero, so a point between the locations -1 and 0
gave the first voxel a weight above one and its neighbour a negative one.
---
 .../points_to_volumes/points_to_volumes.cu    | 20 +++++++++++++------
 .../points_to_volumes_cpu.cpp                 | 20 +++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu b/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
index 43d4ed5..a458b93 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
@@ -24,6 +24,14 @@ using at::RestrictPtrTraits;
 
 // Explanation of the calculation is in the cpp file.
 
+// FloorModf splits value into *lower, the location just below it, and the
+// proportion, in [0,1), of the way from there to the next location. Unlike
+// std::modf this also holds between the locations -1 and 0.
+static __device__ float FloorModf(float value, float* lower) {
+  *lower = std::floor(value);
+  return value - *lower;
+}
+
 // EightDirections(t) runs t(a,b,c) for every combination of boolean a, b, c.
 template <class T>
 static __device__ void EightDirections(T&& t) {
@@ -99,11 +107,11 @@ __global__ void PointsToVolumesForwardKernel(
       increment_location(x, y, z, 1);
     } else {
       float x = 0, y = 0, z = 0;
-      float rx = std::modf(
+      float rx = FloorModf(
           (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-      float ry = std::modf(
+      float ry = FloorModf(
           (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-      float rz = std::modf(
+      float rz = FloorModf(
           (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
       auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
         float weight =
@@ -246,11 +254,11 @@ __global__ void PointsToVolumesBackwardKernel(
       increment_location(x, y, z, 1);
     } else {
       float x = 0, y = 0, z = 0;
-      float rx = std::modf(
+      float rx = FloorModf(
           (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-      float ry = std::modf(
+      float ry = FloorModf(
           (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-      float rz = std::modf(
+      float rz = FloorModf(
           (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
       auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
         float weight_x = (up_x ? rx : 1 - rx);
diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
index 1b9b5a0..b49eee8 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
@@ -31,6 +31,14 @@
 // This can be thought of as saying "location i" means the whole box from
 // (i-0.5) to (i+0.5)
 
+// FloorModf splits value into *lower, the location just below it, and the
+// proportion, in [0,1), of the way from there to the next location. Unlike
+// std::modf this also holds between the locations -1 and 0.
+static float FloorModf(float value, float* lower) {
+  *lower = std::floor(value);
+  return value - *lower;
+}
+
 // EightDirections(t) runs t(a,b,c) for every combination of boolean a, b, c.
 template <class T>
 static void EightDirections(T&& t) {
@@ -129,11 +137,11 @@ void PointsToVolumesForwardCpu(
         // rx==0 means weight all on the lower bound, x, rx=1-eps means most
         // weight on x+1. Ditto for ry and yz.
         float x = 0, y = 0, z = 0;
-        float rx = std::modf(
+        float rx = FloorModf(
             (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-        float ry = std::modf(
+        float ry = FloorModf(
             (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-        float rz = std::modf(
+        float rz = FloorModf(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
         // Define how to fractionally increment one of the 8 locations around
         // the point.
@@ -262,11 +270,11 @@ void PointsToVolumesBackwardCpu(
         increment_location(x, y, z, 1);
       } else {
         float x = 0, y = 0, z = 0;
-        float rx = std::modf(
+        float rx = FloorModf(
             (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-        float ry = std::modf(
+        float ry = FloorModf(
             (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-        float rz = std::modf(
+        float rz = FloorModf(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
         auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
           float weight_x = (up_x ? rx : 1 - rx);
-- 
2.43.0


From 51b10166ac6da6e5aa1c799fd680e1126f60f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 010/137] fix: adding points to volumes leaves the given
 volumes unchanged and accepts volume_features=None

---
 pytorch3d/ops/points_to_volumes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/points_to_volumes.py b/pytorch3d/ops/points_to_volumes.py
index d099cea..6ed5de8 100644
--- a/pytorch3d/ops/points_to_volumes.py
+++ b/pytorch3d/ops/points_to_volumes.py
@@ -407,11 +407,17 @@ def add_points_features_to_volume_densities_features(
     if mask is None:
         mask = points_3d.new_ones(1).expand(points_3d.shape[:2])
 
+    if volume_features is None:
+        volume_features = volume_densities.new_zeros(
+            (ba_volume, feature_dim, *volume_densities.shape[2:])
+        )
+
+    # _points_to_volumes works in place, the caller's volumes have to stay as they are
     volume_densities, volume_features = _points_to_volumes(
         points_3d,
         points_features,
-        volume_densities,
-        volume_features,
+        volume_densities.clone(),
+        volume_features.clone(),
         grid_sizes,
         1.0,  # point_weight
         mask,
-- 
2.43.0


From 81e0e880580f9c3cc01ca0e4847ffaa05a9bab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 011/137] fix: matrix_to_euler_angles at gimbal lock

The first and third angle were found independently, so rotations whose
outer axes coincide (even the identity, for XYX) came back as another
rotation.
---
 pytorch3d/transforms/rotation_conversions.py | 26 +++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pytorch3d/transforms/rotation_conversions.py b/pytorch3d/transforms/rotation_conversions.py
index eb1a42c..34b5669 100644
--- a/pytorch3d/transforms/rotation_conversions.py
+++ b/pytorch3d/transforms/rotation_conversions.py
@@ -295,16 +295,24 @@ def matrix_to_euler_angles(matrix: torch.Tensor, convention: str) -> torch.Tenso
     else:
         central_angle = torch.acos(torch.clamp(matrix[..., i0, i0], -1.0, 1.0))
 
-    o = (
-        _angle_from_tan(
-            convention[0], convention[1], matrix[..., i2], False, tait_bryan
-        ),
-        central_angle,
-        _angle_from_tan(
-            convention[2], convention[1], matrix[..., i0, :], True, tait_bryan
-        ),
+    first_angle = _angle_from_tan(
+        convention[0], convention[1], matrix[..., i2], False, tait_bryan
     )
-    return torch.stack(o, -1)
+
+    # The third angle is what is left after undoing the first one. It has to be
+    # found given the first one, because when the first and third rotations are
+    # about the same direction (gimbal lock) only their combination is determined.
+    i1 = _index_from_letter(convention[1])
+    k0, k2 = 3 - i0 - i1, 3 - i2 - i1
+    sign0 = 1.0 if (i1 - i0) % 3 == 1 else -1.0
+    sign2 = 1.0 if (i1 - i2) % 3 == 1 else -1.0
+    row = (
+        torch.cos(first_angle)[..., None] * matrix[..., i1, :]
+        + sign0 * torch.sin(first_angle)[..., None] * matrix[..., k0, :]
+    )
+    third_angle = torch.atan2(-sign2 * row[..., k2], row[..., i1])
+
+    return torch.stack((first_angle, central_angle, third_angle), -1)
 
 
 def random_quaternions(
-- 
2.43.0


From 689e7f0ec15b6561f6a52d880586eac235d13825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 012/137] fix: matrix_to_axis_angle(fast=True) for rotations by
 pi

The axis was read off the first row, which vanishes for axes orthogonal to
x, and normalized over the whole batch.
---
 pytorch3d/transforms/rotation_conversions.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/transforms/rotation_conversions.py b/pytorch3d/transforms/rotation_conversions.py
index 34b5669..3d021d1 100644
--- a/pytorch3d/transforms/rotation_conversions.py
+++ b/pytorch3d/transforms/rotation_conversions.py
@@ -554,12 +554,17 @@ def matrix_to_axis_angle(matrix: torch.Tensor, fast: bool = False) -> torch.Tens
         0.5 * omegas[~near_pi] / torch.sinc(angles[~near_pi] / torch.pi)
     )
 
-    # this derives from: nnT = (R + 1) / 2
-    n = 0.5 * (
-        matrix[near_pi][..., 0, :]
-        + torch.eye(1, 3, dtype=matrix.dtype, device=matrix.device)
+    # this derives from: nnT = (R + 1) / 2, any row of which is a multiple of n.
+    # The one with the largest diagonal element is never close to zero.
+    nnT = 0.5 * (
+        matrix[near_pi] + torch.eye(3, dtype=matrix.dtype, device=matrix.device)
+    )
+    largest = torch.diagonal(nnT, dim1=-2, dim2=-1).argmax(dim=-1)
+    n = torch.gather(nnT, -2, largest[..., None, None].expand(nnT.shape[:-2] + (1, 3)))
+    n = n.squeeze(-2)
+    axis_angles[near_pi] = (
+        angles[near_pi] * n / torch.norm(n, p=2, dim=-1, keepdim=True)
     )
-    axis_angles[near_pi] = angles[near_pi] * n / torch.norm(n)
 
     return axis_angles
 
-- 
2.43.0


From 259ab8149797a761af70fb1da7d5a16b300ec5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 013/137] fix: indexing transforms keeps their dtype and works
 for RotateAxisAngle

---
 pytorch3d/transforms/transform3d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/transforms/transform3d.py b/pytorch3d/transforms/transform3d.py
index 539cbea..892ee38 100644
--- a/pytorch3d/transforms/transform3d.py
+++ b/pytorch3d/transforms/transform3d.py
@@ -578,7 +578,7 @@ class Translate(Transform3d):
         """
         if isinstance(index, int):
             index = [index]
-        return self.__class__(self.get_matrix()[index, 3, :3])
+        return self.__class__(self.get_matrix()[index, 3, :3], dtype=self.dtype)
 
 
 class Scale(Transform3d):
@@ -645,7 +645,7 @@ class Scale(Transform3d):
         x = mat[:, 0, 0]
         y = mat[:, 1, 1]
         z = mat[:, 2, 2]
-        return self.__class__(x, y, z)
+        return self.__class__(x, y, z, dtype=self.dtype)
 
 
 class Rotate(Transform3d):
@@ -703,7 +703,8 @@ class Rotate(Transform3d):
         """
         if isinstance(index, int):
             index = [index]
-        return self.__class__(self.get_matrix()[index, :3, :3])
+        # not self.__class__: subclasses are not constructed from matrices
+        return Rotate(self.get_matrix()[index, :3, :3], dtype=self.dtype)
 
 
 class RotateAxisAngle(Rotate):
-- 
2.43.0


From 78cef0b80e4c63d8ca33ea7942936633ad0a711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 014/137] fix: FoV cameras' unproject_points with points shared
 by cameras and with overridden parameters

Points of shape (P, 3) failed for FoVOrthographicCameras, and got the depth
range of the wrong camera for a batch of P FoVPerspectiveCameras.
FoVPerspectiveCameras ignored projection parameters passed as keywords.
---
 pytorch3d/renderer/cameras.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 821353f..a1ad20e 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -724,9 +724,9 @@ class FoVPerspectiveCameras(CamerasBase):
 
         # obtain the relevant transformation to ndc
         if world_coordinates:
-            to_ndc_transform = self.get_full_projection_transform()
+            to_ndc_transform = self.get_full_projection_transform(**kwargs.copy())
         else:
-            to_ndc_transform = self.get_projection_transform()
+            to_ndc_transform = self.get_projection_transform(**kwargs.copy())
 
         if scaled_depth_input:
             # the input is scaled depth, so we don't have to do anything
@@ -734,6 +734,9 @@ class FoVPerspectiveCameras(CamerasBase):
         else:
             # parse out important values from the projection matrix
             K_matrix = self.get_projection_transform(**kwargs.copy()).get_matrix()
+            if xy_depth.dim() == 2 and K_matrix.shape[0] > 1:
+                # the same points for every camera: (P, 3) -> (1, P, 3)
+                xy_depth = xy_depth[None]
             # parse out f1, f2 from K_matrix
             unsqueeze_shape = [1] * xy_depth.dim()
             unsqueeze_shape[0] = K_matrix.shape[0]
@@ -742,7 +745,8 @@ class FoVPerspectiveCameras(CamerasBase):
             # get the scaled depth
             sdepth = (f1 * xy_depth[..., 2:3] + f2) / xy_depth[..., 2:3]
             # concatenate xy + scaled depth
-            xy_sdepth = torch.cat((xy_depth[..., 0:2], sdepth), dim=-1)
+            xy = xy_depth[..., 0:2].expand(*sdepth.shape[:-1], 2)
+            xy_sdepth = torch.cat((xy, sdepth), dim=-1)
 
         # unproject with inverse of the projection
         unprojection_transform = to_ndc_transform.inverse()
@@ -976,13 +980,17 @@ class FoVOrthographicCameras(CamerasBase):
         else:
             # we have to obtain the scaled depth first
             K = self.get_projection_transform(**kwargs).get_matrix()
-            unsqueeze_shape = [1] * K.dim()
+            if xy_depth.dim() == 2 and K.shape[0] > 1:
+                # the same points for every camera: (P, 3) -> (1, P, 3)
+                xy_depth = xy_depth[None]
+            unsqueeze_shape = [1] * xy_depth.dim()
             unsqueeze_shape[0] = K.shape[0]
             mid_z = K[:, 3, 2].reshape(unsqueeze_shape)
             scale_z = K[:, 2, 2].reshape(unsqueeze_shape)
             scaled_depth = scale_z * xy_depth[..., 2:3] + mid_z
             # cat xy and scaled depth
-            xy_sdepth = torch.cat((xy_depth[..., :2], scaled_depth), dim=-1)
+            xy = xy_depth[..., :2].expand(*scaled_depth.shape[:-1], 2)
+            xy_sdepth = torch.cat((xy, scaled_depth), dim=-1)
         # finally invert the transform
         unprojection_transform = to_ndc_transform.inverse()
         return unprojection_transform.transform_points(xy_sdepth)
-- 
2.43.0


From 8929555620d8e394b4e6db325c03d27554ac99c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 015/137] fix: overriding the focal length or image size of
 perspective and orthographic cameras

A focal_length keyword of shape (N, 1) failed, and unproject_points ignored
image_size and the principal point overrides when converting from NDC.
---
 pytorch3d/renderer/cameras.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index a1ad20e..e501088 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -1182,7 +1182,7 @@ class PerspectiveCameras(CamerasBase):
             to_camera_transform = self.get_projection_transform(**kwargs)
         if from_ndc:
             to_camera_transform = to_camera_transform.compose(
-                self.get_ndc_camera_transform()
+                self.get_ndc_camera_transform(**kwargs)
             )
 
         unprojection_transform = to_camera_transform.inverse()
@@ -1422,7 +1422,7 @@ class OrthographicCameras(CamerasBase):
             to_camera_transform = self.get_projection_transform(**kwargs)
         if from_ndc:
             to_camera_transform = to_camera_transform.compose(
-                self.get_ndc_camera_transform()
+                self.get_ndc_camera_transform(**kwargs)
             )
 
         unprojection_transform = to_camera_transform.inverse()
@@ -1537,8 +1537,10 @@ def _get_sfm_calibration_matrix(
     if not torch.is_tensor(focal_length):
         focal_length = torch.tensor(focal_length, device=device)
 
-    if focal_length.ndim in (0, 1) or focal_length.shape[1] == 1:
+    if focal_length.ndim in (0, 1):
         fx = fy = focal_length
+    elif focal_length.shape[1] == 1:
+        fx = fy = focal_length[:, 0]
     else:
         fx, fy = focal_length.unbind(1)
 
-- 
2.43.0


From 6f24d48f3e6839df0308e812ebee2c17e8cb5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 016/137] fix: look_at_rotation with an up vector along the
 viewing direction

The result had zero columns when up was exactly collinear with the viewing
direction and a column shorter than 1 when it was almost collinear.
---
 pytorch3d/renderer/cameras.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index e501088..4a3e7a5 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -1692,11 +1692,18 @@ def look_at_rotation(
             msg = "Expected arg %s to have shape (N, 3); got %r"
             raise ValueError(msg % (n, t.shape))
     z_axis = F.normalize(at - camera_position, eps=1e-5)
+    # If the up vector is along the viewing direction, it does not determine a
+    # rotation: use the coordinate axis which is closest to the image plane instead.
+    collinear = torch.cross(up, z_axis, dim=1).norm(
+        dim=1, keepdim=True
+    ) < 1e-9 * up.norm(dim=1, keepdim=True)
+    if collinear.any():
+        other_up = F.one_hot(z_axis.abs().argmin(dim=1), num_classes=3).to(up)
+        up = torch.where(collinear, other_up, up)
     x_axis = F.normalize(torch.cross(up, z_axis, dim=1), eps=1e-5)
     y_axis = F.normalize(torch.cross(z_axis, x_axis, dim=1), eps=1e-5)
-    is_close = torch.isclose(x_axis, torch.tensor(0.0), atol=5e-3).all(
-        dim=1, keepdim=True
-    )
+    # x_axis is shorter than a unit vector if up is almost along z_axis
+    is_close = x_axis.norm(dim=1, keepdim=True) < 0.999
     if is_close.any():
         replacement = F.normalize(torch.cross(y_axis, z_axis, dim=1), eps=1e-5)
         x_axis = torch.where(is_close, replacement, x_axis)
-- 
2.43.0


From c5e0687ff15ae03b626ff562a2b8ec93c19409ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 017/137] fix: indexing, joining and the batch size of
 FishEyeCameras

---
 pytorch3d/renderer/fisheyecameras.py | 37 +++++++++++++++++-----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index 551e94d..d83e639 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -62,11 +62,17 @@ class FishEyeCameras(CamerasBase):
         "world_coordinates",
         "use_radial",
         "use_tangential",
-        "use_tin_prism",
-        "device",
+        "use_thin_prism",
         "image_size",
     )
 
+    _SHARED_FIELDS = (
+        "world_coordinates",
+        "use_radial",
+        "use_tangential",
+        "use_thin_prism",
+    )
+
     def __init__(
         self,
         focal_length=_focal_length,
@@ -112,8 +118,14 @@ class FishEyeCameras(CamerasBase):
         """
 
         kwargs = {"image_size": image_size} if image_size is not None else {}
+        # The initializer broadcasts all the parameters to the same batch dimension.
         super().__init__(
             device=device,
+            focal=focal_length,
+            principal_point=principal_point,
+            radial_params=radial_params,
+            tangential_params=tangential_params,
+            thin_prism_params=thin_prism_params,
             R=R,
             T=T,
             **kwargs,  # pyre-ignore
@@ -124,25 +136,22 @@ class FishEyeCameras(CamerasBase):
         else:
             self.image_size = None
 
-        # pyrefly: ignore [bad-assignment]
-        self.device = device
-        self.focal = focal_length.to(self.device)
-        self.principal_point = principal_point.to(self.device)
-        self.radial_params = radial_params.to(self.device)
-        self.tangential_params = tangential_params.to(self.device)
-        self.thin_prism_params = thin_prism_params.to(self.device)
-        self.R = R
-        self.T = T
         self.world_coordinates = world_coordinates
         self.use_radial = use_radial
         self.use_tangential = use_tangential
         self.use_thin_prism = use_thin_prism
         self.epsilon = 1e-10
         self.num_distortion_iters = 50
+        self.num_radial = self.radial_params.shape[-1]
+
+    @property
+    def focal_length(self) -> torch.Tensor:
+        # the name of the argument of the initializer, as used in _FIELDS
+        return self.focal
 
-        self.R = self.R.to(self.device)
-        self.T = self.T.to(self.device)
-        self.num_radial = radial_params.shape[-1]
+    @focal_length.setter
+    def focal_length(self, focal_length: torch.Tensor) -> None:
+        self.focal = focal_length
 
     def _project_points_batch(
         self,
-- 
2.43.0


From da152fa27e1652fd8aab5cffcc71710d85e319dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 018/137] fix: FishEyeCameras with several cameras in world
 coordinates, with one point, and unprojecting points of each camera

---
 pytorch3d/renderer/fisheyecameras.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index d83e639..c59485c 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -290,7 +290,9 @@ class FishEyeCameras(CamerasBase):
 
         # project from camera space to image space
         N = len(self.radial_params)
-        if not self.check_input(points, N):
+        # several cameras: the points are in the camera space of each of them
+        per_camera = self.world_coordinates and N > 1 and len(points) == N
+        if not per_camera and not self.check_input(points, N):
             msg = (
                 "Expected points of (P, 3) with batch_size 1 or N, or shape (M, P, 3) \
             with batch_size 1; got points of shape %r and batch_size %r"
@@ -316,11 +318,11 @@ class FishEyeCameras(CamerasBase):
                         self.radial_params[i],
                         self.tangential_params[i],
                         self.thin_prism_params[i],
-                        points,
+                        points[i] if per_camera else points.reshape(-1, 3),
                     )
                 )
             outputs = torch.stack(outputs, dim=0)
-        return outputs.squeeze()
+        return outputs
 
     def _unproject_points_batch(
         self,
@@ -401,6 +403,11 @@ class FishEyeCameras(CamerasBase):
                 xy_depth[..., 0:2],
             )
         else:
+            # the same points for all the cameras, or one set of points per camera
+            xy = xy_depth[..., 0:2] if xy_depth.ndim == 3 else xy_depth[None, :, 0:2]
+            if len(xy) not in (1, N):
+                msg = "Expected xy_depth of shape (P, 3), (1, P, 3) or (%d, P, 3); got %r"
+                raise ValueError(msg % (N, xy_depth.shape))
             outputs = []
             for i in range(N):
                 outputs.append(
@@ -410,11 +417,11 @@ class FishEyeCameras(CamerasBase):
                         self.radial_params[i],
                         self.tangential_params[i],
                         self.thin_prism_params[i],
-                        xy_depth[..., 0:2],
+                        xy[i] if len(xy) == N else xy[0],
                     )
                 )
             outputs = torch.stack(outputs, dim=0)
-        return outputs.squeeze()
+        return outputs
 
     def _compute_xr_yr_from_uv_distorted(
         self, tangential_params, thin_prism_params, uv_distorted: torch.Tensor
-- 
2.43.0


From aa6c25b8411b6f382ff1524c83254f3459088b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 019/137] fix: FishEyeCameras.unproject_points at the principal
 point

---
 pytorch3d/renderer/fisheyecameras.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index c59485c..9088514 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -359,7 +359,11 @@ class FishEyeCameras(CamerasBase):
         theta = self._get_theta_from_norm_xr_yr(radial_params, xr_yrNorm)
         # get the point coordinates:
         point3d_est = theta.new_ones(*sh, 3)
-        point3d_est[..., :2] = theta.tan()[..., None] / xr_yrNorm[..., None] * xr_yr
+        # use the limit for points at the principal point
+        is_center = xr_yrNorm < self.epsilon
+        scale = theta.tan() / torch.where(is_center, torch.ones_like(theta), xr_yrNorm)
+        scale = torch.where(is_center, torch.ones_like(theta), scale)
+        point3d_est[..., :2] = scale[..., None] * xr_yr
         return point3d_est
 
     def unproject_points(
-- 
2.43.0


From e9038a2c9ec84303dbcecb2f7e989e35c3fa2457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 020/137] fix: FishEyeCameras with any number of radial
 parameters

---
 pytorch3d/renderer/fisheyecameras.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index 9088514..80355c4 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -191,7 +191,7 @@ class FishEyeCameras(CamerasBase):
 
         # compute radial distortions, eq 1
         t = theta_sq
-        theta_pow = torch.stack([t, t**2, t**3, t**4, t**5, t**6], dim=-1)
+        theta_pow = torch.stack([t**i for i in range(1, self.num_radial + 1)], dim=-1)
         th_radial = 1 + torch.sum(theta_pow * radial_params, dim=-1)
 
         # compute th/r, using the limit for small values
@@ -514,7 +514,7 @@ class FishEyeCameras(CamerasBase):
 
             # compute the theta polynomial and its derivative wrt theta
             t = theta_sq
-            theta_pow = torch.stack([t, t**2, t**3, t**4, t**5, t**6], dim=-1)
+            theta_pow = torch.stack([t**i for i in range(1, self.num_radial + 1)], dim=-1)
             th_radial = th_radial + torch.sum(theta_pow * radial_params, dim=-1)
 
             dthD_dth = dthD_dth + torch.sum(c * radial_params * theta_pow, dim=-1)
-- 
2.43.0


From 7cda8489a2438e3b0a5ad653ca7667337ae5db93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 021/137] fix: gradients of FishEyeCameras with thin-prism but
 without tangential distortions

---
 pytorch3d/renderer/fisheyecameras.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index 80355c4..64e5f98 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -224,14 +224,14 @@ class FishEyeCameras(CamerasBase):
             radial_powers = torch.cat(
                 [xr_yr_squared_norm, xr_yr_squared_norm * xr_yr_squared_norm], dim=-1
             )
-            uv_distorted[..., 0] = uv_distorted[..., 0] + torch.sum(
-                thin_prism_params[..., 0:2] * radial_powers,
-                dim=-1,
-            )
-            uv_distorted[..., 1] = uv_distorted[..., 1] + torch.sum(
-                thin_prism_params[..., 2:4] * radial_powers,
+            thin_prism = torch.stack(
+                [
+                    torch.sum(thin_prism_params[..., 0:2] * radial_powers, dim=-1),
+                    torch.sum(thin_prism_params[..., 2:4] * radial_powers, dim=-1),
+                ],
                 dim=-1,
             )
+            uv_distorted = uv_distorted + thin_prism
         # return value: distorted points on the uv plane, eq 4
         projected_points = focal * uv_distorted + principal_point
         return torch.cat(
-- 
2.43.0


From b300cb6904948d59e7035d988f8d9e909cc82f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 022/137] fix: setting one element of broadcast
 TensorProperties

---
 pytorch3d/renderer/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/utils.py b/pytorch3d/renderer/utils.py
index ea3d655..4ce1450 100644
--- a/pytorch3d/renderer/utils.py
+++ b/pytorch3d/renderer/utils.py
@@ -72,7 +72,11 @@ class TensorAccessor(nn.Module):
             msg = "Expected value to have len %r; got %r"
             # pyrefly: ignore [bad-argument-type]
             raise ValueError(msg % (len(self.index), len(value)))
-        self.class_object.__dict__[name][self.index] = value
+        # The attribute might be an expanded tensor, or share memory with the tensor
+        # it was initialized from.
+        v = v.clone()
+        v[self.index] = value
+        setattr(self.class_object, name, v)
 
     # pyrefly: ignore [bad-override]
     def __getattr__(self, name: str):
-- 
2.43.0


From 27fed5759519edf2dfcbd7a3a6e955b5aba3e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 023/137] fix: reading a missing attribute of indexed
 TensorProperties

---
 pytorch3d/renderer/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/utils.py b/pytorch3d/renderer/utils.py
index 4ce1450..acd41ca 100644
--- a/pytorch3d/renderer/utils.py
+++ b/pytorch3d/renderer/utils.py
@@ -88,11 +88,10 @@ class TensorAccessor(nn.Module):
             name: string of the attribute name
         """
         if hasattr(self.class_object, name):
-            return self.class_object.__dict__[name][self.index]
+            return getattr(self.class_object, name)[self.index]
         else:
             msg = "Attribute %s not found on %r"
-            # pyrefly: ignore [missing-attribute]
-            return AttributeError(msg % (name, self.class_object.__name__))
+            raise AttributeError(msg % (name, type(self.class_object).__name__))
 
 
 BROADCAST_TYPES = (float, int, list, tuple, torch.Tensor, np.ndarray)
-- 
2.43.0


From 78b39efef08696fda60c0b73e0511acae57092c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 024/137] fix: TensorProperties ignored the dtype argument

---
 pytorch3d/renderer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/utils.py b/pytorch3d/renderer/utils.py
index acd41ca..cc01c0e 100644
--- a/pytorch3d/renderer/utils.py
+++ b/pytorch3d/renderer/utils.py
@@ -138,7 +138,7 @@ class TensorProperties(nn.Module):
 
             if len(values) > 0:
                 broadcasted_values = convert_to_tensors_and_broadcast(
-                    *values, device=device
+                    *values, dtype=dtype, device=device
                 )
 
                 # Set broadcasted values as attributes on self.
-- 
2.43.0


From c293795c39e17fc0eb233fb7d2f19704f7097b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 025/137] fix: parse_image_size accepted invalid single sizes
 and failed to report invalid lists

---
 pytorch3d/renderer/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/renderer/utils.py b/pytorch3d/renderer/utils.py
index cc01c0e..4c718a2 100644
--- a/pytorch3d/renderer/utils.py
+++ b/pytorch3d/renderer/utils.py
@@ -455,12 +455,14 @@ def parse_image_size(
         ValueError if got more than two ints, any negative numbers or non-ints.
     """
     if not isinstance(image_size, (tuple, list)):
-        return (image_size, image_size)
+        image_size = (image_size, image_size)
     if len(image_size) != 2:
         raise ValueError("Image size can only be a tuple/list of (H, W)")
     if not all(i > 0 for i in image_size):
-        raise ValueError("Image sizes must be greater than 0; got %d, %d" % image_size)
-    if not all(isinstance(i, int) for i in image_size):
-        raise ValueError("Image sizes must be integers; got %f, %f" % image_size)
+        raise ValueError(
+            "Image sizes must be greater than 0; got %r, %r" % tuple(image_size)
+        )
+    if not all(isinstance(i, (int, np.integer)) for i in image_size):
+        raise ValueError("Image sizes must be integers; got %r, %r" % tuple(image_size))
     # pyrefly: ignore [bad-return]
     return tuple(image_size)
-- 
2.43.0


From 2d084787356c4a01a6ed9dec0df4799aad06f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 026/137] fix: near plane clipping failed for batches with
 trailing meshes without faces

---
 pytorch3d/renderer/mesh/clip.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index 27b23b0..ba5e0ee 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -445,10 +445,11 @@ def clip_faces(
 
     # Update version of mesh_to_face_first_idx and num_faces_per_mesh applicable to
     # face_verts_clipped
-    mesh_to_face_first_idx_clipped = faces_unclipped_to_clipped_idx[
-        mesh_to_face_first_idx
-    ]
+    # (the first index of trailing meshes without faces is F)
     F_clipped_t = torch.full([1], F_clipped, dtype=torch.int64, device=device)
+    mesh_to_face_first_idx_clipped = torch.cat(
+        (faces_unclipped_to_clipped_idx, F_clipped_t)
+    )[mesh_to_face_first_idx]
     num_faces_next = torch.cat((mesh_to_face_first_idx_clipped[1:], F_clipped_t))
     num_faces_per_mesh_clipped = num_faces_next - mesh_to_face_first_idx_clipped
 
-- 
2.43.0


From 511b79dd73eb8ace1d47d8ebc460dfca1f47abc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 027/137] fix: gradients of faces clipped at the near plane
 ignored the intersection points

---
 pytorch3d/renderer/mesh/clip.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index ba5e0ee..4216490 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -292,7 +292,6 @@ def _find_verts_intersecting_clipping_plane(
     # Solve for the weight w3 such that p1.z * (1-w3) + p2.z * w3 = clip_value,
     # and then interpolate p5 = p1 * (1-w3) + p3 * w3
     w3 = (p1[:, 2] - clip_value) / (p1[:, 2] - p3[:, 2])
-    w3 = w3.detach()
     p5 = p1 * (1 - w3[:, None]) + p3 * w3[:, None]
     if perspective_correct:
         # Again if using a perspective camera, convert back to world coordinates
-- 
2.43.0


From afe46d65e384e3137841ea016d23bc3149c0fe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 028/137] fix: frustum culling of faces compared vertices
 instead of coordinates

---
 pytorch3d/renderer/mesh/clip.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index 4216490..2e0cdbb 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -187,9 +187,14 @@ def _get_culled_faces(face_verts: torch.Tensor, frustum: ClipFrustum) -> torch.T
         # If clip_value is None then don't clip along that plane
         if frustum.cull and clip_value is not None:
             if op == "<":
-                verts_clipped = face_verts[:, axis] < clip_value
+                verts_clipped = face_verts[:, :, axis] < clip_value
             else:
-                verts_clipped = face_verts[:, axis] > clip_value
+                verts_clipped = face_verts[:, :, axis] > clip_value
+
+            # The projection of a vertex behind the camera is mirrored, so its xy
+            # coordinates do not tell on which side of the frustum it lies.
+            if frustum.perspective_correct and axis != 2:
+                verts_clipped = verts_clipped & (face_verts[:, :, 2] > 0)
 
             # If all verts are clipped then face is outside the frustum
             faces_culled |= verts_clipped.sum(1) == 3
-- 
2.43.0


From c67ec152bfe4bfa125129a833203c79e1d6f51eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 029/137] fix: rasterizing a batch of meshes without faces

---
 pytorch3d/renderer/mesh/rasterize_meshes.py | 4 ++++
 pytorch3d/renderer/mesh/rasterizer.py       | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/mesh/rasterize_meshes.py b/pytorch3d/renderer/mesh/rasterize_meshes.py
index c2f7b34..7d2660e 100644
--- a/pytorch3d/renderer/mesh/rasterize_meshes.py
+++ b/pytorch3d/renderer/mesh/rasterize_meshes.py
@@ -146,6 +146,10 @@ def rasterize_meshes(
     face_verts = verts_packed[faces_packed]
     mesh_to_face_first_idx = meshes.mesh_to_faces_packed_first_idx()
     num_faces_per_mesh = meshes.num_faces_per_mesh()
+    if meshes.isempty():
+        # The packed representation of a batch without faces has no entry per mesh.
+        num_faces_per_mesh = faces_packed.new_zeros(len(meshes))
+        mesh_to_face_first_idx = num_faces_per_mesh
 
     # In the case that H != W use the max image size to set the bin_size
     # to accommodate the num bins constraint in the coarse rasterizer.
diff --git a/pytorch3d/renderer/mesh/rasterizer.py b/pytorch3d/renderer/mesh/rasterizer.py
index bad4e07..0e20275 100644
--- a/pytorch3d/renderer/mesh/rasterizer.py
+++ b/pytorch3d/renderer/mesh/rasterizer.py
@@ -224,7 +224,12 @@ class MeshRasterizer(nn.Module):
         Returns:
             Fragments: Rasterization outputs as a named tuple.
         """
-        meshes_proj = self.transform(meshes_world, **kwargs)
+        # Without faces there is nothing to project.
+        meshes_proj = (
+            meshes_world
+            if meshes_world.isempty()
+            else self.transform(meshes_world, **kwargs)
+        )
         raster_settings = kwargs.get("raster_settings", self.raster_settings)
 
         # By default, turn on clip_barycentric_coords if blur_radius > 0.
-- 
2.43.0


From c48b040f1ca21f4c0c5ebbfe2a52bf56d63ab569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 030/137] fix: gradient of perspective correction when its
 denominator is clamped

---
 pytorch3d/csrc/utils/geometry_utils.cuh | 7 +++++--
 pytorch3d/csrc/utils/geometry_utils.h   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/csrc/utils/geometry_utils.cuh b/pytorch3d/csrc/utils/geometry_utils.cuh
index b18bb54..c734c39 100644
--- a/pytorch3d/csrc/utils/geometry_utils.cuh
+++ b/pytorch3d/csrc/utils/geometry_utils.cuh
@@ -208,12 +208,15 @@ BarycentricPerspectiveCorrectionBackward(
   const float w0_top = bary.x * z1 * z2;
   const float w1_top = z0 * bary.y * z2;
   const float w2_top = z0 * z1 * bary.z;
-  const float denom = fmaxf(w0_top + w1_top + w2_top, kEpsilon);
+  const float top_sum = w0_top + w1_top + w2_top;
+  const float denom = fmaxf(top_sum, kEpsilon);
 
   // Now do backward pass
   const float grad_denom_top =
       -w0_top * grad_out.x - w1_top * grad_out.y - w2_top * grad_out.z;
-  const float grad_denom = grad_denom_top / (denom * denom);
+  // A clamped denominator is constant.
+  const float grad_denom =
+      top_sum > kEpsilon ? grad_denom_top / (denom * denom) : float(0);
   const float grad_w0_top = grad_denom + grad_out.x / denom;
   const float grad_w1_top = grad_denom + grad_out.y / denom;
   const float grad_w2_top = grad_denom + grad_out.z / denom;
diff --git a/pytorch3d/csrc/utils/geometry_utils.h b/pytorch3d/csrc/utils/geometry_utils.h
index ad9f7ff..1f1c33c 100644
--- a/pytorch3d/csrc/utils/geometry_utils.h
+++ b/pytorch3d/csrc/utils/geometry_utils.h
@@ -229,12 +229,15 @@ inline std::tuple<vec3<T>, T, T, T> BarycentricPerspectiveCorrectionBackward(
   const T w0_top = bary.x * z1 * z2;
   const T w1_top = bary.y * z0 * z2;
   const T w2_top = bary.z * z0 * z1;
-  const T denom = std::max<T>(w0_top + w1_top + w2_top, kEpsilon);
+  const T top_sum = w0_top + w1_top + w2_top;
+  const T denom = std::max<T>(top_sum, kEpsilon);
 
   // Now do backward pass
   const T grad_denom_top =
       -w0_top * grad_out.x - w1_top * grad_out.y - w2_top * grad_out.z;
-  const T grad_denom = grad_denom_top / (denom * denom);
+  // A clamped denominator is constant.
+  const T grad_denom =
+      top_sum > kEpsilon ? grad_denom_top / (denom * denom) : T(0);
   const T grad_w0_top = grad_denom + grad_out.x / denom;
   const T grad_w1_top = grad_denom + grad_out.y / denom;
   const T grad_w2_top = grad_denom + grad_out.z / denom;
-- 
2.43.0


From 04b2e418026e309d3899299495923de89b73b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 031/137] fix: _format_radius failed for non-contiguous radii

---
 pytorch3d/renderer/points/rasterize_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/points/rasterize_points.py b/pytorch3d/renderer/points/rasterize_points.py
index b9f853c..149d4bd 100644
--- a/pytorch3d/renderer/points/rasterize_points.py
+++ b/pytorch3d/renderer/points/rasterize_points.py
@@ -175,7 +175,7 @@ def _format_radius(
             raise ValueError(msg % (repr(radius.shape)))
         else:
             padded_to_packed_idx = pointclouds.padded_to_packed_idx()
-            radius = radius.view(-1)[padded_to_packed_idx]
+            radius = radius.reshape(-1)[padded_to_packed_idx]
     elif isinstance(radius, float):
         radius = torch.full((P_packed,), fill_value=radius).type_as(points_packed)
     else:
-- 
2.43.0


From b890367d69a453f3642fe9dec49d5e741d87894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 032/137] fix: rasterizing a batch of empty point clouds
 returned no images

---
 pytorch3d/renderer/points/rasterize_points.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytorch3d/renderer/points/rasterize_points.py b/pytorch3d/renderer/points/rasterize_points.py
index 149d4bd..cbf6da9 100644
--- a/pytorch3d/renderer/points/rasterize_points.py
+++ b/pytorch3d/renderer/points/rasterize_points.py
@@ -98,6 +98,11 @@ def rasterize_points(
     points_packed = pointclouds.points_packed()
     cloud_to_packed_first_idx = pointclouds.cloud_to_packed_first_idx()
     num_points_per_cloud = pointclouds.num_points_per_cloud()
+    if pointclouds.isempty():
+        # No clouds are packed, but there is one output image per cloud.
+        num_clouds = len(pointclouds)
+        cloud_to_packed_first_idx = cloud_to_packed_first_idx.new_zeros(num_clouds)
+        num_points_per_cloud = num_points_per_cloud.new_zeros(num_clouds)
 
     radius = _format_radius(radius, pointclouds)
 
-- 
2.43.0


From c16712866ea7320824c614b94c93e0ddd3915adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 033/137] fix: PointsRenderer ignored the raster_settings
 argument and per-point radii

---
 pytorch3d/renderer/points/renderer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/points/renderer.py b/pytorch3d/renderer/points/renderer.py
index 9be832d..83704fd 100644
--- a/pytorch3d/renderer/points/renderer.py
+++ b/pytorch3d/renderer/points/renderer.py
@@ -10,6 +10,8 @@
 import torch
 import torch.nn as nn
 
+from .rasterize_points import _format_radius
+
 
 # A renderer class should be initialized with a
 # function for rasterization and a function for compositing.
@@ -59,9 +61,17 @@ class PointsRenderer(nn.Module):
         # Construct weights based on the distance of a point to the true point.
         # However, this could be done differently: e.g. predicted as opposed
         # to a function of the weights.
-        r = self.rasterizer.raster_settings.radius
+        raster_settings = kwargs.get(
+            "raster_settings", self.rasterizer.raster_settings
+        )
+        r = raster_settings.radius
 
         dists2 = fragments.dists.permute(0, 3, 1, 2)
+        if not isinstance(r, float):
+            # the radius of the point at each entry of the fragments
+            r = _format_radius(r, point_clouds)
+            r = torch.cat([r, r.new_ones(1)])  # fragments pad with idx = -1
+            r = r[fragments.idx.long()].permute(0, 3, 1, 2)
         weights = 1 - dists2 / (r * r)
         images = self.compositor(
             fragments.idx.long().permute(0, 3, 1, 2),
-- 
2.43.0


From d03f5b5faea78abbc5ee24d6e956278ff0f1fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 034/137] fix: gradient of alpha_composite for opaque points

---
 .../csrc/compositing/alpha_composite_cpu.cpp  | 44 ++++++++-----------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp b/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
index 41bc0ec..f5f261b 100644
--- a/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
+++ b/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
@@ -11,9 +11,6 @@
 #include <cmath>
 #include <vector>
 
-// Epsilon float
-const float kEps = 1e-9;
-
 torch::Tensor alphaCompositeCpuForward(
     const torch::Tensor& features,
     const torch::Tensor& alphas,
@@ -79,6 +76,8 @@ std::tuple<torch::Tensor, torch::Tensor> alphaCompositeCpuBackward(
   auto grad_features_a = grad_features.accessor<float, 2>();
   auto grad_alphas_a = grad_alphas.accessor<float, 4>();
 
+  std::vector<float> cum_alphas(K);
+
   // Iterate over the batch
   for (int b = 0; b < B; ++b) {
     // Iterate over the features
@@ -87,34 +86,29 @@ std::tuple<torch::Tensor, torch::Tensor> alphaCompositeCpuBackward(
       for (int j = 0; j < H; ++j) {
         // Iterate over pixels in a horizontal line, left to right
         for (int i = 0; i < W; ++i) {
+          // cum_alphas[k] is the transmittance in front of the kth point
           float cum_alpha = 1.;
-          // Iterate through the closest K points for this pixel
           for (int k = 0; k < K; ++k) {
-            int64_t n_idx = points_idx_a[b][k][j][i];
+            cum_alphas[k] = cum_alpha;
             // Sentinal value is -1, indicating no point overlaps this pixel
+            if (points_idx_a[b][k][j][i] >= 0) {
+              cum_alpha *= 1 - alphas_a[b][k][j][i];
+            }
+          }
+          // Iterate from the farthest to the closest point. behind is the
+          // composited feature of all points behind the kth one.
+          float behind = 0.;
+          for (int k = K - 1; k >= 0; --k) {
+            int64_t n_idx = points_idx_a[b][k][j][i];
             if (n_idx < 0) {
               continue;
             }
-            float alpha = alphas_a[b][k][j][i];
-            grad_alphas_a[b][k][j][i] +=
-                grad_outputs_a[b][c][j][i] * features_a[c][n_idx] * cum_alpha;
-            grad_features_a[c][n_idx] +=
-                grad_outputs_a[b][c][j][i] * cum_alpha * alpha;
-
-            // Iterate over all (K-1) nearer points to update gradient
-            for (int t = 0; t < k; t++) {
-              int64_t t_idx = points_idx_a[b][t][j][i];
-              // Sentinal value is -1, indicating no point overlaps this pixel
-              if (t_idx < 0) {
-                continue;
-              }
-              float alpha_tvalue = alphas_a[b][t][j][i];
-              grad_alphas_a[b][t][j][i] -= grad_outputs_a[b][c][j][i] *
-                  features_a[c][n_idx] * cum_alpha * alpha /
-                  (1 - alpha_tvalue + kEps);
-            }
-
-            cum_alpha = cum_alpha * (1 - alpha);
+            const float alpha = alphas_a[b][k][j][i];
+            const float feature = features_a[c][n_idx];
+            const float grad = grad_outputs_a[b][c][j][i] * cum_alphas[k];
+            grad_alphas_a[b][k][j][i] += grad * (feature - behind);
+            grad_features_a[c][n_idx] += grad * alpha;
+            behind = alpha * feature + (1 - alpha) * behind;
           }
         }
       }
-- 
2.43.0


From f1e7c4cee5cccb6d93f14b88ec61f24fe3cebb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 035/137] fix: gradient of norm_weighted_sum when the weights
 are clamped

---
 pytorch3d/csrc/compositing/norm_weighted_sum.cu      | 2 ++
 pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pytorch3d/csrc/compositing/norm_weighted_sum.cu b/pytorch3d/csrc/compositing/norm_weighted_sum.cu
index e21617d..d666a7a 100644
--- a/pytorch3d/csrc/compositing/norm_weighted_sum.cu
+++ b/pytorch3d/csrc/compositing/norm_weighted_sum.cu
@@ -125,7 +125,9 @@ __global__ void weightedSumNormCudaBackwardKernel(
     }
 
     if (sum_alpha < kEpsilon) {
+      // The normalization is constant when it is clamped
       sum_alpha = kEpsilon;
+      sum_alphafs = 0.;
     }
 
     // Iterate again through the closest K points for this pixel to calculate
diff --git a/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp b/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
index 840ef3d..934934b 100644
--- a/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
+++ b/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
@@ -114,7 +114,9 @@ std::tuple<torch::Tensor, torch::Tensor> weightedSumNormCpuBackward(
           }
 
           if (t_alpha < kEps) {
+            // The normalization is constant when it is clamped
             t_alpha = kEps;
+            t_alphafs = 0.;
           }
 
           // Iterate through the closest K points for this pixel ordered by z
-- 
2.43.0


From 547487d4b4417f53c05536ed09f418b0e818c2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 036/137] fix: cull_to_frustum removed visible faces of
 non-square images

---
 pytorch3d/renderer/mesh/rasterize_meshes.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pytorch3d/renderer/mesh/rasterize_meshes.py b/pytorch3d/renderer/mesh/rasterize_meshes.py
index 7d2660e..5c0fb3b 100644
--- a/pytorch3d/renderer/mesh/rasterize_meshes.py
+++ b/pytorch3d/renderer/mesh/rasterize_meshes.py
@@ -165,11 +165,14 @@ def rasterize_meshes(
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        H, W = im_size
+        half_x = non_square_ndc_range(W, H) / 2.0
+        half_y = non_square_ndc_range(H, W) / 2.0
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-half_x,
+            right=half_x,
+            top=-half_y,
+            bottom=half_y,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
@@ -440,11 +443,13 @@ def rasterize_meshes_python(  # noqa: C901
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        half_x = non_square_ndc_range(W, H) / 2.0
+        half_y = non_square_ndc_range(H, W) / 2.0
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-half_x,
+            right=half_x,
+            top=-half_y,
+            bottom=half_y,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
-- 
2.43.0


From a435dd3fe36228ff2001c0cefc7f727520db936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 037/137] fix: depth shaders failed or mixed up images for
 cameras with batched zfar

---
 pytorch3d/renderer/mesh/shader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index e751389..d62f4c5 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -396,6 +396,9 @@ class HardDepthShader(ShaderBase):
         mask = fragments.pix_to_face[..., 0:1] < 0
 
         zbuf = fragments.zbuf[..., 0:1].clone()
+        if torch.is_tensor(zfar):
+            # one value per image, or a single value for the batch
+            zfar = zfar.to(zbuf).reshape(-1, 1, 1, 1).expand_as(zbuf)[mask]
         zbuf[mask] = zfar
         return zbuf
 
@@ -427,6 +430,9 @@ class SoftDepthShader(ShaderBase):
         mask = fragments.pix_to_face >= 0
 
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
+        if torch.is_tensor(zfar):
+            # one value per image, or a single value for the batch
+            zfar = zfar.to(device).reshape(-1, 1, 1, 1)
 
         # Sigmoid probability map based on the distance of the pixel to the face.
         prob_map = torch.sigmoid(-fragments.dists / self.blend_params.sigma) * mask
-- 
2.43.0


From 94d5d80cfb239fe060c6b727db5d8e630e090658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 038/137] fix: SoftGouraudShader and SoftDepthShader ignored
 the blend_params argument

---
 pytorch3d/renderer/mesh/shader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index d62f4c5..e606f92 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -211,8 +211,9 @@ class SoftGouraudShader(ShaderBase):
         )
         znear = kwargs.get("znear", getattr(cameras, "znear", 1.0))
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
+        blend_params = kwargs.get("blend_params", self.blend_params)
         images = softmax_rgb_blend(
-            pixel_colors, fragments, self.blend_params, znear=znear, zfar=zfar
+            pixel_colors, fragments, blend_params, znear=znear, zfar=zfar
         )
         return images
 
@@ -435,7 +436,8 @@ class SoftDepthShader(ShaderBase):
             zfar = zfar.to(device).reshape(-1, 1, 1, 1)
 
         # Sigmoid probability map based on the distance of the pixel to the face.
-        prob_map = torch.sigmoid(-fragments.dists / self.blend_params.sigma) * mask
+        blend_params = kwargs.get("blend_params", self.blend_params)
+        prob_map = torch.sigmoid(-fragments.dists / blend_params.sigma) * mask
 
         # append extra face for zfar
         dists = torch.cat(
-- 
2.43.0


From cbaf7a41575d0e77bb042c4726dfe560678c2b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 039/137] fix: SplatterPhongShader reused the constants of the
 first image size for every later one

---
 pytorch3d/renderer/mesh/shader.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index e606f92..f36d027 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -326,6 +326,7 @@ class SplatterPhongShader(ShaderBase):
 
     def __init__(self, **kwargs):
         self.splatter_blender = None
+        self._splatter_shape = None
         super().__init__(**kwargs)
 
     def to(self, device: Device):
@@ -348,10 +349,11 @@ class SplatterPhongShader(ShaderBase):
             materials=materials,
         )
 
-        if not self.splatter_blender:
-            # Init only once, to avoid re-computing constants.
-            N, H, W, K, _ = colors.shape
-            self.splatter_blender = SplatterBlender((N, H, W, K), colors.device)
+        input_shape = tuple(colors.shape[:-1])
+        if not self.splatter_blender or self._splatter_shape != input_shape:
+            # Init once per input shape, to avoid re-computing constants.
+            self.splatter_blender = SplatterBlender(input_shape, colors.device)
+            self._splatter_shape = input_shape
 
         blend_params = kwargs.get("blend_params", self.blend_params)
         self.check_blend_params(blend_params)
-- 
2.43.0


From 00cb44e4d4cf5aadbd39a938f0333a2e585612d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 040/137] fix: SplatterBlender paired splats with the occlusion
 layers of the mirrored neighbours

---
 pytorch3d/renderer/splatter_blend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytorch3d/renderer/splatter_blend.py b/pytorch3d/renderer/splatter_blend.py
index 936944b..52b1737 100644
--- a/pytorch3d/renderer/splatter_blend.py
+++ b/pytorch3d/renderer/splatter_blend.py
@@ -537,6 +537,11 @@ class SplatterBlender(torch.nn.Module):
         occlusion_layers = _compute_occlusion_layers(
             pixel_coords_screen[..., 2:3].squeeze(dim=-1)
         )  # (N, H, W, 9)
+        # The occlusion layers list the directions row by row, the splats below column
+        # by column.
+        occlusion_layers = (
+            occlusion_layers.unflatten(-1, (3, 3)).transpose(-1, -2).flatten(-2)
+        )
 
         splat_colors_and_weights = _compute_splatting_colors_and_weights(
             pixel_coords_screen,
-- 
2.43.0


From df9e36f8d8cf10fc2631be351fba87806e212640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 041/137] fix: shading and textures of batches without any face
 raised

---
 pytorch3d/ops/interp_face_attrs.py | 10 ++++++----
 pytorch3d/renderer/mesh/shading.py | 20 ++++++++++++--------
 pytorch3d/structures/utils.py      |  6 +++---
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/pytorch3d/ops/interp_face_attrs.py b/pytorch3d/ops/interp_face_attrs.py
index 4cf6b99..f7019c6 100644
--- a/pytorch3d/ops/interp_face_attrs.py
+++ b/pytorch3d/ops/interp_face_attrs.py
@@ -55,11 +55,11 @@ def interpolate_face_attributes(
 
     # Otherwise flatten and call the custom autograd function
     N, H, W, K = pix_to_face.shape
-    pix_to_face = pix_to_face.view(-1)
-    barycentric_coords = barycentric_coords.view(N * H * W * K, 3)
+    pix_to_face = pix_to_face.reshape(-1)
+    barycentric_coords = barycentric_coords.reshape(N * H * W * K, 3)
     args = (pix_to_face, barycentric_coords, face_attributes)
     out = _InterpFaceAttrs.apply(*args)
-    out = out.view(N, H, W, K, -1)
+    out = out.view(N, H, W, K, face_attributes.shape[2])
     return out
 
 
@@ -90,12 +90,14 @@ def interpolate_face_attributes_python(
 ) -> torch.Tensor:
     F, FV, D = face_attributes.shape
     N, H, W, K, _ = barycentric_coords.shape
+    if F == 0:
+        return barycentric_coords.new_zeros((N, H, W, K, D))
 
     # Replace empty pixels in pix_to_face with 0 in order to interpolate.
     mask = pix_to_face < 0
     pix_to_face = pix_to_face.clone()
     pix_to_face[mask] = 0
-    idx = pix_to_face.view(N * H * W * K, 1, 1).expand(N * H * W * K, 3, D)
+    idx = pix_to_face.reshape(N * H * W * K, 1, 1).expand(N * H * W * K, 3, D)
     pixel_face_vals = face_attributes.gather(0, idx).view(N, H, W, K, 3, D)
     pixel_vals = (barycentric_coords[..., None] * pixel_face_vals).sum(dim=-2)
     pixel_vals[mask] = 0  # Replace masked values in output.
diff --git a/pytorch3d/renderer/mesh/shading.py b/pytorch3d/renderer/mesh/shading.py
index bb113ee..04598c9 100644
--- a/pytorch3d/renderer/mesh/shading.py
+++ b/pytorch3d/renderer/mesh/shading.py
@@ -208,14 +208,18 @@ def flat_shading(meshes, fragments, lights, cameras, materials, texels) -> torch
     pix_to_face[mask] = 0
 
     N, H, W, K = pix_to_face.shape
-    idx = pix_to_face.view(N * H * W * K, 1).expand(N * H * W * K, 3)
-
-    # gather pixel coords
-    pixel_coords = face_coords.gather(0, idx).view(N, H, W, K, 3)
-    pixel_coords[mask] = 0.0
-    # gather pixel normals
-    pixel_normals = face_normals.gather(0, idx).view(N, H, W, K, 3)
-    pixel_normals[mask] = 0.0
+    if face_coords.shape[0] == 0:
+        pixel_coords = face_coords.new_zeros((N, H, W, K, 3))
+        pixel_normals = torch.zeros_like(pixel_coords)
+    else:
+        idx = pix_to_face.view(N * H * W * K, 1).expand(N * H * W * K, 3)
+
+        # gather pixel coords
+        pixel_coords = face_coords.gather(0, idx).view(N, H, W, K, 3)
+        pixel_coords[mask] = 0.0
+        # gather pixel normals
+        pixel_normals = face_normals.gather(0, idx).view(N, H, W, K, 3)
+        pixel_normals[mask] = 0.0
 
     # Calculate the illumination at each face
     ambient, diffuse, specular = _apply_lighting(
diff --git a/pytorch3d/structures/utils.py b/pytorch3d/structures/utils.py
index 6c0c4f7..37c3e0c 100644
--- a/pytorch3d/structures/utils.py
+++ b/pytorch3d/structures/utils.py
@@ -62,9 +62,9 @@ def list_to_padded(
         raise ValueError("All items have to have the same number of dimensions!")
 
     if pad_size is None:
-        pad_dims = [
-            max(y.shape[dim] for y in x if len(y) > 0) for dim in range(x[0].ndim)
-        ]
+        # items without rows do not contribute, unless there are no others
+        sized = [y for y in x if len(y) > 0] or x
+        pad_dims = [max(y.shape[dim] for y in sized) for dim in range(x[0].ndim)]
     else:
         if any(len(pad_size) != y.ndim for y in x):
             raise ValueError("Pad size must contain target size for all dimensions.")
-- 
2.43.0


From 08994a9cf56e0c52ceda33f7f9836bca5ad7a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 042/137] fix: batched material colours were applied to the
 wrong axis, and one-channel Gouraud shading mixed vertices

---
 pytorch3d/renderer/mesh/shading.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shading.py b/pytorch3d/renderer/mesh/shading.py
index 04598c9..c2921f4 100644
--- a/pytorch3d/renderer/mesh/shading.py
+++ b/pytorch3d/renderer/mesh/shading.py
@@ -39,16 +39,16 @@ def _apply_lighting(
         shininess=materials.shininess,
     )
     ambient_color = materials.ambient_color * lights.ambient_color
-    diffuse_color = materials.diffuse_color * light_diffuse
-    specular_color = materials.specular_color * light_specular
-
-    if normals.dim() == 2 and points.dim() == 2:
-        # If given packed inputs remove batch dim in output.
-        return (
-            ambient_color.squeeze(),
-            diffuse_color.squeeze(),
-            specular_color.squeeze(),
-        )
+    # Materials are (N, C): reshape to have dimensions compatible with the points
+    expand_dims = (-1,) + (1,) * (points.dim() - 2)
+    material_diffuse = materials.diffuse_color
+    material_specular = materials.specular_color
+    diffuse_color = light_diffuse * material_diffuse.view(
+        expand_dims + material_diffuse.shape[-1:]
+    )
+    specular_color = light_specular * material_specular.view(
+        expand_dims + material_specular.shape[-1:]
+    )
 
     if ambient_color.ndim != diffuse_color.ndim:
         # Reshape from (N, 3) to have dimensions compatible with
-- 
2.43.0


From a295bca725f521251cbab742d1f096ab76c82ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 043/137] fix: sampling more rays than an image has pixels
 raised

---
 pytorch3d/renderer/implicit/raysampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/implicit/raysampling.py b/pytorch3d/renderer/implicit/raysampling.py
index 222e024..ecdd3dd 100644
--- a/pytorch3d/renderer/implicit/raysampling.py
+++ b/pytorch3d/renderer/implicit/raysampling.py
@@ -592,7 +592,10 @@ def _safe_multinomial(input: torch.Tensor, num_samples: int) -> torch.Tensor:
         # this is probably rare, so we don't mind sampling twice
         res = torch.multinomial(input, num_samples, replacement=True)
         no_repl = (input > 0.0).sum(dim=-1) >= num_samples
-        res[no_repl] = torch.multinomial(input[no_repl], num_samples, replacement=False)
+        if no_repl.any():
+            res[no_repl] = torch.multinomial(
+                input[no_repl], num_samples, replacement=False
+            )
         return res
 
     # in some versions of Pytorch, zero probabilty samples can be drawn without an error
-- 
2.43.0


From c0c5c9b5f234f8bccef848f799a9d47f1def55ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 044/137] fix: EmissionAbsorptionRaymarcher with
 surface_thickness=0 raised

---
 pytorch3d/renderer/implicit/raymarching.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/implicit/raymarching.py b/pytorch3d/renderer/implicit/raymarching.py
index b8aef47..271a474 100644
--- a/pytorch3d/renderer/implicit/raymarching.py
+++ b/pytorch3d/renderer/implicit/raymarching.py
@@ -171,7 +171,11 @@ def _shifted_cumprod(x, shift: int = 1):
     """
     x_cumprod = torch.cumprod(x, dim=-1)
     x_cumprod_shift = torch.cat(
-        [torch.ones_like(x_cumprod[..., :shift]), x_cumprod[..., :-shift]], dim=-1
+        [
+            torch.ones_like(x_cumprod[..., :shift]),
+            x_cumprod[..., : max(x.shape[-1] - shift, 0)],
+        ],
+        dim=-1,
     )
     return x_cumprod_shift
 
-- 
2.43.0


From d04bf1087fa388f89ee646dc4e250f9e86f0d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 045/137] fix: sample_farthest_points read and wrote out of
 bounds for empty clouds and K = 0

---
 .../sample_farthest_points_cpu.cpp                  | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
index cd53382..ecefe3c 100644
--- a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
+++ b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
@@ -43,6 +43,14 @@ at::Tensor FarthestPointSamplingCpu(
   std::vector<float> dists(P, std::numeric_limits<float>::max());
 
   for (int64_t n = 0; n < N; ++n) {
+    // For heterogeneous pointclouds, use the minimum of the
+    // length for that cloud compared to K as the number of
+    // points to sample
+    const int64_t batch_k = std::min(lengths_a[n], k_a[n]);
+    if (batch_k <= 0) {
+      continue; // nothing to sample: the row stays padded with -1
+    }
+
     // Resize and reset points mask and distances for each batch
     selected_points_mask.resize(lengths_a[n]);
     dists.resize(lengths_a[n]);
@@ -56,11 +64,6 @@ at::Tensor FarthestPointSamplingCpu(
     // Set the value of the mask at this point to false
     selected_points_mask[last_idx] = true;
 
-    // For heterogeneous pointclouds, use the minimum of the
-    // length for that cloud compared to K as the number of
-    // points to sample
-    const int64_t batch_k = std::min(lengths_a[n], k_a[n]);
-
     // Iteratively select batch_k points per batch
     for (int64_t k = 1; k < batch_k; ++k) {
       // Iterate through all the points
-- 
2.43.0


From 0f830172c3f6b55066b751aa4a28edd8c785b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 046/137] fix: knn_points and knn_gather raised on an empty
 batch

---
 pytorch3d/ops/knn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/knn.py b/pytorch3d/ops/knn.py
index a453050..a245c01 100644
--- a/pytorch3d/ops/knn.py
+++ b/pytorch3d/ops/knn.py
@@ -75,7 +75,7 @@ class _knn_points(Function):
 
         # sort KNN in ascending order if K > 1
         if K > 1 and return_sorted:
-            if lengths2.min() < K:
+            if (lengths2 < K).any():
                 P1 = p1.shape[1]
                 mask = lengths2[:, None] <= torch.arange(K, device=dists.device)[None]
                 # mask has shape [N, K], true where dists irrelevant
@@ -237,7 +237,7 @@ def knn_gather(
     x_out = x[:, :, None].expand(-1, -1, K, -1).gather(1, idx_expanded)
     # p2_nn has shape [N, L, K, U]
 
-    needs_mask = lengths.min() < K
+    needs_mask = (lengths < K).any()
     if needs_mask:
         # mask has shape [N, K], true where idx is irrelevant because
         # there is less number of points in p2 than K
-- 
2.43.0


From 984908f8a22771f932330e022c67cd8593cb4db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 047/137] fix: gathering neighbours from clouds without points
 raised

---
 pytorch3d/ops/knn.py   | 3 +++
 pytorch3d/ops/utils.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/pytorch3d/ops/knn.py b/pytorch3d/ops/knn.py
index a245c01..509d468 100644
--- a/pytorch3d/ops/knn.py
+++ b/pytorch3d/ops/knn.py
@@ -228,6 +228,9 @@ def knn_gather(
     if N != _N:
         raise ValueError("x and idx must have same batch dimension.")
 
+    if M == 0:
+        return x.new_zeros((N, L, K, U))  # all the indices are padding
+
     if lengths is None:
         lengths = torch.full((x.shape[0],), M, dtype=torch.int64, device=x.device)
 
diff --git a/pytorch3d/ops/utils.py b/pytorch3d/ops/utils.py
index 317b9ed..d72cdb9 100644
--- a/pytorch3d/ops/utils.py
+++ b/pytorch3d/ops/utils.py
@@ -40,6 +40,10 @@ def masked_gather(points: torch.Tensor, idx: torch.Tensor) -> torch.Tensor:
 
     N, P, D = points.shape
 
+    if P == 0 and idx.ndim in (2, 3):
+        # All the indices are padding
+        return points.new_zeros((*idx.shape, D))
+
     if idx.ndim == 3:
         # Case: KNN, Ball Query where idx is of shape (N, P', K)
         # where P' is not necessarily the same as P as the
-- 
2.43.0


From 21ea7ae9f51ca881a52dacfc460b02be5c0a2873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 048/137] fix: packed_to_padded and padded_to_packed raised for
 empty tensors of more than one dimension

---
 pytorch3d/ops/packed_to_padded.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/ops/packed_to_padded.py b/pytorch3d/ops/packed_to_padded.py
index 8bc18c2..96721c3 100644
--- a/pytorch3d/ops/packed_to_padded.py
+++ b/pytorch3d/ops/packed_to_padded.py
@@ -93,7 +93,7 @@ def packed_to_padded(
     if n_dims == 1:
         inputs = inputs.unsqueeze(1)
     else:
-        inputs = inputs.reshape(input_shape[0], -1)
+        inputs = inputs.flatten(1)
     inputs_padded = _PackedToPadded.apply(inputs, first_idxs, max_size)
     # if flat is True, reshape output to (N, max_size) from (N, max_size, 1)
     # else reshape output to (N, max_size, ...)
@@ -190,11 +190,11 @@ def padded_to_packed(
     if n_dims == 2:
         inputs = inputs.unsqueeze(2)
     else:
-        inputs = inputs.reshape(*input_shape[:2], -1)
+        inputs = inputs.unsqueeze(-1).flatten(2)
     inputs_packed = _PaddedToPacked.apply(inputs, first_idxs, num_inputs)
     # if input is flat, reshape output to (F,) from (F, 1)
     # else reshape output to (F, ...)
     if n_dims == 2:
         return inputs_packed.squeeze(1)
 
-    return inputs_packed.view(-1, *input_shape[2:])
+    return inputs_packed.view(num_inputs, *input_shape[2:])
-- 
2.43.0


From afb1b2ebc17ee5761df5c0764ec8de0a53112b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 049/137] fix: taubin_smoothing turned vertices without
 neighbours into NaN

---
 pytorch3d/ops/mesh_filtering.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/ops/mesh_filtering.py b/pytorch3d/ops/mesh_filtering.py
index d8f2943..742d9be 100644
--- a/pytorch3d/ops/mesh_filtering.py
+++ b/pytorch3d/ops/mesh_filtering.py
@@ -48,15 +48,26 @@ def taubin_smoothing(
 
     for _ in range(num_iter):
         L = norm_laplacian(verts, edges)
-        total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
-        verts = (1 - lambd) * verts + lambd * torch.mm(L, verts) / total_weight
+        verts = _smoothing_step(verts, L, lambd)
 
         L = norm_laplacian(verts, edges)
-        total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
-        verts = (1 - mu) * verts + mu * torch.mm(L, verts) / total_weight
+        verts = _smoothing_step(verts, L, mu)
 
     verts_list = struct_utils.packed_to_list(
         verts, meshes.num_verts_per_mesh().tolist()
     )
     mesh = Meshes(verts=list(verts_list), faces=meshes.faces_list())
     return mesh
+
+
+def _smoothing_step(
+    verts: torch.Tensor, L: torch.Tensor, weight: float
+) -> torch.Tensor:
+    """
+    Moves every vertex towards the L-weighted mean of its neighbors; a vertex
+    without neighbors stays where it is.
+    """
+    total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
+    isolated = total_weight == 0
+    mean = torch.mm(L, verts) / total_weight.masked_fill(isolated, 1.0)
+    return torch.where(isolated, verts, (1 - weight) * verts + weight * mean)
-- 
2.43.0


From a839129ace0617ce950a8ea4dc7b1b1c46cb0416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 050/137] fix: cubify raised for grids with a single voxel
 along an axis

---
 pytorch3d/ops/cubify.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pytorch3d/ops/cubify.py b/pytorch3d/ops/cubify.py
index b271d82..737b8a0 100644
--- a/pytorch3d/ops/cubify.py
+++ b/pytorch3d/ops/cubify.py
@@ -10,7 +10,6 @@
 from typing import Optional
 
 import torch
-import torch.nn.functional as F
 from pytorch3d.common.compat import meshgrid_ij
 from pytorch3d.structures import Meshes
 
@@ -145,18 +144,14 @@ def cubify(
         device=device,
     )
 
-    wx = torch.tensor([0.5, 0.5], device=device).view(1, 1, 1, 1, 2)
-    wy = torch.tensor([0.5, 0.5], device=device).view(1, 1, 1, 2, 1)
-    wz = torch.tensor([0.5, 0.5], device=device).view(1, 1, 2, 1, 1)
-
     voxelt = voxels.ge(thresh).float()
     # N x 1 x D x H x W
     voxelt = voxelt.view(N, 1, D, H, W)
 
-    # N x 1 x (D-1) x (H-1) x (W-1)
-    voxelt_x = F.conv3d(voxelt, wx).gt(0.5).float()
-    voxelt_y = F.conv3d(voxelt, wy).gt(0.5).float()
-    voxelt_z = F.conv3d(voxelt, wz).gt(0.5).float()
+    # 1 where both of the voxels adjacent along W, H or D are occupied
+    voxelt_x = voxelt[..., 1:] * voxelt[..., :-1]
+    voxelt_y = voxelt[..., 1:, :] * voxelt[..., :-1, :]
+    voxelt_z = voxelt[..., 1:, :, :] * voxelt[..., :-1, :, :]
 
     # 12 x N x 1 x D x H x W
     faces_idx = torch.ones((cube_faces.size(0), N, 1, D, H, W), device=device)
-- 
2.43.0


From d717504ac32371dbc838d5171d19e9c741ac1ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 051/137] fix: cubify rejected device strings and returned
 misshapen empty meshes

---
 pytorch3d/ops/cubify.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/cubify.py b/pytorch3d/ops/cubify.py
index 737b8a0..a829fc6 100644
--- a/pytorch3d/ops/cubify.py
+++ b/pytorch3d/ops/cubify.py
@@ -11,6 +11,7 @@ from typing import Optional
 
 import torch
 from pytorch3d.common.compat import meshgrid_ij
+from pytorch3d.common.datatypes import make_device
 from pytorch3d.structures import Meshes
 
 
@@ -100,6 +101,7 @@ def cubify(
 
     if device is None:
         device = voxels.device
+    device = make_device(device)
 
     if align not in ["topleft", "corner", "center"]:
         raise ValueError("Align mode must be one of (topleft, corner, center).")
@@ -225,8 +227,8 @@ def cubify(
     grid_verts = torch.stack((x, y, z), dim=3).view(-1, 3)
 
     if len(nyxz) == 0:
-        verts_list = [torch.tensor([], dtype=torch.float32, device=device)] * N
-        faces_list = [torch.tensor([], dtype=torch.int64, device=device)] * N
+        verts_list = [torch.zeros((0, 3), dtype=torch.float32, device=device)] * N
+        faces_list = [torch.zeros((0, 3), dtype=torch.int64, device=device)] * N
         return Meshes(verts=verts_list, faces=faces_list)
 
     num_verts = grid_verts.size(0)
-- 
2.43.0


From 36b467d7a4c1a2d6a4a661c821464509f74e55f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 052/137] fix: marching cubes dropped the faces of a cell after
 a degenerate one

---
 .../marching_cubes/marching_cubes_cpu.cpp     | 19 +++++++++---------
 pytorch3d/ops/marching_cubes.py               | 20 ++++++++-----------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp b/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
index fa128e7..184c319 100644
--- a/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
+++ b/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
@@ -68,16 +68,17 @@ std::tuple<at::Tensor, at::Tensor, at::Tensor> MarchingCubesCpu(
 
           // Check if the triangle face is degenerate. A triangle face
           // is degenerate if any of the two verices share the same 3D position
-          if ((j + 1) % 3 == 0 && ps[0] != ps[1] && ps[1] != ps[2] &&
-              ps[2] != ps[0]) {
-            for (int k = 0; k < 3; k++) {
-              int64_t v = tri.at(k);
-              edge_id_to_v[v] = ps.at(k);
-              if (!uniq_edge_id.count(v)) {
-                uniq_edge_id[v] = verts.size();
-                verts.push_back(edge_id_to_v[v]);
+          if ((j + 1) % 3 == 0) {
+            if (ps[0] != ps[1] && ps[1] != ps[2] && ps[2] != ps[0]) {
+              for (int k = 0; k < 3; k++) {
+                int64_t v = tri.at(k);
+                edge_id_to_v[v] = ps.at(k);
+                if (!uniq_edge_id.count(v)) {
+                  uniq_edge_id[v] = verts.size();
+                  verts.push_back(edge_id_to_v[v]);
+                }
+                faces.push_back(uniq_edge_id[v]);
               }
-              faces.push_back(uniq_edge_id[v]);
             }
             tri.clear();
             ps.clear();
diff --git a/pytorch3d/ops/marching_cubes.py b/pytorch3d/ops/marching_cubes.py
index b6f90d8..d546fd0 100644
--- a/pytorch3d/ops/marching_cubes.py
+++ b/pytorch3d/ops/marching_cubes.py
@@ -198,18 +198,14 @@ def marching_cubes_naive(
                         ps.append(interp_points[edge])
                         # when the isolevel are the same as the edge endpoints, the interploated
                         # vertices can share the same values, and lead to degenerate triangles.
-                        if (
-                            (i + 1) % 3 == 0
-                            and ps[0] != ps[1]
-                            and ps[1] != ps[2]
-                            and ps[2] != ps[0]
-                        ):
-                            for j, edge_id in enumerate(tri):
-                                edge_id_to_v[edge_id] = ps[j]
-                                if edge_id not in uniq_edge_id:
-                                    uniq_edge_id[edge_id] = len(verts)
-                                    verts.append(edge_id_to_v[edge_id])
-                            faces.append([uniq_edge_id[tri[j]] for j in range(3)])
+                        if (i + 1) % 3 == 0:
+                            if ps[0] != ps[1] and ps[1] != ps[2] and ps[2] != ps[0]:
+                                for j, edge_id in enumerate(tri):
+                                    edge_id_to_v[edge_id] = ps[j]
+                                    if edge_id not in uniq_edge_id:
+                                        uniq_edge_id[edge_id] = len(verts)
+                                        verts.append(edge_id_to_v[edge_id])
+                                faces.append([uniq_edge_id[tri[j]] for j in range(3)])
                             tri = []
                             ps = []
 
-- 
2.43.0


From 3ae89848403d5917002827c3aa4684adf718ae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:39 +0000
Subject: [PATCH 053/137] fix: marching cubes merged unrelated vertices of
 large volumes

---
 .../csrc/marching_cubes/marching_cubes_utils.h      | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h b/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h
index 486e033..2de7451 100644
--- a/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h
+++ b/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h
@@ -138,8 +138,15 @@ struct Cube {
   int64_t HashVpair(const int edge, int W, int H, int D) {
     const int v1 = _EDGE_TO_VERTICES[edge][0];
     const int v2 = _EDGE_TO_VERTICES[edge][1];
-    const int v1_id = p[v1].x + p[v1].y * W + p[v1].z * W * H;
-    const int v2_id = p[v2].x + p[v2].y * W + p[v2].z * W * H;
-    return (int64_t)v1_id * (W + W * H + W * H * D) + (int64_t)v2_id;
+    const int64_t v1_id = VertexId(p[v1], W, H);
+    const int64_t v2_id = VertexId(p[v2], W, H);
+    const int64_t WH = (int64_t)W * H;
+    return v1_id * (W + WH + WH * D) + v2_id;
+  }
+
+  // Global id of a corner, in integers: a float cannot tell the corners of
+  // large volumes apart
+  static int64_t VertexId(const Vertex& v, int64_t W, int64_t H) {
+    return (int64_t)v.x + ((int64_t)v.y + (int64_t)v.z * H) * W;
   }
 };
-- 
2.43.0


From 0869e12765f500eb6f81b4441fb1370010634080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 054/137] fix: box3d_overlap accepted boxes whose faces are
 bent in opposite directions

---
 pytorch3d/ops/iou_box3d.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/ops/iou_box3d.py b/pytorch3d/ops/iou_box3d.py
index 5b24581..036bc8f 100644
--- a/pytorch3d/ops/iou_box3d.py
+++ b/pytorch3d/ops/iou_box3d.py
@@ -61,9 +61,8 @@ def _check_coplanar(boxes: torch.Tensor, eps: float = 1e-4) -> None:
     normal = F.normalize(torch.cross(e0, e1, dim=-1), dim=-1)
 
     # Check the fourth vertex is also on the same plane
-    mat1 = (v3 - v0).view(B, 1, -1)  # (B, 1, P*3)
-    mat2 = normal.view(B, -1, 1)  # (B, P*3, 1)
-    if not (mat1.bmm(mat2).abs() < eps).all().item():
+    distance = ((v3 - v0) * normal).sum(dim=-1)  # (B, P)
+    if not (distance.abs() < eps).all().item():
         msg = "Plane vertices are not coplanar"
         raise ValueError(msg)
 
-- 
2.43.0


From b698327dd0177aff69d9cd563a2eac4b3f96332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 055/137] fix: iterative_closest_point ignored padding when
 sizes are equal but heterogeneous

---
 pytorch3d/ops/points_alignment.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index 1ae50cd..6ca2969 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -114,9 +114,7 @@ def iterative_closest_point(
         )
 
     # pyrefly: ignore [missing-attribute]
-    if ((num_points_Y < Yt.shape[1]).any() or (num_points_X < Xt.shape[1]).any()) and (
-        num_points_Y != num_points_X
-    ).any():
+    if (num_points_Y < Yt.shape[1]).any() or (num_points_X < Xt.shape[1]).any():
         # we have a heterogeneous input (e.g. because X/Y is
         # an instance of Pointclouds)
         mask_X = (
-- 
2.43.0


From af4bcae9d30ddcafe632022d4d834626ad47f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 056/137] fix: iterative_closest_point never converged once the
 error reached zero

---
 pytorch3d/ops/points_alignment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index 6ca2969..f0d7166 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -202,7 +202,10 @@ def iterative_closest_point(
         if prev_rmse is None:
             relative_rmse = rmse.new_ones(b)
         else:
-            relative_rmse = (prev_rmse - rmse) / prev_rmse
+            # an rmse which has already reached 0 cannot decrease any further
+            relative_rmse = (prev_rmse - rmse) / prev_rmse.clamp(
+                torch.finfo(prev_rmse.dtype).tiny
+            )
 
         if verbose:
             rmse_msg = (
-- 
2.43.0


From d801404ed0be8fcf7ed81dde24bd6e9fc154458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 057/137] fix: corresponding_points_alignment squared the
 weights

---
 pytorch3d/ops/points_alignment.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index f0d7166..450bbd5 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -339,10 +339,10 @@ def corresponding_points_alignment(
     Yc = Yt - Ymu
 
     total_weight = torch.clamp(num_points, 1)
+    Xc_weighted = Xc
     # special handling for heterogeneous point clouds and/or input weights
     if weights is not None:
-        Xc *= weights[:, :, None]
-        Yc *= weights[:, :, None]
+        Xc_weighted = Xc * weights[:, :, None]
         total_weight = torch.clamp(weights.sum(1), eps)
 
     if (num_points < (dim + 1)).any():
@@ -352,7 +352,7 @@ def corresponding_points_alignment(
         )
 
     # compute the covariance XYcov between the point sets Xc, Yc
-    XYcov = torch.bmm(Xc.transpose(2, 1), Yc)
+    XYcov = torch.bmm(Xc_weighted.transpose(2, 1), Yc)
     XYcov = XYcov / total_weight[:, None, None]
 
     # decompose the covariance matrix XYcov
@@ -385,7 +385,7 @@ def corresponding_points_alignment(
     if estimate_scale:
         # estimate the scaling component of the transformation
         trace_ES = (torch.diagonal(E, dim1=1, dim2=2) * S).sum(1)
-        Xcov = (Xc * Xc).sum((1, 2)) / total_weight
+        Xcov = (Xc_weighted * Xc).sum((1, 2)) / total_weight
 
         # the scaling component
         s = trace_ES / torch.clamp(Xcov, eps)
-- 
2.43.0


From 0ba9ad210e695f15e34e3900b742b21bc29c6e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 058/137] fix: corresponding_cameras_alignment by extrinsics
 could return a reflection

---
 pytorch3d/ops/cameras_alignment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/ops/cameras_alignment.py b/pytorch3d/ops/cameras_alignment.py
index 5986206..e137540 100644
--- a/pytorch3d/ops/cameras_alignment.py
+++ b/pytorch3d/ops/cameras_alignment.py
@@ -185,7 +185,10 @@ def _align_camera_extrinsics(
     #  Tensor, Module]` is not a function.
     RRcov = torch.bmm(cameras_src.R, cameras_tgt.R.transpose(2, 1)).mean(0)
     U, _, V = torch.svd(RRcov)
-    align_t_R = V @ U.t()
+    # U @ V.t() can be a reflection: flip the direction that matters least
+    flip = torch.ones_like(RRcov[0])
+    flip[-1] = torch.det(U @ V.t())
+    align_t_R = (V * flip) @ U.t()
 
     """
     The translation + scale `T_A` and `s_A` is computed by finding
-- 
2.43.0


From 3c571ef103bd1bd10b536f0f56fdcd125a9d1135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 059/137] fix: point-mesh CPU kernels mixed batch elements
 after an empty one

---
 pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
index 35c0b8c..f58cb23 100644
--- a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
+++ b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
@@ -184,7 +184,7 @@ std::tuple<at::Tensor, at::Tensor> HullHullDistanceForwardCpu(
   int64_t b_batch_start = 0, b_batch_end = 0;
   int64_t batch_idx = 0;
   for (int64_t a_n = 0; a_n < A_N; ++a_n) {
-    if (a_n == a_batch_end) {
+    while (a_n == a_batch_end) {
       ++batch_idx;
       b_batch_start = b_batch_end;
       if (batch_idx == BATCHES) {
-- 
2.43.0


From 9eee2083cd81277c65a8f4ffe1b1eee77e339d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 060/137] fix: sample_points_from_meshes with textures failed
 on batches with empty meshes

---
 pytorch3d/ops/sample_points_from_meshes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/sample_points_from_meshes.py b/pytorch3d/ops/sample_points_from_meshes.py
index e545cac..570923c 100644
--- a/pytorch3d/ops/sample_points_from_meshes.py
+++ b/pytorch3d/ops/sample_points_from_meshes.py
@@ -125,8 +125,11 @@ def sample_points_from_meshes(
 
     if return_textures:
         # fragment data are of shape NxHxWxK. Here H=S, W=1 & K=1.
-        pix_to_face = sample_face_idxs.view(len(meshes), num_samples, 1, 1)  # NxSx1x1
-        bary = torch.stack((w0, w1, w2), dim=2).unsqueeze(2).unsqueeze(2)  # NxSx1x1x3
+        # Empty meshes have no samples: their fragments are those of the background.
+        pix_to_face = sample_face_idxs.new_full((num_meshes, num_samples, 1, 1), -1)
+        pix_to_face[meshes.valid] = sample_face_idxs[:, :, None, None]  # NxSx1x1
+        bary = w0.new_zeros((num_meshes, num_samples, 1, 1, 3))  # NxSx1x1x3
+        bary[meshes.valid] = torch.stack((w0, w1, w2), dim=2)[:, :, None, None]
         # zbuf and dists are not used in `sample_textures` so we initialize them with dummy
         dummy = torch.zeros(
             (len(meshes), num_samples, 1, 1), device=meshes.device, dtype=torch.float32
@@ -136,6 +139,7 @@ def sample_points_from_meshes(
         )
         textures = meshes.sample_textures(fragments)  # NxSx1x1xC
         textures = textures[:, :, 0, 0, :]  # NxSxC
+        textures = textures * meshes.valid[:, None, None].to(textures.dtype)
 
     # return
     # TODO(gkioxari) consider returning a Pointclouds instance [breaking]
-- 
2.43.0


From 74e02e47b3c100bb614137d485690cf94b810e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 061/137] fix: IO.save_mesh ignored include_textures=False

---
 pytorch3d/io/pluggable.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pytorch3d/io/pluggable.py b/pytorch3d/io/pluggable.py
index 4e9951a..d672510 100644
--- a/pytorch3d/io/pluggable.py
+++ b/pytorch3d/io/pluggable.py
@@ -163,6 +163,15 @@ class IO:
         if len(data) != 1:
             raise ValueError("Can only save a single mesh.")
 
+        if not include_textures and data.textures is not None:
+            data = Meshes(
+                verts=data.verts_list(),
+                faces=data.faces_list(),
+                verts_normals=(
+                    [data.verts_normals_packed()] if data.has_verts_normals() else None
+                ),
+            )
+
         for mesh_interpreter in self.mesh_interpreters:
             success = mesh_interpreter.save(
                 data, path, path_manager=self.path_manager, binary=binary, **kwargs
-- 
2.43.0


From cdef521c7ffc40d50454fb77d7ba139510ea17f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 062/137] fix: loading OFF files ignored include_textures=False

---
 pytorch3d/io/off_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index 0ef4049..029492d 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -444,7 +444,9 @@ class MeshOffFormat(MeshFormatInterpreter):
             faces = torch.zeros((0, 3), dtype=torch.int64, device=device)
 
         textures = None
-        if "verts_colors" in data:
+        if not include_textures:
+            pass
+        elif "verts_colors" in data:
             if "faces_colors" in data:
                 msg = "Faces colors ignored because vertex colors provided too."
                 warnings.warn(msg)
-- 
2.43.0


From c4d9bf5e9493d8aa5544763f289bcbc67bf50d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 063/137] fix: PLY vertices with only reordered x, y, z columns
 were read in file order

---
 pytorch3d/io/ply_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index ec517b2..1756d23 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -941,6 +941,7 @@ def _get_verts(header: _PlyHeader, elements: dict) -> _VertsData:
         and isinstance(vertex[0], np.ndarray)
         and vertex[0].ndim == 2
         and vertex[0].shape[1] == 3
+        and column_idxs.point_idxs == [0, 1, 2]
     ):
         return _VertsData(verts=_make_tensor(vertex[0], cols=3, dtype=torch.float32))
 
-- 
2.43.0


From 593c2df106a97d422726add57a7182cd39e46a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 064/137] fix: ascii PLY elements mixing lists with float32 or
 float64 scalars were rejected

---
 pytorch3d/io/ply_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 1756d23..79ee62c 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -414,7 +414,7 @@ def _parse_heterogeneous_property_ascii(datum, line_iter, property: _Property):
         raise ValueError("Too little data for an element.")
     if property.list_size_type is None:
         try:
-            if property.data_type in ["double", "float"]:
+            if property.data_type in ["double", "float", "float32", "float64"]:
                 datum.append(float(value))
             else:
                 datum.append(int(value))
-- 
2.43.0


From f6d177eeab53d6a371f88d74d8fdfdd7d499134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 065/137] fix: saving a GLB flipped the verts_uvs of the saved
 mesh in place

---
 pytorch3d/io/experimental_gltf_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 2073d12..b5e2b0d 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -627,7 +627,7 @@ class _GLTFWriter:
         elif key == "texcoords":
             component_type = _ComponentType.FLOAT
             # pyrefly: ignore [missing-attribute]
-            data = self.mesh.textures.verts_uvs_list()[0].cpu().numpy()
+            data = self.mesh.textures.verts_uvs_list()[0].cpu().numpy().copy()
             data[:, 1] = 1 - data[:, -1]  # flip y tex-coordinate
             element_type = "VEC2"
             buffer_view = 2
-- 
2.43.0


From cca5dfd3f525f374ca1c7d246a332e9f9dccc1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 066/137] fix: GLB files wrapped vertex indices above 65535 and
 were unreadable for textured meshes with an odd number of faces

---
 pytorch3d/io/experimental_gltf_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index b5e2b0d..29619e2 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -644,7 +644,7 @@ class _GLTFWriter:
             element_max = list(map(float, np.max(data, axis=0)))
             byte_per_element = 3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
         elif key == "indices":
-            component_type = _ComponentType.UNSIGNED_SHORT
+            component_type = _ComponentType.UNSIGNED_INT
             data = (
                 self.mesh.faces_packed()
                 .cpu()
@@ -656,7 +656,7 @@ class _GLTFWriter:
             element_min = list(map(int, np.min(data, keepdims=True)))
             element_max = list(map(int, np.max(data, keepdims=True)))
             byte_per_element = (
-                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_SHORT]]
+                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_INT]]
             )
         else:
             raise NotImplementedError(
@@ -702,7 +702,7 @@ class _GLTFWriter:
             bufferview["byteStride"] = int(byte_per_element)
         elif key == "indices":
             byte_per_element = (
-                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_SHORT]]
+                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_INT]]
             )
             target = _TargetType.ELEMENT_ARRAY_BUFFER
 
-- 
2.43.0


From 27c395c84d595b8baaa0b95692e12cbe99498611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 067/137] fix: GLB files of meshes whose vertex colors do not
 have 3 channels were corrupt

---
 pytorch3d/io/experimental_gltf_io.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 29619e2..dbead77 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -638,11 +638,15 @@ class _GLTFWriter:
             component_type = _ComponentType.FLOAT
             # pyrefly: ignore [missing-attribute]
             data = self.mesh.textures.verts_features_list()[0].cpu().numpy()
-            element_type = "VEC3"
+            if data.shape[1] not in (3, 4):
+                raise ValueError("Vertex colors must have 3 or 4 channels.")
+            element_type = "VEC%d" % data.shape[1]
             buffer_view = 2
             element_min = list(map(float, np.min(data, axis=0)))
             element_max = list(map(float, np.max(data, axis=0)))
-            byte_per_element = 3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
+            byte_per_element = (
+                data.shape[1] * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
+            )
         elif key == "indices":
             component_type = _ComponentType.UNSIGNED_INT
             data = (
@@ -697,7 +701,10 @@ class _GLTFWriter:
             target = _TargetType.ARRAY_BUFFER
             bufferview["byteStride"] = int(byte_per_element)
         elif key == "texvertices":
-            byte_per_element = 3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
+            n_colors = self.mesh.textures.verts_features_list()[0].shape[1]
+            byte_per_element = (
+                n_colors * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
+            )
             target = _TargetType.ELEMENT_ARRAY_BUFFER
             bufferview["byteStride"] = int(byte_per_element)
         elif key == "indices":
-- 
2.43.0


From 68d5f15670f234de2c21885734071ec23eba2539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 068/137] fix: glTF node matrices were applied transposed

---
 pytorch3d/io/experimental_gltf_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index dbead77..e933060 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -175,8 +175,11 @@ def _make_node_transform(node: Dict[str, Any]) -> Transform3d:
     Transform3d format.
     """
     array = node.get("matrix")
-    if array is not None:  # Stored in column-major order
-        M = np.array(array, dtype=np.float32).reshape(4, 4, order="F")
+    if array is not None:
+        # Stored in column-major order
+        # and acting on column vectors, which is the row-major order of the
+        # transposed matrix acting on row vectors which Transform3d expects.
+        M = np.array(array, dtype=np.float32).reshape(4, 4)
         return Transform3d(matrix=torch.from_numpy(M))
 
     out = Transform3d()
-- 
2.43.0


From 1ac2d370c236d053542933645c7c7a81e3056287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 069/137] fix: normalized integer glTF attributes were not
 scaled

---
 pytorch3d/io/experimental_gltf_io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index e933060..b561c85 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -362,12 +362,12 @@ class _GLTFLoader:
         primitive_attribute = self._access_data(accessor_index)
         if key == "JOINTS_0":
             pass
-        elif dtype == np.uint8:
-            primitive_attribute /= 255.0
-        elif dtype == np.uint16:
-            primitive_attribute /= 65535.0
+        elif primitive_attribute.dtype == np.uint8:
+            primitive_attribute = primitive_attribute / 255.0
+        elif primitive_attribute.dtype == np.uint16:
+            primitive_attribute = primitive_attribute / 65535.0
         else:
-            if dtype != np.float32:
+            if primitive_attribute.dtype != np.float32:
                 raise ValueError("Unexpected data type")
         primitive_attribute = primitive_attribute.astype(dtype)
         return primitive_attribute
-- 
2.43.0


From 76a6abb41920fe98417ba2980df37a6dd8fb90d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 070/137] fix: glTF accessors interleaved at the end of a
 buffer could not be read

---
 pytorch3d/io/experimental_gltf_io.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index b561c85..0727a55 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -343,9 +343,13 @@ class _GLTFLoader:
         if byte_offset % item_size != 0:
             raise ValueError("Misaligned data")
         byte_length = element_count * element_byte_stride
-        buffer_view = binary_data[byte_offset : byte_offset + byte_length].view(dtype)[
-            "element"
-        ]
+        element_data = binary_data[byte_offset : byte_offset + byte_length]
+        n_missing = byte_length - len(element_data)
+        if 0 < n_missing <= element_byte_stride - item_size * item_count:
+            # The stride of the last of some interleaved elements may
+            # reach past the end of the data.
+            element_data = np.pad(element_data, (0, n_missing))
+        buffer_view = element_data.view(dtype)["element"]
 
         # Convert matrix data from column-major (OpenGL) to row-major order
         if element_type in ("MAT2", "MAT3", "MAT4"):
-- 
2.43.0


From b7dfcf66e6ab9525cf874c24e81a100bacd8b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 071/137] fix: GLB files ignored the faces_uvs of the texture

---
 pytorch3d/io/experimental_gltf_io.py | 33 +++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 0727a55..7dd58b5 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -555,10 +555,41 @@ def load_meshes(
     return names_meshes_list
 
 
+def _get_mesh_with_uv_per_vertex(mesh: Meshes) -> Meshes:
+    """
+    The uv coordinates in glTF belong to the vertices. If the (single) mesh has
+    a TexturesUV whose faces_uvs differ from the faces, return an equivalent mesh
+    where vertices are repeated for each of their different uv coordinates.
+    Otherwise the mesh is returned.
+    """
+    textures = mesh.textures
+    if not isinstance(textures, TexturesUV):
+        return mesh
+    verts, faces = mesh.verts_list()[0], mesh.faces_list()[0]
+    verts_uvs, faces_uvs = textures.verts_uvs_list()[0], textures.faces_uvs_list()[0]
+    if len(verts) == len(verts_uvs) and faces.equal(faces_uvs):
+        return mesh
+    pairs, new_faces = torch.unique(
+        torch.stack([faces.reshape(-1), faces_uvs.reshape(-1)]),
+        dim=1,
+        return_inverse=True,
+    )
+    new_faces = new_faces.reshape(-1, 3)
+    return Meshes(
+        verts=[verts[pairs[0]]],
+        faces=[new_faces],
+        textures=TexturesUV(
+            maps=textures.maps_list(),
+            faces_uvs=[new_faces],
+            verts_uvs=[verts_uvs[pairs[1]]],
+        ),
+    )
+
+
 class _GLTFWriter:
     def __init__(self, data: Meshes, buffer_stream: BinaryIO) -> None:
         self._json_data = defaultdict(list)
-        self.mesh = data
+        self.mesh = _get_mesh_with_uv_per_vertex(data.detach())
         self.buffer_stream = buffer_stream
 
         # initialize json with one scene and one node
-- 
2.43.0


From cc8c7e9821e85c77a986d1b7a305d5e4ebb54a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 072/137] fix: save_obj did not use the path_manager for the
 files of the texture

---
 pytorch3d/io/obj_io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index e1862fc..30bbbf7 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -759,6 +759,7 @@ def save_obj(
         path_manager = PathManager()
 
     save_texture = all(t is not None for t in [faces_uvs, verts_uvs, texture_map])
+    path = f
     output_path = Path(f)
 
     # Save the .obj file
@@ -787,10 +788,10 @@ def save_obj(
     if save_texture:
         image_path = output_path.with_suffix(".png")
         mtl_path = output_path.with_suffix(".mtl")
-        if isinstance(f, str):
-            # Back to str for iopath interpretation.
-            image_path = str(image_path)
-            mtl_path = str(mtl_path)
+        if isinstance(path, str):
+            # Keep str for iopath interpretation.
+            image_path = os.path.splitext(path)[0] + ".png"
+            mtl_path = os.path.splitext(path)[0] + ".mtl"
 
         # Save texture map to output folder
         # pyre-fixme[16] # undefined attribute cpu
-- 
2.43.0


From cd49a814a3d80190c391ce6fc31e8515cbc354cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 073/137] fix: negative indices in OBJ files were resolved
 against the end of the file

---
 pytorch3d/io/obj_io.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index 30bbbf7..804491b 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -371,7 +371,15 @@ def _parse_face(
     faces_normals_idx,
     faces_textures_idx,
     faces_materials_idx,
+    n_verts,
+    n_normals,
+    n_textures,
 ) -> None:
+    def parse_index(index: str, n_defined: int) -> int:
+        # Negative indices are relative to the values defined so far.
+        idx = int(index)
+        return n_defined + 1 + idx if -n_defined <= idx < 0 else idx
+
     face = tokens[1:]
     face_list = [f.split("/") for f in face]
     face_verts = []
@@ -380,14 +388,14 @@ def _parse_face(
 
     for vert_props in face_list:
         # Vertex index.
-        face_verts.append(int(vert_props[0]))
+        face_verts.append(parse_index(vert_props[0], n_verts))
         if len(vert_props) > 1:
             if vert_props[1] != "":
                 # Texture index is present e.g. f 4/1/1.
-                face_textures.append(int(vert_props[1]))
+                face_textures.append(parse_index(vert_props[1], n_textures))
             if len(vert_props) > 2:
                 # Normal index present e.g. 4/1/1 or 4//1.
-                face_normals.append(int(vert_props[2]))
+                face_normals.append(parse_index(vert_props[2], n_normals))
             if len(vert_props) > 3:
                 raise ValueError(
                     "Face vertices can only have 3 properties. \
@@ -502,6 +510,9 @@ def _parse_obj(f, data_dir: str):
                 faces_normals_idx,
                 faces_textures_idx,
                 faces_materials_idx,
+                len(verts),
+                len(normals),
+                len(verts_uvs),
             )
 
     return (
-- 
2.43.0


From 69b74063cf8deb95b65dd8fdf4a0c640809fc90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:44 +0000
Subject: [PATCH 074/137] fix: textured OBJ files without faces or without
 texture coordinates could not be loaded

---
 pytorch3d/io/obj_io.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index 804491b..e0500e8 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -281,7 +281,11 @@ def load_objs_as_meshes(
         else:
             # TexturesUV type
             tex_maps = aux.texture_images
-            if tex_maps is not None and len(tex_maps) > 0:
+            if (
+                tex_maps is not None
+                and len(tex_maps) > 0
+                and aux.verts_uvs is not None
+            ):
                 verts_uvs = aux.verts_uvs.to(device)  # (V, 2)
                 faces_uvs = faces.textures_idx.to(device)  # (F, 3)
                 image = list(tex_maps.values())[0].to(device)[None]
@@ -625,18 +629,15 @@ def _load_obj(
     )
 
     # Repeat for normals and textures if present.
-    if len(faces_normals_idx):
-        faces_normals_idx = _format_faces_indices(
-            faces_normals_idx, normals.shape[0], device=device, pad_value=-1
-        )
-    if len(faces_textures_idx):
-        faces_textures_idx = _format_faces_indices(
-            faces_textures_idx, verts_uvs.shape[0], device=device, pad_value=-1
-        )
-    if len(faces_materials_idx):
-        faces_materials_idx = torch.tensor(
-            faces_materials_idx, dtype=torch.int64, device=device
-        )
+    faces_normals_idx = _format_faces_indices(
+        faces_normals_idx, normals.shape[0], device=device, pad_value=-1
+    )
+    faces_textures_idx = _format_faces_indices(
+        faces_textures_idx, verts_uvs.shape[0], device=device, pad_value=-1
+    )
+    faces_materials_idx = torch.tensor(
+        faces_materials_idx, dtype=torch.int64, device=device
+    )
 
     texture_atlas = None
     material_colors, texture_images = _load_materials(
-- 
2.43.0


From f4ad3f27ee4515a67a7688702f4789cb30045da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:44 +0000
Subject: [PATCH 075/137] fix: OFF files without vertices could not be loaded

---
 pytorch3d/io/off_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index 029492d..76d4dae 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -180,6 +180,9 @@ def _read_verts(file, n_verts: int) -> Tuple[np.ndarray, Optional[np.ndarray]]:
         vertex colors.
     """
 
+    if n_verts == 0:
+        return np.zeros((0, 3), dtype=np.float32), None
+
     color_is_int = 3 == _count_next_line_periods(file)
     color_scale = 1 / 255.0 if color_is_int else 1
 
-- 
2.43.0


From 3b32c768d02c19fa56c0d957ee855feee9b125fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 076/137] fix: saving PLY files of meshes without faces but
 with normals failed

---
 pytorch3d/io/ply_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 79ee62c..c732e6f 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -1452,7 +1452,7 @@ class MeshPlyFormat(MeshFormatInterpreter):
         faces = data.faces_list()[0]
 
         if data.has_verts_normals():
-            verts_normals = data.verts_normals_list()[0]
+            verts_normals = data.verts_normals_packed()
         else:
             verts_normals = None
 
-- 
2.43.0


From c11f0fb3a3e3900617455a1cdada462addbd871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 077/137] fix: create members inherited from a grandparent
 config class only once

---
 pytorch3d/implicitron/tools/config.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/tools/config.py b/pytorch3d/implicitron/tools/config.py
index 431be1a..01e86e8 100644
--- a/pytorch3d/implicitron/tools/config.py
+++ b/pytorch3d/implicitron/tools/config.py
@@ -893,8 +893,20 @@ def expand_args_fields(
             continue
         expand_args_fields(base, _do_not_process=_do_not_process)
         if "_creation_functions" in base.__dict__:
-            # pyrefly: ignore [missing-attribute]
-            creation_functions.extend(base._creation_functions)
+            # base._creation_functions includes those inherited from its own
+            # bases, which are also visited by this loop.
+            inherited = {
+                function
+                for ancestor in base.mro()[1:]
+                for function in ancestor.__dict__.get("_creation_functions", ())
+            }
+            creation_functions.extend(
+                function
+                # pyre-fixme[16]: `ReplaceableBase` has no attribute
+                #  `_creation_functions`.
+                for function in base._creation_functions
+                if function not in inherited
+            )
         if "_known_implementations" in base.__dict__:
             # pyrefly: ignore [missing-attribute]
             known_implementations.update(base._known_implementations)
-- 
2.43.0


From b59aead7a11bd390b2a8762fb4afcb229374dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 078/137] fix: remove_unused_components keeps members whose
 names extend the name of a replaceable

---
 pytorch3d/implicitron/tools/config.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/implicitron/tools/config.py b/pytorch3d/implicitron/tools/config.py
index 01e86e8..2cddfb4 100644
--- a/pytorch3d/implicitron/tools/config.py
+++ b/pytorch3d/implicitron/tools/config.py
@@ -902,8 +902,7 @@ def expand_args_fields(
             }
             creation_functions.extend(
                 function
-                # pyre-fixme[16]: `ReplaceableBase` has no attribute
-                #  `_creation_functions`.
+                # pyrefly: ignore [missing-attribute]
                 for function in base._creation_functions
                 if function not in inherited
             )
@@ -1204,16 +1203,20 @@ def remove_unused_components(dict_: DictConfig) -> None:
     suffix_length = len(TYPE_SUFFIX)
     replaceables = [key[:-suffix_length] for key in keys if key.endswith(TYPE_SUFFIX)]
     args_keys = [key for key in keys if key.endswith(ARGS_SUFFIX)]
+    # The args of configurable members, which are not those of a pluggable type
+    # even if the name of the member starts like the one of a replaceable member.
+    members = getattr(OmegaConf.get_type(dict_), "_processed_members", {})
+    expected = {name + ARGS_SUFFIX for name in members}
     for replaceable in replaceables:
         selected_type = dict_[replaceable + TYPE_SUFFIX]
-        if selected_type is None:
-            expect = ""
-        else:
-            expect = replaceable + "_" + selected_type + ARGS_SUFFIX
-        with open_dict(dict_):
-            for key in args_keys:
-                if key.startswith(replaceable + "_") and key != expect:
-                    del dict_[key]
+        if selected_type is not None:
+            expected.add(replaceable + "_" + selected_type + ARGS_SUFFIX)
+    with open_dict(dict_):
+        for key in args_keys:
+            if key not in expected and any(
+                key.startswith(replaceable + "_") for replaceable in replaceables
+            ):
+                del dict_[key]
 
     suffix_length = len(ENABLED_SUFFIX)
     enableables = [key[:-suffix_length] for key in keys if key.endswith(ENABLED_SUFFIX)]
-- 
2.43.0


From 9ae7d4111c8d0a37990fd3d0036413e8a6257111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 079/137] fix: do not apply the learning rate decay twice when
 resuming the implicitron trainer

---
 projects/implicitron_trainer/impl/optimizer_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/implicitron_trainer/impl/optimizer_factory.py b/projects/implicitron_trainer/impl/optimizer_factory.py
index 2305979..63f6d18 100644
--- a/projects/implicitron_trainer/impl/optimizer_factory.py
+++ b/projects/implicitron_trainer/impl/optimizer_factory.py
@@ -160,6 +160,10 @@ class ImplicitronOptimizerFactory(OptimizerFactoryBase):
         if optimizer_state is not None:
             logger.info("Setting loaded optimizer state.")
             optimizer.load_state_dict(optimizer_state)
+            # The stored learning rates have already been decayed. The scheduler,
+            # which is stepped last_epoch times below, starts with the initial ones.
+            for group in optimizer.param_groups:
+                group["lr"] = group.get("initial_lr", group["lr"])
 
         # Initialize the learning rate scheduler
         if self.lr_policy.casefold() == "MultiStepLR".casefold():
-- 
2.43.0


From 576b55f6e95a690662fe90cf8144e1b755c40f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 080/137] fix: safe_save_model leaves no incomplete checkpoint
 when interrupted

---
 pytorch3d/implicitron/tools/model_io.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/implicitron/tools/model_io.py b/pytorch3d/implicitron/tools/model_io.py
index d7942d0..313375f 100644
--- a/pytorch3d/implicitron/tools/model_io.py
+++ b/pytorch3d/implicitron/tools/model_io.py
@@ -59,14 +59,16 @@ def safe_save_model(model, stats, fl, optimizer=None, cfg=None) -> None:
     file system in case the saving procedure gets interrupted.
 
     This is done first by saving the model files to a temporary directory followed
-    by (atomic) moves to the target location. Note, that this can still result
-    in a corrupt set of model files in case interruption happens while performing
-    the moves. It is however quite improbable that a crash would occur right at
-    this time.
+    by (atomic) moves to the target location. The temporary directory is on the same
+    file system as the target, because moves between file systems are not atomic.
+    The model itself, which is what `find_last_checkpoint` looks for, is moved last,
+    so that the files of a new checkpoint are complete once it is there.
     """
     logger.info(f"saving model files safely to {fl}")
     # first store everything to a tmpdir
-    with tempfile.TemporaryDirectory() as tmpdir:
+    with tempfile.TemporaryDirectory(
+        dir=os.path.dirname(os.path.abspath(fl))
+    ) as tmpdir:
         tmpfl = os.path.join(tmpdir, os.path.split(fl)[-1])
         stored_tmp_fls = save_model(model, stats, tmpfl, optimizer=optimizer, cfg=cfg)
         tgt_fls = [
@@ -77,8 +79,12 @@ def safe_save_model(model, stats, fl, optimizer=None, cfg=None) -> None:
             )
             for tmpfl in stored_tmp_fls
         ]
-        # then move from the tmpdir to the right location
-        for tmpfl, tgt_fl in zip(stored_tmp_fls, tgt_fls):
+        # then move from the tmpdir to the right location, the model last
+        moves = sorted(
+            zip(stored_tmp_fls, tgt_fls),
+            key=lambda move: move[1] == get_model_path(fl),
+        )
+        for tmpfl, tgt_fl in moves:
             if tgt_fl is None:
                 continue
             shutil.move(tmpfl, tgt_fl)
-- 
2.43.0


From 37b39ea2fd28da5b61068df2c7d713d98703470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 081/137] fix: Adam checkpoints of the implicitron trainer can
 be loaded again

---
 projects/implicitron_trainer/impl/optimizer_factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/implicitron_trainer/impl/optimizer_factory.py b/projects/implicitron_trainer/impl/optimizer_factory.py
index 63f6d18..c0e7cd2 100644
--- a/projects/implicitron_trainer/impl/optimizer_factory.py
+++ b/projects/implicitron_trainer/impl/optimizer_factory.py
@@ -141,7 +141,8 @@ class ImplicitronOptimizerFactory(OptimizerFactoryBase):
             optimizer_class = torch.optim.Adagrad
         elif self.breed == "Adam":
             optimizer_class = torch.optim.Adam
-            optimizer_kwargs["betas"] = self.betas
+            # not a ListConfig, because it becomes part of the checkpoints
+            optimizer_kwargs["betas"] = tuple(self.betas)
         else:
             raise ValueError(f"No such solver type {self.breed}")
 
-- 
2.43.0


From 439c9108875443fbb64e6e0e78a82c57b3345b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 082/137] fix: <member>.self in param_groups sets the default
 group of the member

---
 .../implicitron_trainer/impl/optimizer_factory.py  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/projects/implicitron_trainer/impl/optimizer_factory.py b/projects/implicitron_trainer/impl/optimizer_factory.py
index c0e7cd2..915cef3 100644
--- a/projects/implicitron_trainer/impl/optimizer_factory.py
+++ b/projects/implicitron_trainer/impl/optimizer_factory.py
@@ -302,17 +302,17 @@ class ImplicitronOptimizerFactory(OptimizerFactoryBase):
                 mapping: known mappings of parameters to groups for this module,
                     destructively modified by this function.
             """
-            # If key self is defined in param_groups then chenge the default param
-            # group for all parameters and children in the module.
-            if hasattr(module, "param_groups") and "self" in module.param_groups:
-                default_group = module.param_groups["self"]
+            if hasattr(module, "param_groups"):
+                mapping.update(module.param_groups)
+
+            # If key self is defined in param_groups, or as <this module>.self in
+            # those of a parent, then change the default param group for all
+            # parameters and children in the module.
+            default_group = mapping.get("self", default_group)
 
             # Collect all the parameters that are directly inside the `module`,
             # they will be in the default param group if they don't have
             # defined group.
-            if hasattr(module, "param_groups"):
-                mapping.update(module.param_groups)
-
             for name, param in module.named_parameters(recurse=False):
                 if param.requires_grad:
                     group_name = mapping.get(name, default_group)
-- 
2.43.0


From 6814fbb07fabdad1196d162ecc17e4f14617f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 083/137] fix: Stats.add_log_vars does not add variables twice

---
 pytorch3d/implicitron/tools/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/stats.py b/pytorch3d/implicitron/tools/stats.py
index 2798b63..9c4f79c 100644
--- a/pytorch3d/implicitron/tools/stats.py
+++ b/pytorch3d/implicitron/tools/stats.py
@@ -195,7 +195,7 @@ class Stats:
 
     def add_log_vars(self, added_log_vars):
         for add_log_var in added_log_vars:
-            if add_log_var not in self.stats:
+            if add_log_var not in self.log_vars:
                 logger.debug(f"Adding {add_log_var}")
                 self.log_vars.append(add_log_var)
 
-- 
2.43.0


From 66178715b819e1957416650d3f0f669429769670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 084/137] fix: crop depth maps of another resolution than the
 image at the right place

---
 pytorch3d/implicitron/dataset/frame_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/frame_data.py b/pytorch3d/implicitron/dataset/frame_data.py
index 5ec6214..b64c680 100644
--- a/pytorch3d/implicitron/dataset/frame_data.py
+++ b/pytorch3d/implicitron/dataset/frame_data.py
@@ -300,8 +300,8 @@ class FrameData(Mapping[str, Any]):
                 # pyrefly: ignore [bad-argument-type]
                 clamp_bbox_xyxy,
                 # pyrefly: ignore [bad-argument-type]
+                tuple(effective_image_size_hw.tolist()),
                 tuple(depth_map.shape[-2:]),
-                effective_image_size_hw,
             ).long()
             self.depth_map = crop_around_box(
                 depth_map,
@@ -315,8 +315,8 @@ class FrameData(Mapping[str, Any]):
                 # pyrefly: ignore [bad-argument-type]
                 clamp_bbox_xyxy,
                 # pyrefly: ignore [bad-argument-type]
+                tuple(effective_image_size_hw.tolist()),
                 tuple(depth_mask.shape[-2:]),
-                effective_image_size_hw,
             ).long()
             self.depth_mask = crop_around_box(
                 depth_mask,
-- 
2.43.0


From 1536841a08888c8f6d2a2516de048d6fa68e8d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 085/137] fix: collated sequence_point_cloud_idx can index the
 point clouds

---
 pytorch3d/implicitron/dataset/frame_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/frame_data.py b/pytorch3d/implicitron/dataset/frame_data.py
index b64c680..fd658ab 100644
--- a/pytorch3d/implicitron/dataset/frame_data.py
+++ b/pytorch3d/implicitron/dataset/frame_data.py
@@ -412,7 +412,7 @@ class FrameData(Mapping[str, Any]):
                 id_to_idx[pc_id].append(i)
 
             sequence_point_cloud = []
-            sequence_point_cloud_idx = -np.ones((len(batch),))
+            sequence_point_cloud_idx = -np.ones((len(batch),), dtype=np.int64)
             for i, ind in enumerate(id_to_idx.values()):
                 sequence_point_cloud_idx[ind] = i
                 sequence_point_cloud.append(batch[ind[0]].sequence_point_cloud)
-- 
2.43.0


From 842e5f32906190f4f2acbd2a57a78dd86918cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 086/137] fix: sequence_frames_in_order returns the indices of
 the frames of the subset

---
 pytorch3d/implicitron/dataset/dataset_base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/dataset_base.py b/pytorch3d/implicitron/dataset/dataset_base.py
index 78e6f20..4fb6d37 100644
--- a/pytorch3d/implicitron/dataset/dataset_base.py
+++ b/pytorch3d/implicitron/dataset/dataset_base.py
@@ -122,14 +122,15 @@ class DatasetBase(GenericWorkaround, torch.utils.data.Dataset[FrameData]):
         """
         # pyre-ignore[16]
         seq_frame_indices = self._seq_to_idx[seq_name]
-        nos_timestamps = self.get_frame_numbers_and_timestamps(
-            seq_frame_indices, subset_filter
-        )
-
+        # frames outside of subset_filter are left out of the result of
+        # get_frame_numbers_and_timestamps, hence query the frames one by one
         yield from sorted(
             [
                 (timestamp, frame_no, idx)
-                for idx, (frame_no, timestamp) in zip(seq_frame_indices, nos_timestamps)
+                for idx in seq_frame_indices
+                for frame_no, timestamp in self.get_frame_numbers_and_timestamps(
+                    [idx], subset_filter
+                )
             ]
         )
 
-- 
2.43.0


From 602b5dd8b092d1805087609e6f3275e5d765060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 087/137] fix: replace absent timestamps by 0 in
 JsonIndexDataset

---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index 2ea4b09..95e4335 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -652,7 +652,7 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
 
             frame_annotation = self.frame_annots[idx]["frame_annotation"]
             out.append(
-                (frame_annotation.frame_number, frame_annotation.frame_timestamp)
+                (frame_annotation.frame_number, frame_annotation.frame_timestamp or 0.0)
             )
         return out
 
-- 
2.43.0


From ac9b5432c59895fbeefdfc91c8e4fb31110bb7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 088/137] fix: JsonIndexDataset.join shifts the eval batches of
 the joined datasets

---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index 95e4335..a32f383 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -16,7 +16,7 @@ import os
 import random
 import warnings
 from collections import defaultdict
-from itertools import islice
+from itertools import accumulate, islice
 from typing import (
     Any,
     ClassVar,
@@ -218,7 +218,9 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
         """
         if not all(isinstance(d, JsonIndexDataset) for d in other_datasets):
             raise ValueError("This function can only join a list of JsonIndexDataset")
+        # the indices of the first frame of each dataset in the joined dataset
         # pyre-ignore[16]
+        offsets = list(accumulate([len(self), *[len(d) for d in other_datasets]]))
         self.frame_annots.extend([fa for d in other_datasets for fa in d.frame_annots])
         # pyre-ignore[16]
         self.seq_annots.update(
@@ -242,7 +244,11 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
                 " eval_batches defined, or all should have their eval batches undefined."
             )
         if self.eval_batches is not None:
-            self.eval_batches = sum(all_eval_batches, [])
+            self.eval_batches = self.eval_batches + [
+                [idx + offset for idx in batch]
+                for offset, d in zip(offsets, other_datasets)
+                for batch in d.eval_batches
+            ]
         self._invalidate_indexes(filter_seq_annots=True)
 
     def is_filtered(self) -> bool:
-- 
2.43.0


From da680233c290c7cf67491436e4bcef0d9aedae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 089/137] fix: JsonIndexDataset does not list sequences without
 frames

---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index a32f383..c68c33e 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -588,7 +588,8 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
             if f["frame_annotation"].sequence_name in self.seq_annots
         ]
 
-        self._invalidate_indexes()
+        # sequences can be left without frames by remove_empty_masks
+        self._invalidate_indexes(filter_seq_annots=True)
 
         if self.n_frames_per_sequence > 0:
             logger.info(f"Taking max {self.n_frames_per_sequence} per sequence.")
-- 
2.43.0


From deb52f319363442c48a794762456407ed6e35f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 090/137] fix: frames of SqlIndexDataset are matched to their
 indices and sorted by time

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 84a488b..f190ff7 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -358,7 +358,12 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         index_slice, _ = self._get_frame_no_coalesced_ts_by_row_indices(idxs)
         # alternatively, we can use `.values.tolist()`, which may be faster
         # but returns a list of lists
-        return list(index_slice.itertuples())
+        return list(
+            zip(
+                index_slice["frame_number"].tolist(),
+                index_slice["frame_timestamp"].tolist(),
+            )
+        )
 
     # override
     def sequence_frames_in_order(
@@ -380,8 +385,6 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                 `dataset_idx` is the index within the dataset.
                 `None` timestamps are replaced with 0s.
         """
-        # TODO: implement sort_timestamp_first? (which would matter if the orders
-        # of frame numbers and timestamps are different)
         rows = self._index.index.get_loc(seq_name)
         if isinstance(rows, slice):
             assert rows.stop is not None, "Unexpected result from pandas"
@@ -392,7 +395,9 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         index_slice, idx = self._get_frame_no_coalesced_ts_by_row_indices(
             rows_seq, seq_name, subset_filter
         )
-        index_slice["idx"] = idx
+        index_slice = index_slice.assign(idx=list(idx)).sort_values(
+            ["frame_timestamp", "frame_number"]
+        )
 
         yield from index_slice.itertuples(index=False)
 
@@ -848,7 +853,9 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                 "do they belong to more than one sequence?"
             )
 
-        return frame_no_ts, idxs
+        # the database returns the rows in an arbitrary order: align them with idxs
+        frame_no_ts = frame_no_ts.set_index("frame_number").loc[frames].reset_index()
+        return frame_no_ts[["frame_timestamp", "frame_number"]], idxs
 
     def _local_path(self, path: str) -> str:
         if self.path_manager is None:
-- 
2.43.0


From fdc1db4c6346b097bcc12ea5a0a208f6632bd457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 091/137] fix: custom SQL clauses with OR do not bypass the
 other filters

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index f190ff7..f4f2771 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -493,7 +493,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         if pick_sequences_sql_clause := self.pick_sequences_sql_clause:
             print("Applying the custom SQL clause.")
             # pyre-ignore[6]: TextClause is compatible with where conditions
-            where_conditions.append(sa.text(pick_sequences_sql_clause))
+            where_conditions.append(sa.text(f"({pick_sequences_sql_clause})"))
 
         def add_where(stmt):
             return stmt.where(*where_conditions) if where_conditions else stmt
@@ -647,7 +647,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         if pick_frames_sql_clause := self.pick_frames_sql_clause:
             logger.info("Applying the custom SQL clause.")
             # pyre-ignore[6]: TextClause is compatible with where conditions
-            pick_frames_criteria.append(sa.text(pick_frames_sql_clause))
+            pick_frames_criteria.append(sa.text(f"({pick_frames_sql_clause})"))
 
         if pick_frames_criteria:
             index = self._pick_frames_by_criteria(index, pick_frames_criteria)
@@ -715,7 +715,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         if pick_frames_sql_clause := self.pick_frames_sql_clause:
             logger.info("  applying custom SQL clause")
             # pyre-ignore[6]: TextClause is compatible with where conditions
-            where_conditions.append(sa.text(pick_frames_sql_clause))
+            where_conditions.append(sa.text(f"({pick_frames_sql_clause})"))
 
         if where_conditions:
             stmt = stmt.where(*where_conditions)
-- 
2.43.0


From b84d302a96ab2129777b3d9d9a79f145229da0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 092/137] fix: limit_sequences_to takes the first sequences
 after limit_sequences_per_category_to

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index f4f2771..b02d534 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -503,6 +503,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         else:
             subquery = sa.select(
                 self.sequence_annotations_type.sequence_name,
+                sa.literal_column("ROWID").label("row_id"),
                 sa.func.row_number()
                 .over(
                     order_by=sa.text("ROWID"),  # NOTE: ROWID is SQLite-specific
@@ -522,7 +523,10 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                 f"Limiting dataset to first {self.limit_sequences_to} sequences"
             )
             # NOTE: ROWID is SQLite-specific
-            stmt = stmt.order_by(sa.text("ROWID")).limit(self.limit_sequences_to)
+            row_id = sa.text(
+                "ROWID" if self.limit_sequences_per_category_to <= 0 else "row_id"
+            )
+            stmt = stmt.order_by(row_id).limit(self.limit_sequences_to)
 
         if (
             not where_conditions
-- 
2.43.0


From 46f60d82667761812c74ea02a0a7dfb6ccc7290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 093/137] fix: SqlIndexDataset.is_filtered accounts for
 pick_frames_sql_clause

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index b02d534..8a39d0b 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -450,6 +450,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             or self.limit_sequences_per_category_to > 0
             or len(self.pick_sequences) > 0
             or self.pick_sequences_sql_clause is not None
+            or self.pick_frames_sql_clause is not None
             or len(self.exclude_sequences) > 0
             or len(self.pick_categories) > 0
             or self.n_frames_per_sequence > 0
-- 
2.43.0


From b05e782a8dde2b01f8ef447e8a8833fadcc6e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 094/137] fix: eval batches of SqlIndexDataset satisfy both the
 category and the sequence filter

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 8a39d0b..3f44c18 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -764,12 +764,17 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         # limit the dataset to sequences to allow multiple evaluations in one file
         pick_sequences = set(self.pick_sequences)
         if self.pick_categories:
+            # only the sequences which are retained in the dataset are listed here
             cat_to_seq = self.category_to_sequence_names()
-            pick_sequences.update(
-                seq for cat in self.pick_categories for seq in cat_to_seq[cat]
-            )
+            category_sequences = {
+                seq for cat in self.pick_categories for seq in cat_to_seq.get(cat, [])
+            }
+            if self.pick_sequences:
+                pick_sequences &= category_sequences
+            else:
+                pick_sequences = category_sequences
 
-        if pick_sequences:
+        if self.pick_sequences or self.pick_categories:
             old_len = len(eval_batches)
             eval_batches = [b for b in eval_batches if b[0][0] in pick_sequences]
             logger.warning(
-- 
2.43.0


From 523a890e175ae707200a4a3badfe6154e7d369e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:42 +0000
Subject: [PATCH 095/137] fix: indices precomputed by precompute_seq_to_idx are
 in order of time

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 3f44c18..236f3b5 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -213,10 +213,24 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             logger.warning(
                 "Using precompute_seq_to_idx is deprecated and will be removed in the future."
             )
-            self._index["rowid"] = np.arange(len(self._index))
-            groupby = self._index.groupby("sequence_name", sort=False)["rowid"]
+            stmt = sa.select(
+                self.frame_annotations_type.sequence_name,
+                self.frame_annotations_type.frame_number,
+                sa.sql.functions.coalesce(
+                    self.frame_annotations_type.frame_timestamp, 0
+                ).label("frame_timestamp"),
+            )
+            with self._sql_engine.connect() as connection:
+                timestamps = pd.read_sql_query(stmt, connection).set_index(
+                    ["sequence_name", "frame_number"]
+                )["frame_timestamp"]
+            rows = self._index.index.to_frame(index=False)
+            rows["frame_timestamp"] = timestamps.reindex(self._index.index).to_numpy()
+            rows["rowid"] = np.arange(len(rows))
+            groupby = rows.sort_values(["frame_timestamp", "frame_number"]).groupby(
+                "sequence_name", sort=False
+            )["rowid"]
             self._seq_to_indices = dict(groupby.apply(list))  # pyre-ignore
-            del self._index["rowid"]
 
     def __len__(self) -> int:
         return len(self._index)
-- 
2.43.0


From d055ee6b5c64d701d4e9f2ac834502ed51f15c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 096/137] fix: known frames of single scene test sets have
 foreground probabilities

---
 .../implicitron/dataset/single_sequence_dataset.py   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/single_sequence_dataset.py b/pytorch3d/implicitron/dataset/single_sequence_dataset.py
index 058db29..c30311d 100644
--- a/pytorch3d/implicitron/dataset/single_sequence_dataset.py
+++ b/pytorch3d/implicitron/dataset/single_sequence_dataset.py
@@ -127,12 +127,6 @@ class SingleSceneDatasetMapProviderBase(DatasetMapProviderBase):
         # pyre-ignore[16]
         split = self.i_split[split_idx]
         frame_types = [frame_type] * len(split)
-        fg_probabilities = (
-            None
-            # pyre-ignore[16]
-            if self.fg_probabilities is None
-            else self.fg_probabilities[split]  # pyrefly: ignore [bad-index]
-        )
         eval_batches = [[i] for i in range(len(split))]
         if split_idx != 0 and self.n_known_frames_for_test is not None:
             # pyrefly: ignore [missing-attribute]
@@ -149,6 +143,12 @@ class SingleSceneDatasetMapProviderBase(DatasetMapProviderBase):
             split = np.concatenate([split, train_split])
             frame_types.extend([DATASET_TYPE_KNOWN] * len(train_split))
 
+        fg_probabilities = (
+            None
+            # pyre-ignore[16]
+            if self.fg_probabilities is None
+            else self.fg_probabilities[split]  # pyrefly: ignore [bad-index]
+        )
         # pyre-ignore[28]
         return SingleSceneDataset(
             object_name=self.object_name,
-- 
2.43.0


From bbcfee57bfda16a1b50021fcf44aba451142f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:34 +0000
Subject: [PATCH 097/137] fix: DatasetMap.join joins a dataset used for several
 subsets only once

---
 pytorch3d/implicitron/dataset/dataset_map_provider.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/dataset_map_provider.py b/pytorch3d/implicitron/dataset/dataset_map_provider.py
index 7133b36..b970abc 100644
--- a/pytorch3d/implicitron/dataset/dataset_map_provider.py
+++ b/pytorch3d/implicitron/dataset/dataset_map_provider.py
@@ -67,6 +67,8 @@ class DatasetMap:
             other_dataset_maps: The list of dataset maps to be joined into the
                 current dataset map.
         """
+        # the same dataset can be used for several subsets, it is joined only once
+        joined = []
         for set_ in ["train", "val", "test"]:
             dataset_list = [
                 getattr(self, set_),
@@ -77,8 +79,9 @@ class DatasetMap:
                 setattr(self, set_, None)
                 continue
             d0 = dataset_list[0]
-            if len(dataset_list) > 1:
+            if len(dataset_list) > 1 and not any(d0 is d for d in joined):
                 d0.join(dataset_list[1:])
+                joined.append(d0)
             setattr(self, set_, d0)
 
 
-- 
2.43.0


From f009aeefbdbedb030f150371792816747d402fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 098/137] fix: get_bbox_from_mask of one-pixel masks returns

---
 pytorch3d/implicitron/dataset/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/utils.py b/pytorch3d/implicitron/dataset/utils.py
index c8c9726..926b8e9 100644
--- a/pytorch3d/implicitron/dataset/utils.py
+++ b/pytorch3d/implicitron/dataset/utils.py
@@ -97,7 +97,7 @@ def get_bbox_from_mask(
 
     # bbox in xywh
     masks_for_box = np.zeros_like(mask)
-    while masks_for_box.sum() <= 1.0:
+    while masks_for_box.sum() <= min(1.0, mask.size - 1.0):
         masks_for_box = (mask > thr).astype(np.float32)
         thr -= decrease_quant
     if thr <= 0.0:
-- 
2.43.0


From 7f9dd82cc3563a7c408f3d5b614b85e95d4c1ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:51 +0000
Subject: [PATCH 099/137] fix: load_dataclass keeps lists of different lengths

---
 pytorch3d/implicitron/dataset/types.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/types.py b/pytorch3d/implicitron/dataset/types.py
index 2ddeb3b..035222a 100644
--- a/pytorch3d/implicitron/dataset/types.py
+++ b/pytorch3d/implicitron/dataset/types.py
@@ -11,6 +11,7 @@ import dataclasses
 import gzip
 import json
 from dataclasses import dataclass, Field, MISSING
+from itertools import islice
 from typing import (
     Any,
     cast,
@@ -217,8 +218,11 @@ def _dataclass_list_from_dict_list(dlist, typeannot):
     elif issubclass(cls, (list, tuple)):
         # For list/tuple, call the function recursively on the lists of corresponding positions
         types = get_args(typeannot)
-        if len(types) == 1:  # probably List; replicate for all items
-            types = types * len(dlist[0])
+        if len(types) == 1:  # probably List; the lengths of the lists can differ
+            converted = iter(
+                _dataclass_list_from_dict_list([v for obj in dlist for v in obj], *types)
+            )
+            return [cls(islice(converted, len(obj))) for obj in dlist]
         dlist_T = zip(*dlist)
         res_T = (
             _dataclass_list_from_dict_list(pos_list, tp)
-- 
2.43.0


From ce5e73c81d38eac96cc08fe8f006a193ed3c16ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:50 +0000
Subject: [PATCH 100/137] fix: build frames of SQL databases without viewpoint
 or point cloud

---
 pytorch3d/implicitron/dataset/frame_data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/frame_data.py b/pytorch3d/implicitron/dataset/frame_data.py
index fd658ab..d13d7b3 100644
--- a/pytorch3d/implicitron/dataset/frame_data.py
+++ b/pytorch3d/implicitron/dataset/frame_data.py
@@ -619,7 +619,8 @@ class GenericFrameDataBuilder(FrameDataBuilderBase[FrameDataSubtype], ABC):
                 depth_path = os.path.join(dataset_root, depth_annotation.path)
                 frame_data.depth_path = depth_path
 
-            if point_cloud is not None:
+            # NOTE: annotations in SQL databases are never None, but their fields can be
+            if point_cloud is not None and point_cloud.path is not None:
                 pcl_path = os.path.join(dataset_root, point_cloud.path)
                 frame_data.sequence_point_cloud_path = pcl_path
 
@@ -669,13 +670,13 @@ class GenericFrameDataBuilder(FrameDataBuilderBase[FrameDataSubtype], ABC):
                 frame_annotation, depth_path, fg_mask_np
             )
 
-        if load_blobs and self.load_point_clouds and point_cloud is not None:
-            assert pcl_path is not None
+        if load_blobs and self.load_point_clouds and pcl_path is not None:
             frame_data.sequence_point_cloud = load_pointcloud(
                 self._local_path(pcl_path), max_points=self.max_points
             )
 
-        if frame_annotation.viewpoint is not None:
+        viewpoint = frame_annotation.viewpoint
+        if viewpoint is not None and viewpoint.focal_length is not None:
             frame_data.camera = self._get_pytorch3d_camera(frame_annotation)
 
         if self.box_crop:
-- 
2.43.0


From 504159a0c534b0021ce00b7d05657c9ec1559376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 101/137] fix: mask_crop follows crops and resizes after the
 first resize

---
 pytorch3d/implicitron/dataset/frame_data.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/frame_data.py b/pytorch3d/implicitron/dataset/frame_data.py
index d13d7b3..5d7018f 100644
--- a/pytorch3d/implicitron/dataset/frame_data.py
+++ b/pytorch3d/implicitron/dataset/frame_data.py
@@ -293,6 +293,12 @@ class FrameData(Mapping[str, Any]):
                 clamp_bbox_xyxy,
                 self.image_path,  # pyre-ignore
             )
+        if self.mask_crop is not None:
+            self.mask_crop = crop_around_box(
+                self.mask_crop,
+                clamp_bbox_xyxy,
+                self.image_path,  # pyre-ignore
+            )
 
         depth_map = self.depth_map
         if depth_map is not None:
@@ -362,9 +368,18 @@ class FrameData(Mapping[str, Any]):
             )
 
         if self.image_rgb is not None:
-            self.image_rgb, _, self.mask_crop = resize_image(
+            self.image_rgb, _, mask_crop = resize_image(
                 self.image_rgb, image_height=image_height, image_width=image_width
             )
+            if self.mask_crop is not None:
+                # the image already contains padding
+                mask_crop, _, _ = resize_image(
+                    self.mask_crop,
+                    image_height=image_height,
+                    image_width=image_width,
+                    mode="nearest",
+                )
+            self.mask_crop = mask_crop
 
         if self.depth_map is not None:
             self.depth_map, _, _ = resize_image(
-- 
2.43.0


From 9525157e4aa1a2c4da5dbe848c149eff5dc2207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 102/137] fix: sample_pdf on the CPU stays within the batch for
 every number of threads

The batch was split in ranges of rounded-up size without clamping them, so
e.g. with 5 elements and 4 threads a worker read and overwrote a sixth.
---
 pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
index 272197c..d32ebf8 100644
--- a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
+++ b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
@@ -121,6 +121,9 @@ void SamplePdfCpu(
   const int64_t batch_elements_per_thread = 1 + (batch_size - 1) / n_threads;
   int64_t start_batch = 0;
   for (int iThread = 0; iThread < n_threads - 1; ++iThread) {
+    // Rounding up means that the last ranges can be short or empty.
+    const int64_t end_batch =
+        std::min(start_batch + batch_elements_per_thread, batch_size);
     threads.emplace_back(
         SamplePdfCpu_worker,
         bins,
@@ -128,8 +131,8 @@ void SamplePdfCpu(
         outputs,
         eps,
         start_batch,
-        start_batch + batch_elements_per_thread);
-    start_batch += batch_elements_per_thread;
+        end_batch);
+    start_batch = end_batch;
   }
 
   // The remaining batch elements are calculated in this threads. If nThreads is
-- 
2.43.0


From 791f661394d3df667fd8cb9d6d23acd005d78ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 103/137] fix: voxel grid points follow the translation and the
 resolution of each axis

get_grid_points promises world coordinates but ignored the translation, and
used the x resolution for the voxel size of all axes without align_corners.
---
 .../models/implicit_function/voxel_grid.py            | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 26b64f5..5a5260c 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1096,18 +1096,19 @@ class VoxelGridModule(Configurable, torch.nn.Module):
                 width * (xresolution - 1) / xresolution if xresolution > 1 else width
             )
             height = (
-                height * (xresolution - 1) / xresolution if xresolution > 1 else height
+                height * (yresolution - 1) / yresolution if yresolution > 1 else height
             )
             depth = (
-                depth * (xresolution - 1) / xresolution if xresolution > 1 else depth
+                depth * (zresolution - 1) / zresolution if zresolution > 1 else depth
             )
-        xs = torch.linspace(
+        x0, y0, z0 = self.translation
+        xs = x0 + torch.linspace(
             -width / 2, width / 2, xresolution, device=self.get_device()
         )
-        ys = torch.linspace(
+        ys = y0 + torch.linspace(
             -height / 2, height / 2, yresolution, device=self.get_device()
         )
-        zs = torch.linspace(
+        zs = z0 + torch.linspace(
             -depth / 2, depth / 2, zresolution, device=self.get_device()
         )
         xmesh, ymesh, zmesh = torch.meshgrid(xs, ys, zs, indexing="ij")
-- 
2.43.0


From fe0cfd3f39b62abf767b8a6169423cee3687b320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 104/137] fix: crop voxel grids without align_corners at their
 lower border

The index before the first voxel center is -1, which was taken as an index
from the end, so nearly everything was cropped away.
---
 .../models/implicit_function/voxel_grid.py        | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 5a5260c..42869ad 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -427,7 +427,10 @@ class FullResolutionVoxelGrid(VoxelGridBase):
             minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
             maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
         else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
+            # the outer half of the border voxels lies before the first center
+            minx, miny, minz = (
+                torch.floor(min_point_local01 * resolution - 0.5).clamp(min=0).long()
+            )
             maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
 
         return FullResolutionVoxelGridValues(
@@ -557,7 +560,10 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
             minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
             maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
         else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
+            # the outer half of the border voxels lies before the first center
+            minx, miny, minz = (
+                torch.floor(min_point_local01 * resolution - 0.5).clamp(min=0).long()
+            )
             maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
 
         return CPFactorizedVoxelGridValues(
@@ -785,7 +791,10 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
             minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
             maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
         else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
+            # the outer half of the border voxels lies before the first center
+            minx, miny, minz = (
+                torch.floor(min_point_local01 * resolution - 0.5).clamp(min=0).long()
+            )
             maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
 
         return VMFactorizedVoxelGridValues(
-- 
2.43.0


From b1d94d4aa9433ffc60d5c2f7c6bc29f00a859500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:30 +0000
Subject: [PATCH 105/137] fix: cropping a voxel grid module keeps the field
 where it was

crop_self keeps whole voxels but declared the extents to be exactly those asked
for, so that the field was shifted and scaled unless the points were voxel
corners; it resampled with align_corners also for grids without it, extents
beyond the grid were taken over, and buffers became parameters.
---
 .../models/implicit_function/voxel_grid.py    | 174 +++++++++++-------
 1 file changed, 109 insertions(+), 65 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 42869ad..18b42e2 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -324,6 +324,67 @@ class VoxelGridBase(ReplaceableBase, torch.nn.Module):
         max_point_local = volume_locator.world_to_local_coords(max_point_world[None])[0]
         return self.crop_local(min_point_local, max_point_local, grid_values)
 
+    def _get_values_resolution(self, grid_values: VoxelGridValuesBase) -> List[int]:
+        """
+        Returns the x, y and z resolution of the tensors in `grid_values`.
+        """
+        raise NotImplementedError()
+
+    def _get_crop_range(
+        self,
+        min_point_local: torch.Tensor,
+        max_point_local: torch.Tensor,
+        grid_values: VoxelGridValuesBase,
+    ) -> Tuple[List[int], List[int]]:
+        """
+        Returns the x, y and z indices of the first and of the last voxel which
+        are kept when cropping with `crop_local`.
+        """
+        assert torch.all(min_point_local < max_point_local)
+        resolution = min_point_local.new_tensor(self._get_values_resolution(grid_values))
+        min_point_local01 = (torch.clamp(min_point_local, -1, 1) + 1) / 2
+        max_point_local01 = (torch.clamp(max_point_local, -1, 1) + 1) / 2
+
+        if self.align_corners:
+            first = torch.floor(min_point_local01 * (resolution - 1))
+            last = torch.ceil(max_point_local01 * (resolution - 1))
+        else:
+            first = torch.floor(min_point_local01 * resolution - 0.5)
+            last = torch.ceil(max_point_local01 * resolution - 0.5)
+        # without align_corners, half of the border voxels lies beyond the centers
+        return (
+            first.clamp(min=0).long().tolist(),
+            torch.minimum(last, resolution - 1).long().tolist(),
+        )
+
+    def get_cropped_bounds_local(
+        self,
+        min_point_local: torch.Tensor,
+        max_point_local: torch.Tensor,
+        grid_values: VoxelGridValuesBase,
+    ) -> torch.Tensor:
+        """
+        Returns the region which is covered by the result of `crop_local`. As whole
+        voxels are kept, it contains the requested region but can be bigger.
+
+        Args:
+            as for crop_local
+        Returns:
+            tensor of shape (2, 3): the minimum and the maximum point of the region
+                in the local coordinates of the uncropped grid.
+        """
+        first, last = min_point_local.new_tensor(
+            self._get_crop_range(min_point_local, max_point_local, grid_values)
+        )
+        resolution = min_point_local.new_tensor(self._get_values_resolution(grid_values))
+        if self.align_corners:
+            bounds = torch.stack((first, last)) / (resolution - 1).clamp(min=1)
+            # a single voxel fills the whole range
+            bounds[1, resolution == 1] = 1
+        else:
+            bounds = torch.stack((first, last + 1)) / resolution
+        return 2 * bounds - 1
+
     def crop_local(
         self,
         min_point_local: torch.Tensor,
@@ -408,6 +469,12 @@ class FullResolutionVoxelGrid(VoxelGridBase):
         width, height, depth = self.get_resolution(epoch)
         return {"voxel_grid": (self.n_features, width, height, depth)}
 
+    # pyre-ignore[14]
+    def _get_values_resolution(
+        self, grid_values: FullResolutionVoxelGridValues
+    ) -> List[int]:
+        return list(grid_values.voxel_grid.shape[2:])
+
     # pyre-ignore[14]
     def crop_local(
         self,
@@ -415,23 +482,9 @@ class FullResolutionVoxelGrid(VoxelGridBase):
         max_point_local: torch.Tensor,
         grid_values: FullResolutionVoxelGridValues,
     ) -> FullResolutionVoxelGridValues:
-        assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
-        _, _, width, height, depth = grid_values.voxel_grid.shape
-        resolution = grid_values.voxel_grid.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            # the outer half of the border voxels lies before the first center
-            minx, miny, minz = (
-                torch.floor(min_point_local01 * resolution - 0.5).clamp(min=0).long()
-            )
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_range(
+            min_point_local, max_point_local, grid_values
+        )
 
         return FullResolutionVoxelGridValues(
             voxel_grid=grid_values.voxel_grid[
@@ -539,6 +592,16 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
             shape_dict["basis_matrix"] = (self.n_components, self.n_features)
         return shape_dict
 
+    # pyre-ignore[14]
+    def _get_values_resolution(
+        self, grid_values: CPFactorizedVoxelGridValues
+    ) -> List[int]:
+        return [
+            grid_values.vector_components_x.shape[-1],
+            grid_values.vector_components_y.shape[-1],
+            grid_values.vector_components_z.shape[-1],
+        ]
+
     # pyre-ignore[14]
     def crop_local(
         self,
@@ -546,25 +609,9 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
         max_point_local: torch.Tensor,
         grid_values: CPFactorizedVoxelGridValues,
     ) -> CPFactorizedVoxelGridValues:
-        assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
-        _, _, width = grid_values.vector_components_x.shape
-        _, _, height = grid_values.vector_components_y.shape
-        _, _, depth = grid_values.vector_components_z.shape
-        resolution = grid_values.vector_components_x.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            # the outer half of the border voxels lies before the first center
-            minx, miny, minz = (
-                torch.floor(min_point_local01 * resolution - 0.5).clamp(min=0).long()
-            )
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_range(
+            min_point_local, max_point_local, grid_values
+        )
 
         return CPFactorizedVoxelGridValues(
             vector_components_x=grid_values.vector_components_x[:, :, minx : maxx + 1],
@@ -770,6 +817,16 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
 
         return shape_dict
 
+    # pyre-ignore[14]
+    def _get_values_resolution(
+        self, grid_values: VMFactorizedVoxelGridValues
+    ) -> List[int]:
+        return [
+            grid_values.vector_components_x.shape[-1],
+            grid_values.vector_components_y.shape[-1],
+            grid_values.vector_components_z.shape[-1],
+        ]
+
     # pyre-ignore[14]
     def crop_local(
         self,
@@ -777,25 +834,9 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
         max_point_local: torch.Tensor,
         grid_values: VMFactorizedVoxelGridValues,
     ) -> VMFactorizedVoxelGridValues:
-        assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
-        _, _, width = grid_values.vector_components_x.shape
-        _, _, height = grid_values.vector_components_y.shape
-        _, _, depth = grid_values.vector_components_z.shape
-        resolution = grid_values.vector_components_x.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            # the outer half of the border voxels lies before the first center
-            minx, miny, minz = (
-                torch.floor(min_point_local01 * resolution - 0.5).clamp(min=0).long()
-            )
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_range(
+            min_point_local, max_point_local, grid_values
+        )
 
         return VMFactorizedVoxelGridValues(
             vector_components_x=grid_values.vector_components_x[:, :, minx : maxx + 1],
@@ -1042,20 +1083,23 @@ class VoxelGridModule(Configurable, torch.nn.Module):
             min_point, max_point, old_grid_values, locator
         )
         grid_values, _ = self.voxel_grid.change_resolution(
-            new_grid_values, grid_values_with_wanted_resolution=old_grid_values
+            new_grid_values,
+            grid_values_with_wanted_resolution=old_grid_values,
+            align_corners=self.voxel_grid.get_align_corners(),
         )
-        # pyre-fixme[16]: `VoxelGridModule` has no attribute `params`.
-        self.params = torch.nn.ParameterDict(
-            {
-                k: torch.nn.Parameter(val)
-                for k, val in vars(grid_values).items()
-                if val is not None
-            }
+        self.set_voxel_grid_parameters(grid_values)
+        # Whole voxels are kept: the cropped grid covers min_point and max_point
+        # but can be bigger.
+        bounds_local = self.voxel_grid.get_cropped_bounds_local(
+            locator.world_to_local_coords(min_point[None])[0],
+            locator.world_to_local_coords(max_point[None])[0],
+            old_grid_values,
         )
+        min_point, max_point = locator.local_to_world_coords(bounds_local[None])[0]
         # New center of voxel grid is the middle point between max and min points.
-        self.translation = tuple((max_point + min_point) / 2)
+        self.translation = tuple(((max_point + min_point) / 2).tolist())
         # new extents of voxel grid are distances between min and max points
-        self.extents = tuple(max_point - min_point)
+        self.extents = tuple((max_point - min_point).tolist())
 
     def _get_volume_locator(self) -> VolumeLocator:
         """
-- 
2.43.0


From d227feab58d334022520d3c03e3b523b0734d2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:30 +0000
Subject: [PATCH 106/137] fix: voxel grid modules change their resolution with
 their own align_corners

Grids without align_corners were resampled as if they had it, which moves the
represented field.
---
 pytorch3d/implicitron/models/implicit_function/voxel_grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 18b42e2..ebbbcb1 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1001,7 +1001,9 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
         grid_values = self.voxel_grid.values_type(**self.params)
         grid_values, change = self.voxel_grid.change_resolution(
-            grid_values, epoch=epoch
+            grid_values,
+            epoch=epoch,
+            align_corners=self.voxel_grid.get_align_corners(),
         )
         if change:
             self.set_voxel_grid_parameters(grid_values)
-- 
2.43.0


From fece082141ff52249ed7ce6a4e7922005c9a7af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:30 +0000
Subject: [PATCH 107/137] fix: change_resolution of voxel grids works in the
 nearest and area modes

Their default align_corners=True is refused by torch.nn.functional.interpolate.
---
 pytorch3d/implicitron/models/implicit_function/voxel_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index ebbbcb1..62e8427 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -238,7 +238,8 @@ class VoxelGridBase(ReplaceableBase, torch.nn.Module):
                 input=tensor,
                 size=wanted_resolution,
                 mode=new_mode,
-                align_corners=align_corners,
+                # align_corners cannot be given for the other modes
+                align_corners=align_corners if mode in ("linear", "bicubic") else None,
                 recompute_scale_factor=False,
                 **interp_kwargs,
             )
-- 
2.43.0


From e6a9a1afad6040b582a295d86e494ad33f421734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:30 +0000
Subject: [PATCH 108/137] fix: calculate the scaffold in chunks of planes, not
 of coordinates

---
 .../implicit_function/voxel_grid_implicit_function.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index ecd8468..3fecf6b 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -536,10 +536,10 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         chunk_size = (
             self.scaffold_occupancy_chunk_size
             if self.scaffold_occupancy_chunk_size > 0
-            else points.shape[-1]
+            else points.shape[-2]
         )
-        for k in range(0, points.shape[-1], chunk_size):
-            points_in_planes = points[..., k : k + chunk_size]
+        for k in range(0, points.shape[-2], chunk_size):
+            points_in_planes = points[..., k : k + chunk_size, :].contiguous()
             planes.append(self._get_density(points_in_planes)[..., 0])
 
         density_cube = torch.cat(planes, dim=-1)
-- 
2.43.0


From 883e62e3a681f818aaa550c5826b26fa968261ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:47 +0000
Subject: [PATCH 109/137] fix: voxel grid colors with ray directions in camera
 coordinates

The flattened directions times the batched rotations got a dimension too many,
which always failed.
---
 .../models/implicit_function/voxel_grid_implicit_function.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index 3fecf6b..1d71d14 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -409,7 +409,10 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
                 raise ValueError("Camera must be given if xyz_ray_dir_in_camera_coords")
             # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
             #  `Union[Tensor, Module]`.
-            directions = directions @ camera.R
+            # directions of the rays of one camera after the other, as in camera.R
+            directions = (
+                directions.reshape(camera.R.shape[0], -1, 3) @ camera.R
+            ).reshape(-1, 3)
 
         # ########## get voxel grid output ########## #
         # embeds_color.shape = [..., pts_per_ray, n_features]
-- 
2.43.0


From 700ba60c28ad2a5778e3bba7f26a9c39b1d153cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 110/137] fix: NeRF and SRN rotate ray directions of several
 cameras into camera coordinates

Directions of shape (B, ..., 3) times rotations (B, 3, 3) paired the rotations
with the rows of the rays instead of the elements of the minibatch.
---
 .../models/implicit_function/neural_radiance_field.py       | 6 +++++-
 .../implicit_function/scene_representation_networks.py      | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py b/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
index 7ba577e..8df4d3f 100644
--- a/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
+++ b/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
@@ -226,7 +226,11 @@ class NeuralRadianceFieldBase(ImplicitFunctionBase, torch.nn.Module):
 
             # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
             #  `Union[Tensor, Module]`.
-            directions = ray_bundle.directions @ camera.R
+            # one rotation per element of the minibatch, for all its rays
+            directions = ray_bundle.directions
+            directions = directions @ camera.R.reshape(
+                -1, *([1] * (directions.ndim - 3)), 3, 3
+            )
         else:
             directions = ray_bundle.directions
 
diff --git a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
index 8c17077..b4b1750 100644
--- a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
+++ b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
@@ -210,7 +210,11 @@ class SRNPixelGenerator(Configurable, torch.nn.Module):
 
             # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
             #  `Union[Tensor, Module]`.
-            directions = ray_bundle.directions @ camera.R
+            # one rotation per element of the minibatch, for all its rays
+            directions = ray_bundle.directions
+            directions = directions @ camera.R.reshape(
+                -1, *([1] * (directions.ndim - 3)), 3, 3
+            )
         else:
             directions = ray_bundle.directions
 
-- 
2.43.0


From 0f5a0a9eb2b748a2516af2d3c853d1330aa3501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 111/137] fix: factorized voxel grids accept the documented
 trilinear mode

---
 pytorch3d/implicitron/models/implicit_function/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytorch3d/implicitron/models/implicit_function/utils.py b/pytorch3d/implicitron/models/implicit_function/utils.py
index d0e7ccd..c57a5bf 100644
--- a/pytorch3d/implicitron/models/implicit_function/utils.py
+++ b/pytorch3d/implicitron/models/implicit_function/utils.py
@@ -113,6 +113,9 @@ def interpolate_line(
     """
     # To enable sampling of the source using the torch.functional.grid_sample
     # points need to have 2 coordinates.
+    if "mode" in kwargs and kwargs["mode"] == "trilinear":
+        kwargs = kwargs.copy()
+        kwargs["mode"] = "bilinear"
     expansion = points.new_zeros(points.shape)
     points = torch.cat((points, expansion), dim=-1)
 
@@ -147,6 +150,9 @@ def interpolate_plane(
     # permuting because torch.nn.functional.grid_sample works with
     # (features, height, width) and not
     # (features, width, height)
+    if "mode" in kwargs and kwargs["mode"] == "trilinear":
+        kwargs = kwargs.copy()
+        kwargs["mode"] = "bilinear"
     source = source.permute(0, 1, 3, 2)
     points = points[:, :, None, :]
 
-- 
2.43.0


From 6c916841f541d6e584fba584b25add70b8f10bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 112/137] fix: aggregated dimension of sampled features counts
 their last dimension

---
 .../implicitron/models/view_pooler/feature_aggregator.py  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
index 5d600b0..e1dbe47 100644
--- a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
+++ b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
@@ -441,16 +441,18 @@ def _get_reduction_aggregator_feature_dim(
     reduction_functions: Sequence[ReductionFunction],
 ) -> int:
     if isinstance(feats_or_feats_dim, int):
-        feat_dim = feats_or_feats_dim
+        feat_dims = [feats_or_feats_dim]
     else:
-        feat_dim = int(sum(f.shape[1] for f in feats_or_feats_dim.values()))
+        feat_dims = [f.shape[-1] for f in feats_or_feats_dim.values()]
     if len(reduction_functions) == 0:
-        return feat_dim
+        return sum(feat_dims)
+    # each of the features is aggregated on its own
     return sum(
         _get_reduction_function_output_dim(
             reduction_function,
             feat_dim,
         )
+        for feat_dim in feat_dims
         for reduction_function in reduction_functions
     )
 
-- 
2.43.0


From fa983b20bf041c36bd5115c17843dbf9e1c2943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 113/137] fix: max reduction of negative features ignores
 masked views

---
 pytorch3d/implicitron/models/view_pooler/feature_aggregator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
index e1dbe47..0a4238c 100644
--- a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
+++ b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
@@ -687,6 +687,7 @@ def _max_reduction_function(
     dim: int = 1,
     big_M_factor: float = 10.0,
 ):
-    big_M = x.max(dim=dim, keepdim=True).values.abs() * big_M_factor
+    # exceeds the magnitude of every feature, also if all of them are negative
+    big_M = x.abs().max(dim=dim, keepdim=True).values * big_M_factor
     max_ = (x * w - ((1 - w) * big_M)).max(dim=dim, keepdim=True).values
     return max_
-- 
2.43.0


From 3a73e92ecb57e63a99e077bc66c3b07ca360bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 114/137] fix: max reduction broadcasts the weights over the
 features

---
 pytorch3d/implicitron/models/view_pooler/feature_aggregator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
index 0a4238c..e7c9236 100644
--- a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
+++ b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
@@ -687,6 +687,7 @@ def _max_reduction_function(
     dim: int = 1,
     big_M_factor: float = 10.0,
 ):
+    w = w[..., None]  # broadcast over the feature dimension
     # exceeds the magnitude of every feature, also if all of them are negative
     big_M = x.abs().max(dim=dim, keepdim=True).values * big_M_factor
     max_ = (x * w - ((1 - w) * big_M)).max(dim=dim, keepdim=True).values
-- 
2.43.0


From ff8a479f853b30724a56baaad7c16dcd50a16adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:53 +0000
Subject: [PATCH 115/137] fix: autodecoder ignoring its input returns a code
 for every element

---
 pytorch3d/implicitron/models/global_encoder/autodecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/global_encoder/autodecoder.py b/pytorch3d/implicitron/models/global_encoder/autodecoder.py
index f4b4851..6f98a70 100644
--- a/pytorch3d/implicitron/models/global_encoder/autodecoder.py
+++ b/pytorch3d/implicitron/models/global_encoder/autodecoder.py
@@ -89,7 +89,7 @@ class Autodecoder(Configurable, torch.nn.Module):
                 key-specific autodecoder codes.
         """
         if self.ignore_input:
-            x = ["singleton"]
+            x = ["singleton"] * len(x)
 
         if isinstance(x[0], str):
             try:
-- 
2.43.0


From 7b72f9307d9085ee98e26ad78d06fc60ef8afc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:53 +0000
Subject: [PATCH 116/137] fix: SRN hypernetworks output out_features channels

---
 .../models/implicit_function/scene_representation_networks.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
index b4b1750..0430681 100644
--- a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
+++ b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
@@ -271,7 +271,7 @@ class SRNRaymarchHyperNet(Configurable, torch.nn.Module):
             hidden_ch=self.n_hidden_units,
             num_hidden_layers=self.n_layers,
             in_ch=raymarch_input_embedding_dim,
-            out_ch=self.n_hidden_units,
+            out_ch=self.out_features,
         )
 
         self.cached_srn_raymarch_function: Optional[Tuple[SRNRaymarchFunction]] = None
-- 
2.43.0


From 1efb7fb3c4a06ecf947d0625be045698d1855830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:53 +0000
Subject: [PATCH 117/137] fix: harmonic time encoder accepts batches of
 timestamps

---
 pytorch3d/implicitron/models/global_encoder/global_encoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/implicitron/models/global_encoder/global_encoder.py b/pytorch3d/implicitron/models/global_encoder/global_encoder.py
index c31dbfc..0be971b 100644
--- a/pytorch3d/implicitron/models/global_encoder/global_encoder.py
+++ b/pytorch3d/implicitron/models/global_encoder/global_encoder.py
@@ -119,6 +119,10 @@ class HarmonicTimeEncoder(GlobalEncoderBase, torch.nn.Module):
     ) -> torch.Tensor:
         if frame_timestamp is None:
             raise ValueError("frame_timestamp must be provided.")
+        if frame_timestamp.ndim == 1:
+            # a batch of timestamps as collated from FrameData objects
+            frame_timestamp = frame_timestamp[:, None]
+
         if frame_timestamp.shape[-1] != 1:
             raise ValueError("Frame timestamp's last dimensions should be one.")
         time = frame_timestamp / self.time_divisor
-- 
2.43.0


From 81188cd736ba32f293a13428db168b19f8517e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:05 +0000
Subject: [PATCH 118/137] fix: MLPWithInputSkips applies last_activation to the
 last layer

---
 .../implicitron/models/implicit_function/decoding_functions.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/decoding_functions.py b/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
index 5073d49..dba395e 100644
--- a/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
+++ b/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
@@ -192,7 +192,7 @@ class MLPWithInputSkips(Configurable, torch.nn.Module):
                 torch.nn.init.constant_(linear.bias, self.last_layer_bias_init)
             layers.append(
                 torch.nn.Sequential(linear, torch.nn.ReLU(True))
-                if not layeri + 1 < self.n_layers
+                if layeri + 1 < self.n_layers
                 else torch.nn.Sequential(linear, last_activation)
             )
         self.mlp = torch.nn.ModuleList(layers)
-- 
2.43.0


From 0e46c42a6c2d16a315b0193452a953a72796953a Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:45:48 +0000
Subject: [PATCH 119/137] fix: metrics of packed rays compare with the images
 of their cameras

---
 pytorch3d/implicitron/models/metrics.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index 9555b62..d8eb673 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -271,9 +271,6 @@ class ViewMetrics(ViewMetricsBase):
 
             # select images that corespond to sampled cameras if raybundle is packed
             tensor = tensor[ray_bundle.camera_ids]
-            if ray_bundle.is_packed():
-                # select images that corespond to sampled cameras if raybundle is packed
-                tensor = tensor[ray_bundle.camera_ids]
             result = rend_utils.ndc_grid_sample(tensor, xys, mode=mode)
             return padded_to_packed(result, first_idxs, num_inputs, max_size_dim=2)[
                 :, :, None
-- 
2.43.0


From 8c4df32e49b1fd68fead8f78b4ae9844729d8f5e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:45:48 +0000
Subject: [PATCH 120/137] fix: eikonal loss takes the norm over the last
 dimension of the gradients

---
 pytorch3d/implicitron/models/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index d8eb673..c5177b7 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -388,7 +388,7 @@ def _rgb_metrics(
 
 
 def _get_eikonal_loss(grad_theta):
-    return ((grad_theta.norm(2, dim=1) - 1) ** 2).mean()
+    return ((grad_theta.norm(2, dim=-1) - 1) ** 2).mean()
 
 
 def _get_grid_tv_loss(grid, log_domain: bool = True, eps: float = 1e-5):
-- 
2.43.0


From 635d4948de7c725813c8bde89639ace98d650a62 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:45:48 +0000
Subject: [PATCH 121/137] fix: autodecoder penalty of models with a global
 encoder is reported

---
 pytorch3d/implicitron/models/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index c5177b7..9c787f3 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -120,8 +120,8 @@ class RegularizationMetrics(RegularizationMetricsBase):
                 autoencoder_norm: Autoencoder weight norm regularization term.
         """
         metrics = {}
-        if getattr(model, "sequence_autodecoder", None) is not None:
-            ad_penalty = model.sequence_autodecoder.calculate_squared_encoding_norm()
+        if getattr(model, "global_encoder", None) is not None:
+            ad_penalty = model.global_encoder.calculate_squared_encoding_norm()
             if ad_penalty is not None:
                 metrics["autodecoder_norm"] = ad_penalty
 
-- 
2.43.0


From 495b7d1064b81edb2185655d07b5259eeee8f5b2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:45:48 +0000
Subject: [PATCH 122/137] fix: binary cross entropy of logits bounds the
 predicted probabilities

---
 pytorch3d/implicitron/tools/metric_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/metric_utils.py b/pytorch3d/implicitron/tools/metric_utils.py
index bdb8cfa..5ffe15e 100644
--- a/pytorch3d/implicitron/tools/metric_utils.py
+++ b/pytorch3d/implicitron/tools/metric_utils.py
@@ -136,7 +136,11 @@ def calc_bce(
     """
     if pred_eps > 0.0:
         # up/low bound the predictions
-        pred = torch.clamp(pred, pred_eps, 1.0 - pred_eps)
+        if pred_logits:
+            logit_bound = math.log((1.0 - pred_eps) / pred_eps)
+            pred = torch.clamp(pred, -logit_bound, logit_bound)
+        else:
+            pred = torch.clamp(pred, pred_eps, 1.0 - pred_eps)
 
     if mask is None:
         mask = torch.ones_like(gt)
-- 
2.43.0


From 255ca4d37f2fef331d71d257a432c2f9e1e91ddf Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:45:48 +0000
Subject: [PATCH 123/137] fix: depth cleanup samples oblong depth maps where
 the points project

---
 pytorch3d/implicitron/tools/depth_cleanup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/tools/depth_cleanup.py b/pytorch3d/implicitron/tools/depth_cleanup.py
index 76edf96..5b565cf 100644
--- a/pytorch3d/implicitron/tools/depth_cleanup.py
+++ b/pytorch3d/implicitron/tools/depth_cleanup.py
@@ -7,9 +7,9 @@
 # pyre-unsafe
 
 import torch
-import torch.nn.functional as Fu
 from pytorch3d.ops import wmean
 from pytorch3d.renderer.cameras import CamerasBase
+from pytorch3d.renderer.utils import ndc_grid_sample
 from pytorch3d.structures import Pointclouds
 
 
@@ -41,8 +41,8 @@ def cleanup_eval_depth(
         dim=1,
     )
 
-    depth_and_idx_sampled = Fu.grid_sample(
-        depth_and_idx, -pcl_proj[:, None], mode="nearest"
+    depth_and_idx_sampled = ndc_grid_sample(
+        depth_and_idx, pcl_proj[:, None], mode="nearest"
     )[:, :, 0].view(ba, 2, -1)
 
     depth_sampled, idx_sampled = depth_and_idx_sampled.split([1, 1], dim=1)
-- 
2.43.0


From 44e2db3411c5deb8948d21cfc2dff942d84e3190 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:45:48 +0000
Subject: [PATCH 124/137] fix: radius of splatted rays depends on the number of
 rays of grids

---
 pytorch3d/implicitron/tools/rasterize_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/rasterize_mc.py b/pytorch3d/implicitron/tools/rasterize_mc.py
index ff1fd1e..5059859 100644
--- a/pytorch3d/implicitron/tools/rasterize_mc.py
+++ b/pytorch3d/implicitron/tools/rasterize_mc.py
@@ -86,7 +86,7 @@ def rasterize_sparse_ray_bundle(
 
     # Estimate the rasterization point radius so that we approximately fill
     # the whole image given the number of rasterized points.
-    pt_radius = 2.0 / math.sqrt(xys.shape[1])
+    pt_radius = 2.0 / math.sqrt(xys_ras.shape[1])
 
     # Rasterize the samples.
     features_depth_render, masks_render = rasterize_mc_samples(
-- 
2.43.0


From 80745213d792fc8cdc3d63946d0ab3bc858fc1c4 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 125/137] fix: total variation of density grids with a channel
 dimension is defined

---
 pytorch3d/implicitron/models/metrics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index 9c787f3..795df37 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -392,6 +392,9 @@ def _get_eikonal_loss(grad_theta):
 
 
 def _get_grid_tv_loss(grid, log_domain: bool = True, eps: float = 1e-5):
+    if grid.shape[-1] == 1:
+        # the single density channel
+        grid = grid[..., 0]
     if log_domain:
         if (grid <= -eps).any():
             warnings.warn("Grid has negative values; this will produce NaN loss")
-- 
2.43.0


From 8da852de0c389d035351ae3dc7bbc695d7ffc9a2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:59:04 +0000
Subject: [PATCH 126/137] fix: padding rays of packed bundles are not splatted

---
 pytorch3d/implicitron/tools/rasterize_mc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/implicitron/tools/rasterize_mc.py b/pytorch3d/implicitron/tools/rasterize_mc.py
index 5059859..b000c56 100644
--- a/pytorch3d/implicitron/tools/rasterize_mc.py
+++ b/pytorch3d/implicitron/tools/rasterize_mc.py
@@ -59,6 +59,9 @@ def rasterize_sparse_ray_bundle(
             torch.arange(xys.shape[1], device=xys.device)[:, None]
             < camera_counts[:, None, None]
         )
+        # move the padding rays far away from the image so that they do not
+        # contribute to its opacities
+        xys = xys.masked_fill(~masks_ras[..., None], 1e4)
 
         max_size = torch.max(camera_counts).item()
         features_depth_ras = packed_to_padded(
-- 
2.43.0


From 919ebdc51746ff7b08b29845f9a0dfcd97025f2b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:04:37 +0000
Subject: [PATCH 127/137] fix: symeig3x3 (and estimated point normals) for
 matrices of small scale

---
 pytorch3d/common/workaround/symeig3x3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/common/workaround/symeig3x3.py b/pytorch3d/common/workaround/symeig3x3.py
index ca73660..4843143 100644
--- a/pytorch3d/common/workaround/symeig3x3.py
+++ b/pytorch3d/common/workaround/symeig3x3.py
@@ -77,6 +77,11 @@ class _SymEig3x3(nn.Module):
         if inputs.shape[-2:] != (3, 3):
             raise ValueError("Only inputs of shape (..., 3, 3) are supported.")
 
+        # All the thresholds below are absolute, hence bring the inputs to unit scale
+        scale = inputs.detach().abs().amax(dim=(-1, -2))
+        scale = torch.where(scale > 0, scale, torch.ones_like(scale))
+        inputs = inputs / scale[..., None, None]
+
         inputs_diag = inputs.diagonal(dim1=-2, dim2=-1)
         inputs_trace = inputs_diag.sum(-1)
         q = inputs_trace / 3.0
@@ -120,7 +125,7 @@ class _SymEig3x3(nn.Module):
         else:
             eigenvecs = None
 
-        return eigenvals, eigenvecs
+        return eigenvals * scale[..., None], eigenvecs
 
     def _construct_eigenvecs_set(
         self, inputs: torch.Tensor, eigenvals: torch.Tensor
-- 
2.43.0


From 7d7dc43ab8f300020fc3409ca84e089e2c01eeba Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:04:37 +0000
Subject: [PATCH 128/137] fix: best-fit plane rotations of batches of three
 point sets

---
 pytorch3d/implicitron/tools/circle_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/circle_fitting.py b/pytorch3d/implicitron/tools/circle_fitting.py
index 7f6cd1a..b0330cc 100644
--- a/pytorch3d/implicitron/tools/circle_fitting.py
+++ b/pytorch3d/implicitron/tools/circle_fitting.py
@@ -36,7 +36,7 @@ def get_rotation_to_best_fit_xy(
     # in general, evec can form either right- or left-handed basis,
     # but we need the former to have a proper rotation (not reflection)
     return torch.cat(
-        (evec[..., 1:], torch.cross(evec[..., 1], evec[..., 2])[..., None]), dim=-1
+        (evec[..., 1:], torch.cross(evec[..., 1], evec[..., 2], dim=-1)[..., None]), dim=-1
     )
 
 
-- 
2.43.0


From 1a3b8582d6ec0715f823e428703a5089e24f37b9 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:04:58 +0000
Subject: [PATCH 129/137] fix: packed features of vert_align for point clouds

---
 pytorch3d/ops/vert_align.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/ops/vert_align.py b/pytorch3d/ops/vert_align.py
index fd1a90d..e6cc538 100644
--- a/pytorch3d/ops/vert_align.py
+++ b/pytorch3d/ops/vert_align.py
@@ -96,12 +96,13 @@ def vert_align(
     if return_packed:
         # flatten the first two dimensions: (N*V, C)
         feats_sampled = feats_sampled.view(-1, feats_sampled.shape[-1])
+        idx = None
         if hasattr(verts, "verts_padded_to_packed_idx"):
-            idx = (
-                verts.verts_padded_to_packed_idx()
-                .view(-1, 1)
-                .expand(-1, feats_sampled.shape[-1])
-            )
+            idx = verts.verts_padded_to_packed_idx()
+        elif hasattr(verts, "padded_to_packed_idx"):
+            idx = verts.padded_to_packed_idx()
+        if idx is not None:
+            idx = idx.view(-1, 1).expand(-1, feats_sampled.shape[-1])
             feats_sampled = feats_sampled.gather(0, idx)  # (sum(V), C)
 
     return feats_sampled
-- 
2.43.0


From 725e22dfbdd2b59adfac47483e1b373c8e079ef7 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:12:01 +0000
Subject: [PATCH 130/137] fix: gradient of face normals with respect to the
 second vertex

---
 pytorch3d/csrc/face_areas_normals/face_areas_normals.cu      | 2 +-
 pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu b/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
index 58aeb20..487eff4 100644
--- a/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
+++ b/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
@@ -180,7 +180,7 @@ __global__ void FaceAreasNormalsBackwardKernel(
         (bx * cy - by * cx) / 2.0 * inv_norm * grad_areas[f] +
         (-by - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals[3 * f + 0] +
-        (bx - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
+        (bx - cy * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals[3 * f + 1] +
         -cz * (bx * cy - by * cx) * inv_norm_3 * grad_normals[3 * f + 2];
     atomicAdd(grad_verts + 3 * i1 + 2, grad_v1_z);
diff --git a/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp b/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
index 1871ac7..42f162e 100644
--- a/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
+++ b/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
@@ -178,7 +178,7 @@ at::Tensor FaceAreasNormalsBackwardCpu(
         (bx * cy - by * cx) / 2.0 * inv_norm * grad_areas_a[f] +
         (-by - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals_a[f][0] +
-        (bx - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
+        (bx - cy * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals_a[f][1] +
         -cz * (bx * cy - by * cx) * inv_norm_3 * grad_normals_a[f][2];
     grad_verts[i1][2] += grad_v1_z;
-- 
2.43.0


From ebbaeb252fd8c24d5c5211e67a09ae39bd773d7d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:16:26 +0000
Subject: [PATCH 131/137] fix: gradient of symeig3x3 eigenvalues when the
 middle one is their mean

---
 pytorch3d/common/workaround/symeig3x3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/common/workaround/symeig3x3.py b/pytorch3d/common/workaround/symeig3x3.py
index 4843143..e4f27f3 100644
--- a/pytorch3d/common/workaround/symeig3x3.py
+++ b/pytorch3d/common/workaround/symeig3x3.py
@@ -98,7 +98,8 @@ class _SymEig3x3(nn.Module):
         # pyrefly: ignore [unsupported-operation]
         B = (inputs - q[..., None, None] * self._identity) / p[..., None, None]
 
-        r = torch.det(B) / 2.0
+        # The determinant is written out, as the gradient of torch.det is 0 at singular B
+        r = (B[..., 0] * torch.cross(B[..., 1], B[..., 2], dim=-1)).sum(dim=-1) / 2.0
         # Keep r within (-1.0, 1.0) boundaries with a margin to prevent exploding gradients.
         r = r.clamp(-1.0 + self._eps, 1.0 - self._eps)
 
-- 
2.43.0


From dbb91d481a66c8eec974100d9ed5eae5438936c8 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:31:41 +0000
Subject: [PATCH 132/137] fix: Volumes.clone of tensors that require gradients

---
 pytorch3d/structures/volumes.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index ba356db..6624850 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -440,7 +440,13 @@ class Volumes:
         Returns:
             new Volumes object.
         """
-        return copy.deepcopy(self)
+        # deepcopy would fail for tensors which are not leaves of an autograd graph
+        other = copy.copy(self)
+        other._densities = self._densities.clone()
+        if self._features is not None:
+            other._features = self._features.clone()
+        other.locator = self.locator.clone()
+        return other
 
     def to(self, device: Device, copy: bool = False) -> "Volumes":
         """
@@ -1142,7 +1148,10 @@ class VolumeLocator:
         Returns:
             new VolumeLocator object.
         """
-        return copy.deepcopy(self)
+        other = copy.copy(self)
+        other._grid_sizes = self._grid_sizes.clone()
+        other._local_to_world_transform = self._local_to_world_transform.clone()
+        return other
 
     def cpu(self) -> "VolumeLocator":
         return self.to("cpu")
-- 
2.43.0


From e02ecd517bb7d1ef24001056f8f1eab9b52abf60 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:13:31 +0000
Subject: [PATCH 133/137] fix: wmean over any dimension with weights that
 broadcast

The weights were reduced without being broadcast to the points, so that
dim referred to other dimensions of the weights than of the points: a mean
over the batch, or over both, with weights per point was wrong.
---
 pytorch3d/ops/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/ops/utils.py b/pytorch3d/ops/utils.py
index d72cdb9..70fb2fa 100644
--- a/pytorch3d/ops/utils.py
+++ b/pytorch3d/ops/utils.py
@@ -105,11 +105,12 @@ def wmean(
     ):
         raise ValueError("wmean: weights are not compatible with the tensor")
 
+    # broadcast the weights, so that `dim` refers to the same dimensions in both sums
+    weight = torch.broadcast_tensors(weight[..., None], x[..., :1])[0]
+
     # pyre-fixme[6]: For 1st param expected `Optional[dtype]` but got
     #  `Union[Tuple[int], int]`.
-    return (x * weight[..., None]).sum(**args) / weight[..., None].sum(**args).clamp(
-        eps
-    )
+    return (x * weight).sum(**args) / weight.sum(**args).clamp(eps)
 
 
 def eyes(
-- 
2.43.0


From e3cf4d19431c2cf75afece48edaf287c551c1808 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:15:15 +0000
Subject: [PATCH 134/137] fix: jitter_extrinsics rotates by at most max_angle

The logarithm of the random rotation, of an angle up to pi, was multiplied
with max_angle, so that cameras were rotated by up to pi times the limit.
---
 pytorch3d/implicitron/tools/camera_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/camera_utils.py b/pytorch3d/implicitron/tools/camera_utils.py
index 0c76373..a9bb092 100644
--- a/pytorch3d/implicitron/tools/camera_utils.py
+++ b/pytorch3d/implicitron/tools/camera_utils.py
@@ -35,7 +35,8 @@ def jitter_extrinsics(
     N = R.shape[0]
     R_jit = pt3d.transforms.random_rotations(1, device=R.device)
     R_jit = pt3d.transforms.so3_exponential_map(
-        pt3d.transforms.so3_log_map(R_jit) * max_angle
+        # the angle of a random rotation is between 0 and pi
+        pt3d.transforms.so3_log_map(R_jit) * (max_angle / math.pi)
     )
     T_jit = torch.randn_like(R_jit[:1, :, 0]) * translation_std
     rigid_transform = pt3d.ops.eyes(dim=4, N=N, device=R.device)
-- 
2.43.0


From 052f994a75741378dbd144293f82c7abda90fb06 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:19:34 +0000
Subject: [PATCH 135/137] fix: canonical offset of evaluation trajectories

traj_offset_canonical is an offset in the local coordinates of the trajectory,
but was added in world coordinates for figure_eight, trefoil_knot and
figure_eight_knot.
---
 pytorch3d/implicitron/tools/eval_video_trajectory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/tools/eval_video_trajectory.py b/pytorch3d/implicitron/tools/eval_video_trajectory.py
index f46fe29..d3ecec5 100644
--- a/pytorch3d/implicitron/tools/eval_video_trajectory.py
+++ b/pytorch3d/implicitron/tools/eval_video_trajectory.py
@@ -112,15 +112,17 @@ def generate_eval_video_cameras(
                 for k in ("focal_length", "principal_point", "R", "T")
             }
         )
-        traj_trans = Scale(cam_centers.std(dim=0).mean() * trajectory_scale).compose(
-            mean_camera.get_world_to_view_transform().inverse()
-        )
+        traj_trans = Scale(cam_centers.std(dim=0).mean() * trajectory_scale)
 
         if traj_offset_canonical is not None:
             traj_trans = traj_trans.translate(
                 torch.FloatTensor(traj_offset_canonical)[None].to(traj)
             )
 
+        traj_trans = traj_trans.compose(
+            mean_camera.get_world_to_view_transform().inverse()
+        )
+
         traj = traj_trans.transform_points(traj)
 
         plane_normal = _fit_plane(cam_centers)[:, 0]
-- 
2.43.0


From d16133b634b31354bc3d1d26b955f926a65032ed Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:20:18 +0000
Subject: [PATCH 136/137] fix: inferred up vector orthogonal to the given one

The normal of the plane of the cameras was multiplied with the sign of its
scalar product with up, so that an orthogonal normal gave a zero vector and
singular camera rotations.
---
 pytorch3d/implicitron/tools/eval_video_trajectory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/eval_video_trajectory.py b/pytorch3d/implicitron/tools/eval_video_trajectory.py
index d3ecec5..3dd58b1 100644
--- a/pytorch3d/implicitron/tools/eval_video_trajectory.py
+++ b/pytorch3d/implicitron/tools/eval_video_trajectory.py
@@ -218,7 +218,8 @@ def _remove_outlier_cameras(
 
 def _disambiguate_normal(normal, up):
     up_t = torch.tensor(up).to(normal)
-    flip = (up_t * normal).sum().sign()
+    # either sign will do for a normal which is orthogonal to up
+    flip = -1.0 if (up_t * normal).sum() < 0 else 1.0
     up = normal * flip
     up = up.tolist()
     return up
-- 
2.43.0


From cc18e6d6ab9afe8d64e9add002cc67ab2e2004b1 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:26:37 +0000
Subject: [PATCH 137/137] fix: mask_background with a background tensor and
 other colour dimensions

---
 pytorch3d/implicitron/tools/image_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/image_utils.py b/pytorch3d/implicitron/tools/image_utils.py
index 7e8b3b0..f105094 100644
--- a/pytorch3d/implicitron/tools/image_utils.py
+++ b/pytorch3d/implicitron/tools/image_utils.py
@@ -27,7 +27,7 @@ def mask_background(
     tgt_view[dim_color] = 3
     # obtain the background color tensor
     if isinstance(bg_color, torch.Tensor):
-        bg_color_t = bg_color.view(1, 3, 1, 1).clone().to(image_rgb)
+        bg_color_t = bg_color.view(*tgt_view).clone().to(image_rgb)
     elif isinstance(bg_color, (float, tuple, list)):
         if isinstance(bg_color, float):
             bg_color = [bg_color] * 3
-- 
2.43.0

