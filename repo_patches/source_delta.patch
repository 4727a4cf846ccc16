From cee950e947fdf06a3d530defefd4ce3e6daa4834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 01/56] fix: reject slices that extend past the end of the
 source array

sdp_mem_create_wrapper_for_slice() compared the slice shape with the source
shape without taking the slice offset into account, so a slice starting part
way through a dimension could run past the end of it.
---
 src/ska-sdp-func/utility/sdp_mem.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index b2de041..5b86de3 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -265,13 +265,15 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
     for (int32_t i = 0; i < num_dims_slice; ++i)
     {
         const int32_t i_dim_slice = num_dims_slice - 1 - i;
-        if (slice_shape[i_dim_slice] > src->shape[src->num_dims - 1 - i])
+        const int32_t i_dim_src = src->num_dims - 1 - i;
+        const int64_t max_shape =
+                src->shape[i_dim_src] - slice_offsets[i_dim_src];
+        if (slice_shape[i_dim_slice] > max_shape)
         {
             *status = SDP_ERR_INVALID_ARGUMENT;
             SDP_LOG_CRITICAL(
                     "Slice shape in dimension %d is too large: %d > %d",
-                    i_dim_slice, slice_shape[i_dim_slice],
-                    src->shape[src->num_dims - 1 - i]
+                    i_dim_slice, slice_shape[i_dim_slice], max_shape
             );
             return 0;
         }
-- 
2.43.0


From 4ca39453694882cb90dab701b10c0d8963efaf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 02/56] fix: keep the first error in
 sdp_mem_check_same_shape_at()

All the other checks return straight away if an error is already set.
---
 src/ska-sdp-func/utility/sdp_mem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 5b86de3..3e4aac9 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -1402,6 +1402,8 @@ void sdp_mem_check_same_shape_at(
         int line
 )
 {
+    if (*status) return;
+
     // Skip the check if the memory object has fewer dimension - we
     // assume there will be an sdp_mem_check_num_dims that will
     // already have objected to the wrong dimensionality.
-- 
2.43.0


From 5a7b660ca0e6e52b2fa4ee718863d36c1de493da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 03/56] fix: deep copy of a non-contiguous array

sdp_mem_create_copy() allocated space for the elements of the source only, but
gave the copy the strides of the source, so that accesses via the copy went out
of bounds, and it copied the wrong elements.
---
 src/ska-sdp-func/utility/sdp_mem.cpp | 41 +++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 3e4aac9..91b2a20 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -88,6 +88,33 @@ void sdp_mem_alloc(sdp_Mem* mem, sdp_Error* status)
 }
 
 
+// Copy elements of a multi-dimensional array in host memory, using strides.
+void copy_strided(
+        char* dst,
+        const int64_t* dst_stride,
+        const char* src,
+        const int64_t* src_stride,
+        const int64_t* shape,
+        int32_t num_dims,
+        int64_t element_size
+)
+{
+    if (num_dims == 0)
+    {
+        memcpy(dst, src, element_size);
+        return;
+    }
+    for (int64_t i = 0; i < shape[0]; ++i)
+    {
+        copy_strided(
+                dst + i * dst_stride[0], dst_stride + 1,
+                src + i * src_stride[0], src_stride + 1,
+                shape + 1, num_dims - 1, element_size
+        );
+    }
+}
+
+
 // Multiply all elements of an array by the specified value.
 template<typename T>
 void scale_real(sdp_Mem* mem, double value)
@@ -315,10 +342,22 @@ sdp_Mem* sdp_mem_create_copy(
         sdp_Error* status
 )
 {
+    // A non-contiguous source is packed, as only its elements are allocated.
     sdp_Mem* mem = sdp_mem_create_wrapper(0, src->type, location,
-            src->num_dims, src->shape, src->stride, status
+            src->num_dims, src->shape,
+            src->is_c_contiguous ? src->stride : 0, status
     );
     sdp_mem_alloc(mem, status);
+    if (!src->is_c_contiguous &&
+            src->location == SDP_MEM_CPU && location == SDP_MEM_CPU)
+    {
+        if (*status || !mem->data || !src->data) return mem;
+        copy_strided((char*) mem->data, mem->stride,
+                (const char*) src->data, src->stride,
+                src->shape, src->num_dims, sdp_mem_type_size(src->type)
+        );
+        return mem;
+    }
     sdp_mem_copy_contents(mem, src, 0, 0, src->num_elements, status);
     return mem;
 }
-- 
2.43.0


From e96eb44100c5a3ee9f5a823e5e800207f62d91ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 04/56] fix: clear only the elements of a non-contiguous array

sdp_mem_clear_contents() is documented to set all elements of the block to zero,
but for a non-contiguous array it cleared the wrong elements, and also ones
which are not part of the array.
---
 src/ska-sdp-func/utility/sdp_mem.cpp | 30 ++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 91b2a20..1b7cbe5 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -88,6 +88,29 @@ void sdp_mem_alloc(sdp_Mem* mem, sdp_Error* status)
 }
 
 
+// Clear elements of a multi-dimensional array in host memory, using strides.
+void clear_strided(
+        char* data,
+        const int64_t* stride,
+        const int64_t* shape,
+        int32_t num_dims,
+        int64_t element_size
+)
+{
+    if (num_dims == 0)
+    {
+        memset(data, 0, element_size);
+        return;
+    }
+    for (int64_t i = 0; i < shape[0]; ++i)
+    {
+        clear_strided(data + i * stride[0], stride + 1, shape + 1,
+                num_dims - 1, element_size
+        );
+    }
+}
+
+
 // Copy elements of a multi-dimensional array in host memory, using strides.
 void copy_strided(
         char* dst,
@@ -366,6 +389,13 @@ sdp_Mem* sdp_mem_create_copy(
 void sdp_mem_clear_contents(sdp_Mem* mem, sdp_Error* status)
 {
     if (*status || !mem || mem->num_elements == 0) return;
+    if (!mem->is_c_contiguous && mem->data && mem->location == SDP_MEM_CPU)
+    {
+        clear_strided((char*) mem->data, mem->stride, mem->shape,
+                mem->num_dims, sdp_mem_type_size(mem->type)
+        );
+        return;
+    }
     sdp_mem_clear_portion(mem, 0, mem->num_elements, status);
 }
 
-- 
2.43.0


From 424e736a4b2f4547176e8b570306a08b6bf7985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 05/56] fix: ignore samples below the lower edge of the weights
 grid

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index c8e4788..ff516e4 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -50,7 +50,8 @@ static void weights_grid_write(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u >= grid_size || idx_v >= grid_size) continue;
+                if (idx_u < 0 || idx_u >= grid_size) continue;
+                if (idx_v < 0 || idx_v >= grid_size) continue;
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
                         grid_size,
@@ -110,7 +111,8 @@ static void sum_weights_calc(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u >= grid_size || idx_v >= grid_size) continue;
+                if (idx_u < 0 || idx_u >= grid_size) continue;
+                if (idx_v < 0 || idx_v >= grid_size) continue;
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
                         grid_size,
@@ -181,7 +183,8 @@ static void uniform_weights_grid_read(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                if (idx_u >= 0 && idx_u < grid_size &&
+                        idx_v >= 0 && idx_v < grid_size)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
@@ -245,7 +248,8 @@ static void briggs_weights_grid_read(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                if (idx_u >= 0 && idx_u < grid_size &&
+                        idx_v >= 0 && idx_v < grid_size)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
-- 
2.43.0


From 1f7ba318e222770908ca1c16ff20952bc8094e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 06/56] fix: use the first tile in u in the CPU tile functions

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 26629dc..aa3875d 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -82,7 +82,7 @@ static void sdp_tile_count_simple(
                     int tile_v_max = 0;
 
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
@@ -187,7 +187,7 @@ static void sdp_bucket_sort_simple(
                     int tile_v_min = 0;
                     int tile_v_max = 0;
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
@@ -274,7 +274,7 @@ static void tiled_indexing(
                     int tile_v_min = 0;
                     int tile_v_max = 0;
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
-- 
2.43.0


From 8eb0828d7779f446c38ce04343f37bef0be2d340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 07/56] fix: write the sorted coordinates in the CPU version of
 tiled indexing

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index aa3875d..7b2265a 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -230,6 +230,8 @@ static void tiled_indexing(
         const int64_t top_left_u,
         const int64_t top_left_v,
         int* tile_offsets,
+        UVW_TYPE* sorted_uu,
+        UVW_TYPE* sorted_vv,
         int* sorted_vis_index,
         int* sorted_tile,
         const double cell_size_rad
@@ -285,6 +287,8 @@ static void tiled_indexing(
                         {
                             int off = tile_offsets[pu + pv * num_tiles_u];
                             tile_offsets[pu + pv * num_tiles_u] += 1;
+                            sorted_uu[off] = pos_u;
+                            sorted_vv[off] = pos_v;
                             for (int i = 0; i < num_pol; i++)
                             {
                                 sorted_vis_index[off] = i_vis + i;
@@ -778,6 +782,8 @@ void sdp_tiled_indexing(
                     top_left_u,
                     top_left_v,
                     (int*)sdp_mem_data(tile_offsets),
+                    (double*)sdp_mem_data(sorted_uu),
+                    (double*)sdp_mem_data(sorted_vv),
                     (int*)sdp_mem_data(sorted_vis_index),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
@@ -800,6 +806,8 @@ void sdp_tiled_indexing(
                     top_left_u,
                     top_left_v,
                     (int*)sdp_mem_data(tile_offsets),
+                    (float*)sdp_mem_data(sorted_uu),
+                    (float*)sdp_mem_data(sorted_vv),
                     (int*)sdp_mem_data(sorted_vis_index),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
-- 
2.43.0


From 93d52c7cc299ca21ee030df62880c8f4bbcb4f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 08/56] fix: do nothing in the tile functions when an argument
 check fails

---
 .../visibility/sdp_tiled_functions.cpp        | 43 +++++++++++--------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 7b2265a..046fe0e 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -319,11 +319,7 @@ void sdp_count_and_prefix_sum(
         sdp_Error* status
 )
 {
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(tile_offsets, status);
-    sdp_mem_clear_contents(num_points_in_tiles, status);
-    sdp_mem_clear_contents(num_skipped, status);
-
+    if (*status) return;
     sdp_MemLocation vis_location = sdp_mem_location(vis);
     sdp_MemType vis_type = sdp_mem_type(vis);
     sdp_MemType uvw_type = sdp_mem_type(uvw);
@@ -366,6 +362,13 @@ void sdp_count_and_prefix_sum(
             status
     );
 
+    if (*status) return;
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(tile_offsets, status);
+    sdp_mem_clear_contents(num_points_in_tiles, status);
+    sdp_mem_clear_contents(num_skipped, status);
+
     if (vis_location == SDP_MEM_CPU)
     {
         if (uvw_type == SDP_MEM_DOUBLE &&
@@ -514,13 +517,6 @@ void sdp_bucket_sort(
 )
 {
     if (*status) return;
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(sorted_uu, status);
-    sdp_mem_clear_contents(sorted_tile, status);
-    sdp_mem_clear_contents(sorted_vv, status);
-    sdp_mem_clear_contents(sorted_weight, status);
-    sdp_mem_clear_contents(sorted_vis, status);
-
     sdp_MemLocation vis_location = sdp_mem_location(vis);
     sdp_MemType vis_type = sdp_mem_type(vis);
     sdp_MemType uvw_type = sdp_mem_type(uvw);
@@ -575,6 +571,15 @@ void sdp_bucket_sort(
             status
     );
 
+    if (*status) return;
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(sorted_uu, status);
+    sdp_mem_clear_contents(sorted_tile, status);
+    sdp_mem_clear_contents(sorted_vv, status);
+    sdp_mem_clear_contents(sorted_weight, status);
+    sdp_mem_clear_contents(sorted_vis, status);
+
     if (vis_location == SDP_MEM_CPU)
     {
         if (uvw_type == SDP_MEM_DOUBLE &&
@@ -733,12 +738,6 @@ void sdp_tiled_indexing(
 )
 {
     if (*status) return;
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(sorted_tile, status);
-    sdp_mem_clear_contents(sorted_vis_index, status);
-    sdp_mem_clear_contents(sorted_vv, status);
-    sdp_mem_clear_contents(sorted_uu, status);
-
     sdp_MemLocation uvw_loc = sdp_mem_location(uvw);
     sdp_MemType uvw_type = sdp_mem_type(uvw);
     sdp_MemType freq_type = sdp_mem_type(freqs);
@@ -763,6 +762,14 @@ void sdp_tiled_indexing(
             status
     );
 
+    if (*status) return;
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(sorted_tile, status);
+    sdp_mem_clear_contents(sorted_vis_index, status);
+    sdp_mem_clear_contents(sorted_vv, status);
+    sdp_mem_clear_contents(sorted_uu, status);
+
     if (uvw_loc == SDP_MEM_CPU)
     {
         if (uvw_type == SDP_MEM_DOUBLE &&
-- 
2.43.0


From 3a9263d93a00f2da1aafb0a3c42857befb7ef72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 09/56] fix: report unsupported data types when counting
 visibilities in tiles

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 046fe0e..997a50f 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -400,6 +400,11 @@ void sdp_count_and_prefix_sum(
 
             *num_visibilites = *((int*)sdp_mem_data(tile_offsets) + num_tiles);
         }
+        else
+        {
+            *status = SDP_ERR_DATA_TYPE;
+            SDP_LOG_ERROR("Unsupported data type(s)");
+        }
     }
     else if (vis_location == SDP_MEM_GPU)
     {
-- 
2.43.0


From 066bc19577dc8c7ab9d67890ba1f4a53ccc58225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 10/56] fix: sort complex visibilities in the CPU bucket sort

---
 .../visibility/sdp_tiled_functions.cpp        | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 997a50f..aeb1c30 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -589,9 +589,11 @@ void sdp_bucket_sort(
     {
         if (uvw_type == SDP_MEM_DOUBLE &&
                 weight_type == SDP_MEM_DOUBLE &&
-                freq_type == SDP_MEM_DOUBLE)
+                freq_type == SDP_MEM_DOUBLE &&
+                vis_type == SDP_MEM_COMPLEX_DOUBLE &&
+                sdp_mem_type(sorted_vis) == vis_type)
         {
-            sdp_bucket_sort_simple<double, double, double, double>(
+            sdp_bucket_sort_simple<double, double, std::complex<double>, double>(
                     support,
                     num_times,
                     num_baselines,
@@ -601,7 +603,7 @@ void sdp_bucket_sort(
                     inv_tile_size_v,
                     (const double*) sdp_mem_data_const(uvw),
                     (const double*)sdp_mem_data_const(freqs),
-                    (const double*)sdp_mem_data_const(vis),
+                    (const std::complex<double>*)sdp_mem_data_const(vis),
                     (const double*)sdp_mem_data_const(weights),
                     num_tiles_u,
                     top_left_u,
@@ -609,7 +611,7 @@ void sdp_bucket_sort(
                     (int*)sdp_mem_data(tile_offsets),
                     (double*)sdp_mem_data(sorted_uu),
                     (double*)sdp_mem_data(sorted_vv),
-                    (double*)sdp_mem_data(sorted_vis),
+                    (std::complex<double>*)sdp_mem_data(sorted_vis),
                     (double*)sdp_mem_data(sorted_weight),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
@@ -617,9 +619,11 @@ void sdp_bucket_sort(
         }
         else if (uvw_type == SDP_MEM_FLOAT &&
                 weight_type == SDP_MEM_FLOAT &&
-                freq_type == SDP_MEM_FLOAT)
+                freq_type == SDP_MEM_FLOAT &&
+                vis_type == SDP_MEM_COMPLEX_FLOAT &&
+                sdp_mem_type(sorted_vis) == vis_type)
         {
-            sdp_bucket_sort_simple<float, float, float, float>(
+            sdp_bucket_sort_simple<float, float, std::complex<float>, float>(
                     support,
                     num_times,
                     num_baselines,
@@ -629,7 +633,7 @@ void sdp_bucket_sort(
                     inv_tile_size_v,
                     (const float*) sdp_mem_data_const(uvw),
                     (const float*)sdp_mem_data_const(freqs),
-                    (const float*)sdp_mem_data_const(vis),
+                    (const std::complex<float>*)sdp_mem_data_const(vis),
                     (const float*)sdp_mem_data_const(weights),
                     num_tiles_u,
                     top_left_u,
@@ -637,7 +641,7 @@ void sdp_bucket_sort(
                     (int*)sdp_mem_data(tile_offsets),
                     (float*)sdp_mem_data(sorted_uu),
                     (float*)sdp_mem_data(sorted_vv),
-                    (float*)sdp_mem_data(sorted_vis),
+                    (std::complex<float>*)sdp_mem_data(sorted_vis),
                     (float*)sdp_mem_data(sorted_weight),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
-- 
2.43.0


From e53b84514c9f87ec229b2ea10ee1b6a714408601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 11/56] fix: convolve images of odd size correctly on the CPU

The row length of the padded images and of the cropped result was derived
from the padding, which is not symmetric for odd sizes: rows were sheared
and the output written past its end. Element -1 was read when no padding
was needed.
---
 .../numeric_functions/sdp_fft_convolution.cpp | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 65866b2..6cfc1d2 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -62,12 +62,11 @@ inline void sdp_pad_2d(
         int64_t rows,
         int64_t cols,
         int64_t pad_rows,
-        int64_t pad_cols
+        int64_t pad_cols,
+        int64_t padded_cols
 )
 {
     int64_t i = 0, j = 0;
-    // int64_t padded_rows = rows + 2*pad_rows;
-    int64_t padded_cols = cols + 2 * pad_cols;
 
     for (i = 0; i < rows; i++)
     {
@@ -87,21 +86,21 @@ inline void sdp_remove_padding_2d(
         int64_t rows,
         int64_t cols,
         int64_t pad_rows,
-        int64_t pad_cols
+        int64_t pad_cols,
+        int64_t original_rows,
+        int64_t original_cols
 )
 {
     int64_t i = 0, j = 0;
-    int64_t original_rows = rows - 2 * pad_rows;
-    int64_t original_cols = cols - 2 * pad_cols;
 
     for (i = 0; i < original_rows; i++)
     {
         for (j = 0; j < original_cols; j++)
         {
-            data[i * original_cols +
-                    j] =
-                    padded_data[(i + (pad_rows - 1)) * cols +
-                            (j + (pad_cols - 1))];
+            // The convolution is circular, so wrap round if there is no padding.
+            const int64_t i_pad = (i + pad_rows - 1 + rows) % rows;
+            const int64_t j_pad = (j + pad_cols - 1 + cols) % cols;
+            data[i * original_cols + j] = padded_data[i_pad * cols + j_pad];
         }
     }
 }
@@ -162,7 +161,9 @@ static void sdp_fft_convolution_cpu(
     int64_t extra_in1 = (pad_dim - in1_dim) / 2;
 
     // pad in1
-    sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim, extra_in1, extra_in1);
+    sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim,
+            extra_in1, extra_in1, pad_dim
+    );
 
     // create memory to save padded input in2
     sdp_Mem* in2_pad_mem = sdp_mem_create(data_type,
@@ -178,7 +179,9 @@ static void sdp_fft_convolution_cpu(
     int64_t extra_in2 = (pad_dim - in2_dim) / 2;
 
     // pad in2
-    sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim, extra_in2, extra_in2);
+    sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim,
+            extra_in2, extra_in2, pad_dim
+    );
 
     // get FFT of padded in1
     sdp_Fft* in1_fft_plan = sdp_fft_create(in1_pad_mem,
@@ -235,7 +238,9 @@ static void sdp_fft_convolution_cpu(
             pad_dim,
             pad_dim,
             extra_in1,
-            extra_in1
+            extra_in1,
+            in1_dim,
+            in1_dim
     );
 
     sdp_mem_ref_dec(in1_pad_mem);
-- 
2.43.0


From 77fbb83e83650bf711d3f14f89b9e0f1c95db6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 12/56] fix: count non-zero pixels of images that are not
 square

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 0a8c1a8..1cdd675 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -107,13 +107,12 @@ template<typename FLUX_TYPE>
 int64_t count_nonzero_pixels(const sdp_Mem* image, sdp_Error* status)
 {
     int64_t num_sources = 0;
-    const int image_size = (int) sdp_mem_shape_dim(image, 0);
     sdp_MemViewCpu<const FLUX_TYPE, 2> image_;
     sdp_mem_check_and_view(image, &image_, status);
     if (*status) return 0;
-    for (int il = 0; il < image_size; ++il)
+    for (int64_t il = 0; il < image_.shape[0]; ++il)
     {
-        for (int im = 0; im < image_size; ++im)
+        for (int64_t im = 0; im < image_.shape[1]; ++im)
         {
             if (image_(il, im) != (FLUX_TYPE) 0) num_sources++;
         }
-- 
2.43.0


From 6ac850a461ff636e20fdc238ec22c0219a7936a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 13/56] fix: make single-precision PSWF kernels without
 overwriting the window

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 1cdd675..1e1d5ce 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1343,7 +1343,17 @@ void sdp_gridder_make_pswf_kernel(
             sdp_mem_type(kernel), SDP_MEM_CPU, 1, pswf_shape, status
     );
     sdp_generate_pswf(0, support * (M_PI / 2), pswf, status);
-    if (vr_size % 2 == 0) ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+    if (vr_size % 2 == 0 && !*status)
+    {
+        if (sdp_mem_type(pswf) == SDP_MEM_DOUBLE)
+        {
+            ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+        }
+        else if (sdp_mem_type(pswf) == SDP_MEM_FLOAT)
+        {
+            ((float*) sdp_mem_data(pswf))[0] = 1e-15f;
+        }
+    }
     sdp_gridder_make_kernel(pswf, kernel, status);
     sdp_mem_free(pswf);
 }
-- 
2.43.0


From 9cd1ffa154e131cda7cba6f7371f539ac2313529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 14/56] fix: use only the selected channels in the direct
 gridder

---
 .../grid_data/sdp_gridder_utils.cpp            | 18 +++++++++---------
 .../grid_data/sdp_gridder_utils.cu             | 10 ++++------
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 1e1d5ce..2214941 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -180,11 +180,12 @@ void dft(
     #pragma omp parallel for
     for (int64_t i = 0; i < num_uvw; ++i)
     {
-        // Skip if there's no visibility to degrid.
-        if (start_chs && end_chs && start_chs_(i) >= end_chs_(i)) continue;
+        // Get range of channels to degrid (which may be empty).
+        const int start_ch = start_chs && end_chs ? start_chs_(i) : 0;
+        const int end_ch = start_chs && end_chs ? end_chs_(i) : num_chan;
 
         // Loop over channels.
-        for (int c = 0; c < num_chan; ++c)
+        for (int c = start_ch; c < end_ch; ++c)
         {
             const double inv_wave = (freq0_hz + dfreq_hz * c) / C_0;
 
@@ -280,14 +281,13 @@ void idft(
             // Loop over uvw values.
             for (int64_t i = 0; i < num_uvw; ++i)
             {
-                // Skip if there's no visibility to grid.
-                if (start_chs && end_chs && start_chs_(i) >= end_chs_(i))
-                {
-                    continue;
-                }
+                // Get range of channels to grid (which may be empty).
+                const int start_ch = start_chs && end_chs ? start_chs_(i) : 0;
+                const int end_ch = start_chs && end_chs ?
+                            end_chs_(i) : num_chan;
 
                 // Loop over channels.
-                for (int c = 0; c < num_chan; ++c)
+                for (int c = start_ch; c < end_ch; ++c)
                 {
                     const double inv_wave = (freq0_hz + dfreq_hz * c) / C_0;
 
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
index 32c2f94..d08ca47 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
@@ -98,14 +98,12 @@ __global__ void sdp_gridder_idft(
     // Loop over uvw values.
     for (int64_t i = 0; i < num_uvw; ++i)
     {
-        // Skip if there's no visibility to grid.
-        if (use_start_end_chs && start_chs(i) >= end_chs(i))
-        {
-            continue;
-        }
+        // Get range of channels to grid (which may be empty).
+        const int start_ch = use_start_end_chs ? start_chs(i) : 0;
+        const int end_ch = use_start_end_chs ? end_chs(i) : num_chan;
 
         // Loop over channels.
-        for (int c = 0; c < num_chan; ++c)
+        for (int c = start_ch; c < end_ch; ++c)
         {
             const double inv_wave = (freq0_hz + dfreq_hz * c) / C_0;
 
-- 
2.43.0


From 3574ca6e260827776a7e7fbe56f0cdeada200a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 15/56] fix: degrid single-precision data with the direct
 gridder

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 2214941..223410e 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1057,7 +1057,7 @@ void sdp_gridder_dft(
 {
     if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(vis);
-    const sdp_MemType flux_type = sdp_mem_type(lmn);
+    const sdp_MemType flux_type = sdp_mem_type(flux);
     const sdp_MemType dir_type = sdp_mem_type(lmn);
     const sdp_MemType uvw_type = sdp_mem_type(uvws);
     const sdp_MemType vis_type = sdp_mem_type(vis);
-- 
2.43.0


From c2e318faf4134c3df9178531b8732c1abf7d6401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 16/56] fix: accept an empty image in the direct gridder

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 0c48cba..0104241 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -76,6 +76,7 @@ void sdp_gridder_direct_degrid(
 
     // Count nonzero pixels in image.
     int64_t num_src = sdp_gridder_count_nonzero_pixels(subgrid_image, status);
+    if (*status || num_src == 0) return; // An empty image adds nothing.
     const sdp_MemType dir_type = sdp_mem_type(uvws);
     const sdp_MemLocation loc = sdp_mem_location(vis);
     const int64_t lmn_shape[] = {num_src, 3};
-- 
2.43.0


From f507627813306ca46dd635911e8eb5bd8142bafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 17/56] fix: compute every value of a PSWF of odd size

---
 src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index 8d3bb47..c67d844 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -586,7 +586,7 @@ static inline void generate_pswf(
     pswf_(size / 2) = sdp_pswf_aswfa(m, m, c, ck, 0);
 
     // Get remaining values
-    for (int i = 1; i < size / 2; i++)
+    for (int i = 1; i < (size + 1) / 2; i++)
     {
         // Get value (plus derivative)
         const double x = 2 * ((double)i) / size;
-- 
2.43.0


From 4a6d72ea854b62ada06a5a043e65d8559b24b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 18/56] fix: keep the first taper value of odd sub-grids in the
 direct gridder

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 0104241..e157dc1 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -52,7 +52,10 @@ sdp_GridderDirect* sdp_gridder_direct_create(
             SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, pswf_sg_shape, status
     );
     sdp_generate_pswf(0, support * (M_PI / 2), plan->pswf_sg, status);
-    ((double*)sdp_mem_data(plan->pswf_sg))[0] = 1e-15;
+    if (subgrid_size % 2 == 0)
+    {
+        ((double*)sdp_mem_data(plan->pswf_sg))[0] = 1e-15;
+    }
     return plan;
 }
 
-- 
2.43.0


From 24c18d00e5387763f473cc403c4530ccc0d381e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 19/56] fix: use the right w-kernel when degridding far
 negative w with custom kernels

---
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp | 4 +++-
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index 2a25e3d..31148da 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -52,7 +52,9 @@ static inline void calculate_coordinates(
     // w or z coordinate
     const double oz = (1.0 + w / wstep) * oversample_w;
     const int ioz = (int)round(oz) + oversample_w - 1;
-    const int frac_z = oversample_w - 1 - (ioz % oversample_w);
+    const int mod_z = ioz % oversample_w;
+    const int frac_z = oversample_w - 1 -
+            (mod_z < 0 ? mod_z + oversample_w : mod_z);
 
     *sub_offset_x = kernel_stride * frac_x;
     *sub_offset_y = kernel_stride * frac_y;
diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
index 0d14a40..ef1880b 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
@@ -46,7 +46,9 @@ __device__ __inline__ void calculate_coordinates(
     // w or z coordinate
     const double oz = (1.0 + w / wstep) * oversample_w;
     const int ioz = __double2int_rn(oz) + oversample_w - 1;
-    const int frac_z = oversample_w - 1 - (ioz % oversample_w);
+    const int mod_z = ioz % oversample_w;
+    const int frac_z = oversample_w - 1 -
+            (mod_z < 0 ? mod_z + oversample_w : mod_z);
 
     *sub_offset_x = kernel_stride * frac_x;
     *sub_offset_y = kernel_stride * frac_y;
-- 
2.43.0


From 59ab4fea2d89147c90fc18c2a42423a6068c3081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 20/56] fix: refuse arrays that degridding with custom kernels
 would misread

---
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index 31148da..bbd5367 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -232,7 +232,17 @@ void sdp_degrid_uvw_custom(
         num_channels, z_size, y_size, x_size, num_pols
     };
     sdp_mem_check_shape(grid, 5, expected_grid_shape, status);
+    sdp_mem_check_c_contiguity(vis, status);
+    sdp_mem_check_c_contiguity(grid, status);
+    sdp_mem_check_c_contiguity(uv_kernel, status);
+    sdp_mem_check_c_contiguity(w_kernel, status);
     if (*status) return;
+    if (w_kernel_size > z_size)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The w-kernel is larger than the grid");
+        return;
+    }
 
     if (sdp_mem_location(grid) != vis_location ||
             sdp_mem_location(uv_kernel) != vis_location ||
-- 
2.43.0


From 4d403f12bf302dbd75ed6893f8155b946c925230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 21/56] fix: take the median of an odd number of samples in the
 flagger

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 6668977..d37fa29 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -82,7 +82,7 @@ static void filler(AA* arr, VL val, int length)
 
 static double median_calc(double* arr, int n)
 {
-    int mid = int(round(0.5 * n));
+    int mid = n / 2;
     double median = arr[mid];
     return median;
 }
@@ -90,7 +90,7 @@ static double median_calc(double* arr, int n)
 
 static double median_dev_calc(double* arr, int n, double median)
 {
-    int mid = int(round(0.5 * n));
+    int mid = n / 2;
     double* devs = new double[n];
     for (int i = 0; i < n; i++)
     {
-- 
2.43.0


From 0a9c89edde33b8a94bcab3f3eb783c02a97dcba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 22/56] fix: include the first channel in the flagger window

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index d37fa29..5b2aad4 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -229,7 +229,7 @@ static void flagger_dynamic_threshold(
                             {
                                 for (int w = 0; w < window; w++)
                                 {
-                                    if (c - w - 1 > 0)
+                                    if (c - w - 1 >= 0)
                                     {
                                         pos = baseline_pos + (c - w - 1) *
                                                 num_pols + p;
@@ -314,7 +314,7 @@ static void flagger_dynamic_threshold(
                                 {
                                     for (int w = 0; w < window; w++)
                                     {
-                                        if (c - w - 1 > 0)
+                                        if (c - w - 1 >= 0)
                                         {
                                             pos = baseline_pos + (c - w - 1) *
                                                     num_pols + p;
-- 
2.43.0


From d2f70c1ad59d40055b9c139658b829cd89432b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 23/56] fix: check the shape of the flags and the sampling step
 in the flagger

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 5b2aad4..74f30e1 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -34,6 +34,15 @@ static void check_params_dynamic(
         SDP_LOG_ERROR("Visibility and flags arrays must be 4D.");
         return;
     }
+    for (int i = 0; i < 4; ++i)
+    {
+        if (sdp_mem_shape_dim(vis, i) != sdp_mem_shape_dim(flags, i))
+        {
+            *status = SDP_ERR_RUNTIME;
+            SDP_LOG_ERROR("Visibility and flags must have the same shape.");
+            return;
+        }
+    }
     if (!sdp_mem_is_complex(vis))
     {
         *status = SDP_ERR_DATA_TYPE;
@@ -371,6 +380,14 @@ void sdp_flagger_dynamic_threshold(
     const int num_channels      = (int) sdp_mem_shape_dim(vis, 2);
     const int num_pols   = (int) sdp_mem_shape_dim(vis, 3);
 
+    if (sampling_step < 1 || sampling_step > num_channels ||
+            window_median_history < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Sampling step or median history out of range.");
+        return;
+    }
+
     if (sdp_mem_location(vis) == SDP_MEM_CPU)
     {
         if (sdp_mem_type(vis) == SDP_MEM_COMPLEX_FLOAT &&
-- 
2.43.0


From 3c005625a914a7d1a4049466c5e585ff8a32481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 24/56] fix: SwiFTly: reduce facet offsets modulo the image
 size in the 2D functions

The 2D add_to_subgrid and extract_from_subgrid used negative facet offsets as
they were, so memory outside the arrays was read and written.
---
 .../fourier_transforms/sdp_swiftly.cpp            | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 2843db9..5b3e1ac 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -422,11 +422,13 @@ void sdp_swiftly_add_to_subgrid_2d(
     if (*status) return;
 
     // Calculate facet offsets (in xM_size resolution).
-    const int64_t fct_offs0 = facet_offset0 / (image_size / xM_size);
+    const int64_t fct_offs0 =
+            mod_p(facet_offset0, image_size) / (image_size / xM_size);
     const int64_t offs0 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs0,
             xM_size
     );
-    const int64_t fct_offs1 = facet_offset1 / (image_size / xM_size);
+    const int64_t fct_offs1 =
+            mod_p(facet_offset1, image_size) / (image_size / xM_size);
     const int64_t offs1 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs1,
             xM_size
     );
@@ -875,7 +877,8 @@ void sdp_swiftly_extract_from_subgrid(
     for (int64_t i0 = 0; i0 < bc0_size; i0++)
     {
         // Calculate facet offsets (in xM_size resolution).
-        const int64_t fct_offs = facet_offset / (image_size / xM_size);
+        const int64_t fct_offs =
+                mod_p(facet_offset, image_size) / (image_size / xM_size);
         const int64_t offs = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs,
                 xM_size
         );
@@ -939,11 +942,13 @@ void sdp_swiftly_extract_from_subgrid_2d(
     if (*status) return;
 
     // Calculate facet offsets (in xM_size resolution).
-    const int64_t fct_offs0 = facet_offset0 / (image_size / xM_size);
+    const int64_t fct_offs0 =
+            mod_p(facet_offset0, image_size) / (image_size / xM_size);
     const int64_t offs0 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs0,
             xM_size
     );
-    const int64_t fct_offs1 = facet_offset1 / (image_size / xM_size);
+    const int64_t fct_offs1 =
+            mod_p(facet_offset1, image_size) / (image_size / xM_size);
     const int64_t offs1 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs1,
             xM_size
     );
-- 
2.43.0


From c44f9ec08905150ce0065c404c3362d9f3e76b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 25/56] fix: SwiFTly: place contributions of odd size at the
 right position

---
 .../fourier_transforms/sdp_swiftly.cpp        | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 5b3e1ac..d9b65fd 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -385,12 +385,12 @@ void sdp_swiftly_add_to_subgrid(
         for (i = 0; i < stop1; i++)
         {
             out(i0, i + offs) += Fn(i) *
-                    contrib(i0, (i + fct_offs + xM_yN_size / 2) % xM_yN_size);
+                    contrib(i0, (i + fct_offs + (xM_yN_size + 1) / 2) % xM_yN_size);
         }
         for (; i < xM_yN_size; i++)
         {
             out(i0, i + offs - xM_size) += Fn(i) *
-                    contrib(i0, (i + fct_offs + xM_yN_size / 2) % xM_yN_size);
+                    contrib(i0, (i + fct_offs + (xM_yN_size + 1) / 2) % xM_yN_size);
         }
     }
 }
@@ -446,15 +446,15 @@ void sdp_swiftly_add_to_subgrid_2d(
         for (; i1 < stop1; i1++)
         {
             out(i0 + offs0, i1 + offs1) += fn0 * Fn(i1) *
-                    contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+                    contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
                     );
         }
         for (; i1 < xM_yN_size; i1++)
         {
             out(i0 + offs0, i1 + offs1 - xM_size) += fn0 * Fn(i1) *
-                    contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+                    contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
                     );
         }
     }
@@ -465,15 +465,15 @@ void sdp_swiftly_add_to_subgrid_2d(
         for (; i1 < stop1; i1++)
         {
             out(i0 + offs0 - xM_size, i1 + offs1) += fn0 * Fn(i1) *
-                    contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+                    contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
                     );
         }
         for (; i1 < xM_yN_size; i1++)
         {
             out(i0 + offs0 - xM_size, i1 + offs1 - xM_size) += fn0 * Fn(i1) *
-                    contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+                    contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
                     );
         }
     }
@@ -887,12 +887,12 @@ void sdp_swiftly_extract_from_subgrid(
         int64_t i = 0;
         for (; i < stop1; i++)
         {
-            contrib(i0, (i + fct_offs + xM_yN_size / 2) % xM_yN_size) =
+            contrib(i0, (i + fct_offs + (xM_yN_size + 1) / 2) % xM_yN_size) =
                     sg_img(i0, i + offs) * Fn(i);
         }
         for (; i < xM_yN_size; i++)
         {
-            contrib(i0, (i + fct_offs + xM_yN_size / 2) % xM_yN_size) =
+            contrib(i0, (i + fct_offs + (xM_yN_size + 1) / 2) % xM_yN_size) =
                     sg_img(i0, i + offs - xM_size) * Fn(i);
         }
     }
@@ -965,15 +965,15 @@ void sdp_swiftly_extract_from_subgrid_2d(
         int64_t i1 = 0;
         for (; i1 < stop1; i1++)
         {
-            contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+            contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
             ) =
                     fn0 * Fn(i1) * sg_img(i0 + offs0, i1 + offs1);
         }
         for (; i1 < xM_yN_size; i1++)
         {
-            contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+            contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
             ) =
                     fn0 * Fn(i1) * sg_img(i0 + offs0, i1 + offs1 - xM_size);
         }
@@ -984,15 +984,15 @@ void sdp_swiftly_extract_from_subgrid_2d(
         int64_t i1 = 0;
         for (; i1 < stop1; i1++)
         {
-            contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+            contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
             ) =
                     fn0 * Fn(i1) * sg_img(i0 + offs0 - xM_size, i1 + offs1);
         }
         for (; i1 < xM_yN_size; i1++)
         {
-            contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+            contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
             ) =
                     fn0 * Fn(i1) * sg_img(i0 + offs0 - xM_size,
                     i1 + offs1 - xM_size
-- 
2.43.0


From 6eb34de1a0410eebd705a1e5f7cb3d0fc82bbb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 26/56] fix: SwiFTly: use the strides of the temporary in
 finish_subgrid_inplace_2d

The strides of the sub-grid were used for the contiguous temporary buffer.
---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index d9b65fd..e577017 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -701,7 +701,7 @@ void sdp_swiftly_finish_subgrid_inplace_2d(
     const pocketfft::stride_t stride_tmp = {
         xM_size* cpx_size, cpx_size
     };
-    pocketfft::c2c(shape, stride, stride, { 0, 1 }, pocketfft::BACKWARD,
+    pocketfft::c2c(shape, stride, stride_tmp, { 0, 1 }, pocketfft::BACKWARD,
             sg.ptr, tmp.ptr, 1. / xM_size / xM_size
     );
 
-- 
2.43.0


From 71b0db203833ca233ceb5549cbffaf24a615fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 27/56] fix: SwiFTly: release the plan in sdp_swiftly_free

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index e577017..ed2ea49 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -150,6 +150,7 @@ void sdp_swiftly_free(sdp_SwiFTly* swiftly)
     {
         sdp_mem_free(swiftly->Fb);
         sdp_mem_free(swiftly->Fn);
+        free(swiftly);
     }
 }
 
-- 
2.43.0


From 31dcc0e4472a7355a1c067d823f55c0619256569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 28/56] fix: SwiFTly: check the first dimension in the 2D
 functions too

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index ed2ea49..dcd0315 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -414,9 +414,11 @@ void sdp_swiftly_add_to_subgrid_2d(
     const int64_t xM_yN_size = (xM_size * swiftly->yN_size) / image_size;
     sdp_MemViewCpu<const std::complex<double>, 2> contrib;
     sdp_mem_check_and_view(contribution, &contrib, status);
+    sdp_mem_check_shape_dim(contribution, 0, xM_yN_size, status);
     sdp_mem_check_shape_dim(contribution, 1, xM_yN_size, status);
     sdp_MemViewCpu<std::complex<double>, 2> out;
     sdp_mem_check_and_view(subgrid_image_inout, &out, status);
+    sdp_mem_check_shape_dim(subgrid_image_inout, 0, xM_size, status);
     sdp_mem_check_shape_dim(subgrid_image_inout, 1, xM_size, status);
     sdp_MemViewCpu<double, 1> Fn;
     sdp_mem_check_and_view(swiftly->Fn, &Fn, status);
@@ -934,9 +936,11 @@ void sdp_swiftly_extract_from_subgrid_2d(
     const int64_t xM_yN_size = (xM_size * swiftly->yN_size) / image_size;
     sdp_MemViewCpu<const std::complex<double>, 2> sg_img;
     sdp_mem_check_and_view(subgrid_image, &sg_img, status);
+    sdp_mem_check_shape_dim(subgrid_image, 0, xM_size, status);
     sdp_mem_check_shape_dim(subgrid_image, 1, xM_size, status);
     sdp_MemViewCpu<std::complex<double>, 2> contrib;
     sdp_mem_check_and_view(contribution_out, &contrib, status);
+    sdp_mem_check_shape_dim(contribution_out, 0, xM_yN_size, status);
     sdp_mem_check_shape_dim(contribution_out, 1, xM_yN_size, status);
     sdp_MemViewCpu<double, 1> Fn;
     sdp_mem_check_and_view(swiftly->Fn, &Fn, status);
-- 
2.43.0


From 2da33a260ee663d42f048a2ad311a75b3d0d916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 29/56] fix: SwiFTly: sign of prepared sub-grids at odd
 positions

prepare_subgrid_inplace negated its result when the position of the sub-grid's
first sample was odd.
---
 .../fourier_transforms/sdp_swiftly.cpp             | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index dcd0315..7cf4640 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -774,8 +774,8 @@ void sdp_swiftly_prepare_subgrid_inplace(
         for (int64_t i0 = 0; i0 < bc0_size; i0++)
         {
             std::complex<double> tmp = sg(i0, i);
-            sg(i0, i) = phasor * sg(i0, i + xM_size / 2);
-            sg(i0, i + xM_size / 2) = phasor * step2 * tmp;
+            sg(i0, i) = phasor * step2 * sg(i0, i + xM_size / 2);
+            sg(i0, i + xM_size / 2) = phasor * tmp;
         }
     }
 }
@@ -833,15 +833,15 @@ void sdp_swiftly_prepare_subgrid_inplace_2d(
         {
             std::complex<double> tmp = sg(i0, i1);
             sg(i0, i1) =
-                    phasor1 * sg(i0 + xM_size / 2, i1 + xM_size / 2);
-            sg(i0 + xM_size / 2, i1 + xM_size / 2) =
-                    phasor1 * step0_2 * step1_2 * tmp;
+                    phasor1 * step0_2 * step1_2 *
+                    sg(i0 + xM_size / 2, i1 + xM_size / 2);
+            sg(i0 + xM_size / 2, i1 + xM_size / 2) = phasor1 * tmp;
 
             std::complex<double> tmp2 = sg(i0 + xM_size / 2, i1);
             sg(i0 + xM_size / 2, i1) =
-                    phasor1 * step0_2 * sg(i0, i1 + xM_size / 2);
+                    phasor1 * step1_2 * sg(i0, i1 + xM_size / 2);
             sg(i0, i1 + xM_size / 2) =
-                    phasor1 * step1_2 * tmp2;
+                    phasor1 * step0_2 * tmp2;
         }
     }
 }
-- 
2.43.0


From 0b92ae4fb29fca47aa45dd2801a10a6ab9a44f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 30/56] fix: w-towers: skip visibilities whose kernel leaves
 the sub-grid

The bounds check left out the extent of the kernel, and did not allow for
coordinates that decrease along the channels, so that memory outside the
sub-grids was read and written.
---
 .../grid_data/sdp_gridder_wtower_uvw.cpp      | 40 +++++++++++++------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 26cee24..f11becb 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -1,5 +1,6 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <cstdlib>
@@ -40,6 +41,23 @@ struct sdp_GridderWtowerUVW
 // Begin anonymous namespace for file-local functions.
 namespace {
 
+// Returns true if the kernel footprint lies entirely within the sub-grid,
+// for both ends of a range of coordinates along one dimension.
+inline bool footprint_in_subgrid(
+        const sdp_GridderWtowerUVW* plan,
+        const double theta_ov,
+        const int half_sg_size_ov,
+        const double u_start,
+        const double u_end
+)
+{
+    const double min_ov = round(std::min(u_start, u_end) * theta_ov);
+    const double max_ov = round(std::max(u_start, u_end) * theta_ov);
+    const double last = floor((max_ov + half_sg_size_ov) / plan->oversampling);
+    return min_ov + half_sg_size_ov >= 0 &&
+           last + plan->support <= plan->subgrid_size;
+}
+
 // Local function to do the degridding.
 template<typename SUBGRID_TYPE, typename UVW_TYPE, typename VIS_TYPE>
 void degrid(
@@ -110,12 +128,11 @@ void degrid(
         uvw0[2] -= ((subgrid_offset_w + w_plane - 1) * w_step);
 
         // Bounds check.
-        const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-        const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-        const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-        const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-        if (u_min < -half_subgrid || u_max >= half_subgrid ||
-                v_min < -half_subgrid || v_max >= half_subgrid)
+        const int64_t last_ch = end_ch - 1;
+        if (!footprint_in_subgrid(plan, theta_ov, half_sg_size_ov,
+                uvw0[0] + start_ch * duvw[0], uvw0[0] + last_ch * duvw[0]) ||
+                !footprint_in_subgrid(plan, theta_ov, half_sg_size_ov,
+                uvw0[1] + start_ch * duvw[1], uvw0[1] + last_ch * duvw[1]))
         {
             continue;
         }
@@ -416,12 +433,11 @@ void grid(
         uvw0[2] -= ((subgrid_offset_w + w_plane - 1) * w_step);
 
         // Bounds check.
-        const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-        const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-        const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-        const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-        if (u_min < -half_subgrid || u_max >= half_subgrid ||
-                v_min < -half_subgrid || v_max >= half_subgrid)
+        const int64_t last_ch = end_ch - 1;
+        if (!footprint_in_subgrid(plan, theta_ov, half_sg_size_ov,
+                uvw0[0] + start_ch * duvw[0], uvw0[0] + last_ch * duvw[0]) ||
+                !footprint_in_subgrid(plan, theta_ov, half_sg_size_ov,
+                uvw0[1] + start_ch * duvw[1], uvw0[1] + last_ch * duvw[1]))
         {
             continue;
         }
-- 
2.43.0


From e4452cb03c6beea354fe13d339355d8a62f37dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 31/56] fix: clamp channels: refuse bad arrays before writing
 any output

---
 src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
index f218a78..190e3dd 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
@@ -32,6 +32,7 @@ void clamp_channels_single(
     sdp_mem_check_and_view(end_ch_in, &end_chs_in_, status);
     sdp_mem_check_and_view(start_ch_out, &start_chs_out_, status);
     sdp_mem_check_and_view(end_ch_out, &end_chs_out_, status);
+    if (*status) return;
 
     #pragma omp parallel for
     for (int64_t i = start_row; i < end_row; ++i)
@@ -93,6 +94,7 @@ void clamp_channels_uv(
     sdp_mem_check_and_view(end_ch_in, &end_chs_in_, status);
     sdp_mem_check_and_view(start_ch_out, &start_chs_out_, status);
     sdp_mem_check_and_view(end_ch_out, &end_chs_out_, status);
+    if (*status) return;
 
     #pragma omp parallel for
     for (int64_t i = start_row; i < end_row; ++i)
-- 
2.43.0


From bd2663f79025a71267718c2100a8922830fe949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 32/56] fix: gridder utilities: refuse bad arrays before
 writing any output

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 223410e..d4b8ba8 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -31,6 +31,7 @@ void accum_scale_array(
     sdp_MemViewCpu<const IN1_TYPE, 2> in1_;
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in1, &in1_, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     if (exponent == 0 || !in2)
@@ -48,6 +49,7 @@ void accum_scale_array(
     {
         sdp_MemViewCpu<const IN2_TYPE, 2> in2_;
         sdp_mem_check_and_view(in2, &in2_, status);
+        if (*status) return;
         if (exponent == 1)
         {
             #pragma omp parallel for
@@ -89,6 +91,7 @@ void accum_complex_real_array(
     sdp_MemViewCpu<const IN_TYPE, 2> in_;
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in, &in_, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     #pragma omp parallel for
@@ -342,6 +345,7 @@ void image_to_flmn(
         sdp_MemViewCpu<FLUX_TYPE, 1> flux_;
         sdp_mem_check_and_view(image, &image_, status);
         sdp_mem_check_and_view(flux, &flux_, status);
+        if (*status) return;
         for (int il = 0; il < size_l; ++il)
         {
             const double l = (il - size_l / 2) * theta / size_l;
@@ -498,6 +502,7 @@ void scale_inv_array(
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in1, &in1_, status);
     sdp_mem_check_and_view(in2, &in2_, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     if (exponent == 1)
-- 
2.43.0


From 672651620e92de498a4e419e30a7626ca6f22a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 33/56] fix: sdp_fft_exec_shift: check the array before
 changing it

---
 .../fourier_transforms/sdp_fft.cpp            | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index 1d11978..835b911 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -355,6 +355,23 @@ static void check_params(
     }
 }
 
+
+static void check_matching(
+        const sdp_Fft* fft,
+        const sdp_Mem* input,
+        const sdp_Mem* output,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (!sdp_mem_is_matching(fft->input, input, 1) ||
+            !sdp_mem_is_matching(fft->output, output, 1))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Arrays do not match those used for FFT plan creation");
+    }
+}
+
 #ifdef SDP_HAVE_CUDA
 
 
@@ -889,14 +906,8 @@ void sdp_fft_exec(
 {
     if (*status || !fft || !input || !output) return;
     check_params(input, output, fft->num_dims, status);
+    check_matching(fft, input, output, status);
     if (*status) return;
-    if (!sdp_mem_is_matching(fft->input, input, 1) ||
-            !sdp_mem_is_matching(fft->output, output, 1))
-    {
-        *status = SDP_ERR_RUNTIME;
-        SDP_LOG_ERROR("Arrays do not match those used for FFT plan creation");
-        return;
-    }
     if (sdp_mem_location(input) == SDP_MEM_GPU)
     {
 #ifdef SDP_HAVE_CUDA
@@ -928,7 +939,9 @@ void sdp_fft_exec_shift(
         sdp_Error* status
 )
 {
-    if (*status) return;
+    if (*status || !fft || !data) return;
+    check_params(data, data, fft->num_dims, status);
+    check_matching(fft, data, data, status);
     sdp_fft_phase(data, status);
     sdp_fft_exec(fft, data, data, status);
     sdp_fft_phase(data, status);
-- 
2.43.0


From e5e8c435d5ff2b70378653f3a629a5a6ccb6e227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 34/56] fix: FFT: refuse arrays of different precision

---
 src/ska-sdp-func/fourier_transforms/sdp_fft.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index 835b911..8af9ee3 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -327,7 +327,8 @@ static void check_params(
         SDP_LOG_ERROR("All arrays must be C-contiguous");
         return;
     }
-    if (sdp_mem_is_complex(input) && sdp_mem_is_complex(output))
+    if (sdp_mem_is_complex(input) &&
+            sdp_mem_type(input) == sdp_mem_type(output))
     {
         for (int32_t i = 0; i < sdp_mem_num_dims(input); ++i)
         {
-- 
2.43.0


From 5117262911899676ac4c64fbb64a3870fd3051e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:24 +0000
Subject: [PATCH 35/56] fix: tiled functions: refuse bad arrays before clearing
 any output

---
 .../visibility/sdp_tiled_functions.cpp        | 67 +++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index aeb1c30..1ea60c0 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -303,6 +303,20 @@ static void tiled_indexing(
 }
 
 
+static void check_output(
+        const sdp_Mem* mem,
+        sdp_MemType type,
+        sdp_MemLocation location,
+        sdp_Error* status
+)
+{
+    sdp_mem_check_writeable(mem, status);
+    sdp_mem_check_location(mem, location, status);
+    sdp_mem_check_c_contiguity(mem, status);
+    sdp_mem_check_type(mem, type, status);
+}
+
+
 void sdp_count_and_prefix_sum(
         const sdp_Mem* uvw,
         const sdp_Mem* freqs,
@@ -362,8 +376,24 @@ void sdp_count_and_prefix_sum(
             status
     );
 
+    sdp_mem_check_location(freqs, vis_location, status);
+    check_output(tile_offsets, SDP_MEM_INT, vis_location, status);
+    check_output(num_points_in_tiles, SDP_MEM_INT, vis_location, status);
+    check_output(num_skipped, SDP_MEM_INT, vis_location, status);
     if (*status) return;
 
+    // Check data types before any output is written.
+    const int is_dbl =
+            uvw_type == SDP_MEM_DOUBLE && freq_type == SDP_MEM_DOUBLE;
+    const int is_flt =
+            uvw_type == SDP_MEM_FLOAT && freq_type == SDP_MEM_FLOAT;
+    if (!is_dbl && !(is_flt && vis_location == SDP_MEM_GPU))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+        return;
+    }
+
     // Initialise arrays to zero
     sdp_mem_clear_contents(tile_offsets, status);
     sdp_mem_clear_contents(num_points_in_tiles, status);
@@ -576,8 +606,30 @@ void sdp_bucket_sort(
             status
     );
 
+    sdp_mem_check_location(freqs, vis_location, status);
+    check_output(sorted_uu, uvw_type, vis_location, status);
+    check_output(sorted_vv, uvw_type, vis_location, status);
+    check_output(sorted_weight, weight_type, vis_location, status);
+    check_output(sorted_tile, SDP_MEM_INT, vis_location, status);
+    check_output(sorted_vis, sdp_mem_type(sorted_vis), vis_location, status);
+    check_output(tile_offsets, SDP_MEM_INT, vis_location, status);
     if (*status) return;
 
+    // Check data types before any output is written.
+    const int is_dbl = uvw_type == SDP_MEM_DOUBLE &&
+            weight_type == SDP_MEM_DOUBLE && freq_type == SDP_MEM_DOUBLE;
+    const int is_flt = uvw_type == SDP_MEM_FLOAT &&
+            weight_type == SDP_MEM_FLOAT && freq_type == SDP_MEM_FLOAT;
+    const int is_vis_ok = vis_location != SDP_MEM_CPU ||
+            (sdp_mem_type(sorted_vis) == vis_type && vis_type ==
+            (is_dbl ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT));
+    if ((!is_dbl && !is_flt) || !is_vis_ok)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+        return;
+    }
+
     // Initialise arrays to zero
     sdp_mem_clear_contents(sorted_uu, status);
     sdp_mem_clear_contents(sorted_tile, status);
@@ -771,8 +823,23 @@ void sdp_tiled_indexing(
             status
     );
 
+    sdp_mem_check_location(freqs, uvw_loc, status);
+    check_output(sorted_tile, SDP_MEM_INT, uvw_loc, status);
+    check_output(sorted_uu, uvw_type, uvw_loc, status);
+    check_output(sorted_vv, uvw_type, uvw_loc, status);
+    check_output(sorted_vis_index, SDP_MEM_INT, uvw_loc, status);
+    check_output(tile_offsets, SDP_MEM_INT, uvw_loc, status);
     if (*status) return;
 
+    // Check data types before any output is written.
+    if (uvw_type != freq_type ||
+            (uvw_type != SDP_MEM_DOUBLE && uvw_type != SDP_MEM_FLOAT))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+        return;
+    }
+
     // Initialise arrays to zero
     sdp_mem_clear_contents(sorted_tile, status);
     sdp_mem_clear_contents(sorted_vis_index, status);
-- 
2.43.0


From e40e455aaa83a93ebd120d76b6172d207333d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:24 +0000
Subject: [PATCH 36/56] fix: worst-case image: refuse bad arrays before
 clearing them

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index 70241f1..2ec74d7 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -287,6 +287,11 @@ void sdp_gridder_worst_case_image(
         return;
     }
 
+    sdp_mem_check_location(image, SDP_MEM_CPU, status);
+    sdp_mem_check_writeable(image, status);
+    sdp_mem_check_type(image, SDP_MEM_COMPLEX_DOUBLE, status);
+    if (*status) return;
+
     // Make sources / image with source in corners of fov. Make sure it doesn't
     // divide the subgrid size equally (then there's a good chance we're
     // operating on-grid, and therefore not actually testing the window
-- 
2.43.0


From 6fcce21a3a30f63df3019e55e79d06505b54e683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 37/56] fix: CLEAN: check every array's type, shape, layout and
 location

---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cpp   | 29 +++++++++++++++++
 .../clean/sdp_ms_clean_cornwell.cpp           | 31 +++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
index e30a947..539d0db 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
@@ -730,6 +730,22 @@ void sdp_hogbom_clean_gpu(
 }
 
 
+static void check_image(
+        const sdp_Mem* image,
+        int64_t dim,
+        sdp_MemType type,
+        sdp_MemLocation location,
+        sdp_Error* status
+)
+{
+    const int64_t shape[] = {dim, dim};
+    sdp_mem_check_location(image, location, status);
+    sdp_mem_check_type(image, type, status);
+    sdp_mem_check_shape(image, 2, shape, status);
+    sdp_mem_check_c_contiguity(image, status);
+}
+
+
 void sdp_hogbom_clean(
         const sdp_Mem* dirty_img,
         const sdp_Mem* psf,
@@ -857,6 +873,19 @@ void sdp_hogbom_clean(
         return;
     }
 
+    // Every array must have the expected type, shape, layout and location.
+    check_image(dirty_img, dirty_img_dim, data_type, location, status);
+    check_image(psf, psf_dim, data_type, location, status);
+    check_image(clean_model, dirty_img_dim, data_type, location, status);
+    check_image(residual, dirty_img_dim, data_type, location, status);
+    check_image(skymodel, dirty_img_dim, data_type, location, status);
+    sdp_mem_check_writeable(clean_model, status);
+    sdp_mem_check_writeable(residual, status);
+    sdp_mem_check_location(cbeam_details, SDP_MEM_CPU, status);
+    sdp_mem_check_type(cbeam_details, data_type, status);
+    sdp_mem_check_c_contiguity(cbeam_details, status);
+    if (*status) return;
+
     if (location == SDP_MEM_CPU)
     {
         // copy dirty image to starting residual
diff --git a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
index cf22b90..0aa5a23 100755
--- a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
+++ b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
@@ -770,6 +770,22 @@ static void ms_clean_cornwell(
 }
 
 
+static void check_image(
+        const sdp_Mem* image,
+        int64_t dim,
+        sdp_MemType type,
+        sdp_MemLocation location,
+        sdp_Error* status
+)
+{
+    const int64_t shape[] = {dim, dim};
+    sdp_mem_check_location(image, location, status);
+    sdp_mem_check_type(image, type, status);
+    sdp_mem_check_shape(image, 2, shape, status);
+    sdp_mem_check_c_contiguity(image, status);
+}
+
+
 void sdp_ms_clean_cornwell(
         const sdp_Mem* dirty_img,
         const sdp_Mem* psf,
@@ -870,6 +886,21 @@ void sdp_ms_clean_cornwell(
         return;
     }
 
+    // Every array must have the expected type, shape, layout and location.
+    check_image(dirty_img, dirty_img_dim, data_type, location, status);
+    check_image(psf, psf_dim, data_type, location, status);
+    check_image(clean_model, dirty_img_dim, data_type, location, status);
+    check_image(residual, dirty_img_dim, data_type, location, status);
+    check_image(skymodel, dirty_img_dim, data_type, location, status);
+    sdp_mem_check_writeable(clean_model, status);
+    sdp_mem_check_writeable(residual, status);
+    sdp_mem_check_location(cbeam_details, SDP_MEM_CPU, status);
+    sdp_mem_check_type(cbeam_details, data_type, status);
+    sdp_mem_check_c_contiguity(cbeam_details, status);
+    sdp_mem_check_location(scale_list, SDP_MEM_CPU, status);
+    sdp_mem_check_c_contiguity(scale_list, status);
+    if (*status) return;
+
     // copy dirty image to starting residual
     sdp_mem_copy_contents(residual, dirty_img, 0, 0,
             (dirty_img_dim * dirty_img_dim), status
-- 
2.43.0


From d3d2fbd4549f1e0b9c66b26a8a4ccd2d83b5280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:35 +0000
Subject: [PATCH 38/56] fix: whole-observation gridding: check types and shapes
 of arrays first

---
 .../grid_data/sdp_grid_wstack_wtower.cpp      | 48 +++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index 5e77046..3ec1e07 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -62,6 +62,48 @@ struct sdp_SubgridTask
 };
 
 
+// Check the arrays given by the caller, before anything is written.
+void check_arrays(
+        const sdp_Mem* image,
+        const sdp_Mem* uvw,
+        const sdp_Mem* vis,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    const sdp_MemType image_type = sdp_mem_type(image);
+    const sdp_MemType uvw_type = sdp_mem_type(uvw);
+    const sdp_MemType vis_type = sdp_mem_type(vis);
+    const bool image_type_ok = (
+        image_type == SDP_MEM_DOUBLE ||
+        image_type == SDP_MEM_FLOAT ||
+        image_type == SDP_MEM_COMPLEX_DOUBLE ||
+        image_type == SDP_MEM_COMPLEX_FLOAT
+    );
+    const bool vis_type_ok = (
+        (vis_type == SDP_MEM_COMPLEX_DOUBLE && uvw_type == SDP_MEM_DOUBLE) ||
+        (vis_type == SDP_MEM_COMPLEX_FLOAT && uvw_type == SDP_MEM_DOUBLE) ||
+        (vis_type == SDP_MEM_COMPLEX_FLOAT && uvw_type == SDP_MEM_FLOAT)
+    );
+    if (!image_type_ok || !vis_type_ok)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s): "
+                "image has type %s; uvw has type %s; vis has type %s",
+                sdp_mem_type_name(image_type),
+                sdp_mem_type_name(uvw_type),
+                sdp_mem_type_name(vis_type)
+        );
+        return;
+    }
+    const int64_t image_size = sdp_mem_shape_dim(image, 0);
+    const int64_t image_shape[] = {image_size, image_size};
+    const int64_t uvw_shape[] = {sdp_mem_shape_dim(vis, 0), 3};
+    sdp_mem_check_shape(image, 2, image_shape, status);
+    sdp_mem_check_shape(uvw, 2, uvw_shape, status);
+}
+
+
 // Count visibilities in each sub-grid, create and return a list of tasks.
 vector<sdp_SubgridTask> count_visibilities(
         const sdp_Mem* uvw,
@@ -257,6 +299,9 @@ void sdp_grid_wstack_wtower_degrid_all(
         SDP_LOG_ERROR("Automatic w-tower height not yet implemented");
         return;
     }
+    check_arrays(image, uvw, vis, status);
+    sdp_mem_check_writeable(vis, status);
+    if (*status) return;
     if (subgrid_frac == 0.0) subgrid_frac = 2.0 / 3.0;
     int max_threads = 1;
 #ifdef _OPENMP
@@ -514,6 +559,9 @@ void sdp_grid_wstack_wtower_grid_all(
         SDP_LOG_ERROR("Automatic w-tower height not yet implemented");
         return;
     }
+    check_arrays(image, uvw, vis, status);
+    sdp_mem_check_writeable(image, status);
+    if (*status) return;
     if (subgrid_frac == 0.0) subgrid_frac = 2.0 / 3.0;
     int max_threads = 1;
 #ifdef _OPENMP
-- 
2.43.0


From 4f27147a8292200d9ac7e881af5eaad836d1fcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:35 +0000
Subject: [PATCH 39/56] fix: FFT convolution: check the second input and the
 output's shape

---
 .../numeric_functions/sdp_fft_convolution.cpp  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 6cfc1d2..bf7f0c7 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -564,17 +564,19 @@ void sdp_fft_convolution(
         return;
     }
 
-    if (sdp_mem_location(in1) != sdp_mem_location(out))
+    if (sdp_mem_location(in1) != sdp_mem_location(out) ||
+            sdp_mem_location(in2) != location)
     {
         *status = SDP_ERR_MEM_LOCATION;
         SDP_LOG_ERROR("Memory location mismatch");
         return;
     }
 
-    if (sdp_mem_type(in1) != sdp_mem_type(out))
+    if (sdp_mem_type(in1) != sdp_mem_type(out) ||
+            sdp_mem_type(in2) != data_type)
     {
         *status = SDP_ERR_DATA_TYPE;
-        SDP_LOG_ERROR("Both input and output must be of the same data type");
+        SDP_LOG_ERROR("Both inputs and output must be of the same data type");
         return;
     }
 
@@ -599,6 +601,16 @@ void sdp_fft_convolution(
         return;
     }
 
+    sdp_mem_check_num_dims(in1, 2, status);
+    sdp_mem_check_num_dims(in2, 2, status);
+    sdp_mem_check_num_dims(out, 2, status);
+    sdp_mem_check_dim_size(out, 0, in1_dim_0, status);
+    sdp_mem_check_dim_size(out, 1, in1_dim_1, status);
+    sdp_mem_check_c_contiguity(in1, status);
+    sdp_mem_check_c_contiguity(in2, status);
+    sdp_mem_check_c_contiguity(out, status);
+    if (*status) return;
+
     if (location == SDP_MEM_CPU)
     {
         if (data_type == SDP_MEM_COMPLEX_DOUBLE)
-- 
2.43.0


From 82f502807d458a2e41ca1483e957f652d55d9d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:35 +0000
Subject: [PATCH 40/56] fix: beams: refuse input arrays whose type or location
 differs

---
 .../station_beam/sdp_element_dipole.cpp       |  4 +++
 .../sdp_element_spherical_wave_harp.cpp       |  6 +++++
 src/ska-sdp-func/station_beam/sdp_station.cpp | 27 +++++++++++++++++++
 3 files changed, 37 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
index d394a1c..ebb2194 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
@@ -131,6 +131,10 @@ void sdp_element_beam_dipole(
         SDP_LOG_ERROR("Element beam array must be of complex type");
         return;
     }
+    const sdp_MemType real_type = (sdp_MemType)(type & ~SDP_MEM_COMPLEX);
+    sdp_mem_check_type(theta_rad, real_type, status);
+    sdp_mem_check_type(phi_rad, real_type, status);
+    if (*status) return;
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
diff --git a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
index d98815e..74b0ef1 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
@@ -156,6 +156,12 @@ void sdp_element_beam_spherical_wave_harp(
         SDP_LOG_ERROR("Element beam array must be of complex type");
         return;
     }
+    const sdp_MemType real_type = (sdp_MemType)(type & ~SDP_MEM_COMPLEX);
+    sdp_mem_check_type(theta_rad, real_type, status);
+    sdp_mem_check_type(phi_x_rad, real_type, status);
+    sdp_mem_check_type(phi_y_rad, real_type, status);
+    sdp_mem_check_type(coeffs, type, status);
+    if (*status) return;
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index 0e9ea04..d3280e9 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -165,6 +165,19 @@ void sdp_station_beam_dft(
 }
 
 
+static void check_array(
+        const sdp_Mem* array,
+        sdp_MemType type,
+        sdp_MemLocation location,
+        sdp_Error* status
+)
+{
+    if (!sdp_mem_data_const(array)) return; // Some arrays are optional.
+    sdp_mem_check_type(array, type, status);
+    sdp_mem_check_location(array, location, status);
+}
+
+
 void sdp_station_beam_aperture_array(
         const double wavenumber,
         const sdp_Mem* element_weights,
@@ -219,6 +232,20 @@ void sdp_station_beam_aperture_array(
         SDP_LOG_ERROR("Output beam array must be complex");
         return;
     }
+    const sdp_MemType complex_type = (sdp_MemType)(
+        precision | SDP_MEM_COMPLEX
+    );
+    check_array(element_weights, complex_type, location, status);
+    check_array(element_x, precision, location, status);
+    check_array(element_y, precision, location, status);
+    check_array(element_z, precision, location, status);
+    check_array(point_x, precision, location, status);
+    check_array(point_y, precision, location, status);
+    check_array(point_z, precision, location, status);
+    check_array(element_beam_index, SDP_MEM_INT, location, status);
+    check_array(element_beam, complex_type, location, status);
+    check_array(station_beam, complex_type, location, status);
+    if (*status) return;
     const int is_complex4 = sdp_mem_is_complex4(station_beam);
     if (location == SDP_MEM_CPU)
     {
-- 
2.43.0


From 5782301e159e71b42220572e75ae3bd612af3c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:35 +0000
Subject: [PATCH 41/56] fix: weighting: refuse arrays that do not match each
 other

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index ff516e4..19f4694 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -337,6 +337,14 @@ void sdp_weighting_uniform(
     int64_t grid_size = sdp_mem_shape_dim(weights_grid_uv, 0);
     // Checking that grid is square
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
+    sdp_mem_check_dim_size(weights_grid_uv, 2, num_pols, status);
+    sdp_mem_check_dim_size(freq_hz, 0, num_channels, status);
+
+    // Input and output weights must match.
+    sdp_mem_check_type(input_weight, weights_type, status);
+    sdp_mem_check_location(input_weight, weights_location, status);
+    const int64_t shape[] = {num_times, num_baselines, num_channels, num_pols};
+    sdp_mem_check_shape(input_weight, 4, shape, status);
     if (*status) return;
 
     // Call the appropriate version of the kernel.
@@ -569,6 +577,14 @@ void sdp_weighting_briggs(
     int64_t grid_size = sdp_mem_shape_dim(weights_grid_uv, 0);
     // Checking that grid is square
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
+    sdp_mem_check_dim_size(weights_grid_uv, 2, num_pols, status);
+    sdp_mem_check_dim_size(freq_hz, 0, num_channels, status);
+
+    // Input and output weights must match.
+    sdp_mem_check_type(input_weight, weights_type, status);
+    sdp_mem_check_location(input_weight, weights_location, status);
+    const int64_t shape[] = {num_times, num_baselines, num_channels, num_pols};
+    sdp_mem_check_shape(input_weight, 4, shape, status);
     if (*status) return;
 
     // Call the appropriate version of the kernel.
-- 
2.43.0


From 0d5741e21242fc389eb5deb41a5b4d85ec80e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:59 +0000
Subject: [PATCH 42/56] fix: refuse array layouts that would be misread; GPU
 sum without CUDA

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp            | 4 +++-
 src/ska-sdp-func/station_beam/sdp_element_dipole.cpp        | 3 +++
 .../station_beam/sdp_element_spherical_wave_harp.cpp        | 5 +++++
 src/ska-sdp-func/station_beam/sdp_station.cpp               | 1 +
 src/ska-sdp-func/utility/sdp_data_model_checks.c            | 6 ++++++
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp         | 3 +++
 src/ska-sdp-func/visibility/sdp_weighting.cpp               | 4 ++++
 7 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index d4b8ba8..df408f7 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1947,6 +1947,8 @@ void sdp_gridder_sum_diff(
     }
     const sdp_MemLocation loc = sdp_mem_location(a);
     *result = 0;
+    sdp_mem_check_location(b, loc, status);
+    if (*status) return;
     if (loc == SDP_MEM_CPU)
     {
         if (sdp_mem_type(a) == SDP_MEM_INT && sdp_mem_type(b) == SDP_MEM_INT)
@@ -1996,7 +1998,7 @@ void sdp_gridder_sum_diff(
         sdp_Mem* result_cpu = sdp_mem_create_copy(
                 result_gpu, SDP_MEM_CPU, status
         );
-        *result = *((int*) sdp_mem_data(result_cpu));
+        if (!*status) *result = *((int*) sdp_mem_data(result_cpu));
         sdp_mem_free(result_cpu);
         sdp_mem_free(result_gpu);
     }
diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
index ebb2194..36d24b2 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
@@ -134,6 +134,9 @@ void sdp_element_beam_dipole(
     const sdp_MemType real_type = (sdp_MemType)(type & ~SDP_MEM_COMPLEX);
     sdp_mem_check_type(theta_rad, real_type, status);
     sdp_mem_check_type(phi_rad, real_type, status);
+    sdp_mem_check_c_contiguity(theta_rad, status);
+    sdp_mem_check_c_contiguity(phi_rad, status);
+    sdp_mem_check_c_contiguity(element_beam, status);
     if (*status) return;
     if (location == SDP_MEM_CPU)
     {
diff --git a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
index 74b0ef1..d3ddc4d 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
@@ -161,6 +161,11 @@ void sdp_element_beam_spherical_wave_harp(
     sdp_mem_check_type(phi_x_rad, real_type, status);
     sdp_mem_check_type(phi_y_rad, real_type, status);
     sdp_mem_check_type(coeffs, type, status);
+    sdp_mem_check_c_contiguity(theta_rad, status);
+    sdp_mem_check_c_contiguity(phi_x_rad, status);
+    sdp_mem_check_c_contiguity(phi_y_rad, status);
+    sdp_mem_check_c_contiguity(coeffs, status);
+    sdp_mem_check_c_contiguity(element_beam, status);
     if (*status) return;
     if (location == SDP_MEM_CPU)
     {
diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index d3280e9..1eaf8a6 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -175,6 +175,7 @@ static void check_array(
     if (!sdp_mem_data_const(array)) return; // Some arrays are optional.
     sdp_mem_check_type(array, type, status);
     sdp_mem_check_location(array, location, status);
+    sdp_mem_check_c_contiguity(array, status);
 }
 
 
diff --git a/src/ska-sdp-func/utility/sdp_data_model_checks.c b/src/ska-sdp-func/utility/sdp_data_model_checks.c
index 7b15850..8f2dccf 100644
--- a/src/ska-sdp-func/utility/sdp_data_model_checks.c
+++ b/src/ska-sdp-func/utility/sdp_data_model_checks.c
@@ -64,6 +64,8 @@ void sdp_data_model_get_uvw_metadata(
     sdp_mem_check_num_dims(uvw, uvw_num_dims, status);
     sdp_mem_check_dim_size(uvw, uvw_coord_dim, uvw_coord_size, status);
 
+    sdp_mem_check_c_contiguity(uvw, status);
+    if (*status) return;
     if (type) *type = sdp_mem_type(uvw);
     if (location) *location = sdp_mem_location(uvw);
     if (num_times) *num_times = sdp_uvw_num_times(uvw);
@@ -136,6 +138,8 @@ void sdp_data_model_get_vis_metadata(
     }
     const int32_t vis_dims = 4;
     sdp_mem_check_num_dims(vis, vis_dims, status);
+    sdp_mem_check_c_contiguity(vis, status);
+    if (*status) return;
     if (type) *type = sdp_mem_type(vis);
     if (location) *location = sdp_mem_location(vis);
     if (num_times) *num_times = sdp_vis_num_times(vis);
@@ -226,6 +230,8 @@ void sdp_data_model_get_weights_metadata(
         SDP_LOG_ERROR("The weights array cannot be complex");
         return;
     }
+    sdp_mem_check_c_contiguity(weights, status);
+    if (*status) return;
     if (type) *type = sdp_mem_type(weights);
     if (location) *location = sdp_mem_location(weights);
     if (num_times) *num_times = sdp_weights_num_times(weights);
diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 1ea60c0..8355de7 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -377,6 +377,7 @@ void sdp_count_and_prefix_sum(
     );
 
     sdp_mem_check_location(freqs, vis_location, status);
+    sdp_mem_check_c_contiguity(freqs, status);
     check_output(tile_offsets, SDP_MEM_INT, vis_location, status);
     check_output(num_points_in_tiles, SDP_MEM_INT, vis_location, status);
     check_output(num_skipped, SDP_MEM_INT, vis_location, status);
@@ -607,6 +608,7 @@ void sdp_bucket_sort(
     );
 
     sdp_mem_check_location(freqs, vis_location, status);
+    sdp_mem_check_c_contiguity(freqs, status);
     check_output(sorted_uu, uvw_type, vis_location, status);
     check_output(sorted_vv, uvw_type, vis_location, status);
     check_output(sorted_weight, weight_type, vis_location, status);
@@ -824,6 +826,7 @@ void sdp_tiled_indexing(
     );
 
     sdp_mem_check_location(freqs, uvw_loc, status);
+    sdp_mem_check_c_contiguity(freqs, status);
     check_output(sorted_tile, SDP_MEM_INT, uvw_loc, status);
     check_output(sorted_uu, uvw_type, uvw_loc, status);
     check_output(sorted_vv, uvw_type, uvw_loc, status);
diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index 19f4694..bca77e4 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -327,6 +327,8 @@ void sdp_weighting_uniform(
     );
 
     sdp_mem_check_location(freq_hz, weights_location, status);
+    sdp_mem_check_c_contiguity(freq_hz, status);
+    sdp_mem_check_c_contiguity(weights_grid_uv, status);
     sdp_mem_check_location(weights_grid_uv, weights_location, status);
 
     sdp_mem_check_writeable(output_weight, status);
@@ -567,6 +569,8 @@ void sdp_weighting_briggs(
     );
 
     sdp_mem_check_location(freq_hz, weights_location, status);
+    sdp_mem_check_c_contiguity(freq_hz, status);
+    sdp_mem_check_c_contiguity(weights_grid_uv, status);
     sdp_mem_check_location(weights_grid_uv, weights_location, status);
 
     sdp_mem_check_writeable(output_weight, status);
-- 
2.43.0


From 55e2fb5cdc241a5cf95aea590fe913d886b99aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 43/56] fix: beams: refuse to write to a read-only array

---
 src/ska-sdp-func/station_beam/sdp_element_dipole.cpp             | 1 +
 .../station_beam/sdp_element_spherical_wave_harp.cpp             | 1 +
 src/ska-sdp-func/station_beam/sdp_station.cpp                    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
index 36d24b2..845156b 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
@@ -137,6 +137,7 @@ void sdp_element_beam_dipole(
     sdp_mem_check_c_contiguity(theta_rad, status);
     sdp_mem_check_c_contiguity(phi_rad, status);
     sdp_mem_check_c_contiguity(element_beam, status);
+    sdp_mem_check_writeable(element_beam, status);
     if (*status) return;
     if (location == SDP_MEM_CPU)
     {
diff --git a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
index d3ddc4d..3bbb709 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
@@ -166,6 +166,7 @@ void sdp_element_beam_spherical_wave_harp(
     sdp_mem_check_c_contiguity(phi_y_rad, status);
     sdp_mem_check_c_contiguity(coeffs, status);
     sdp_mem_check_c_contiguity(element_beam, status);
+    sdp_mem_check_writeable(element_beam, status);
     if (*status) return;
     if (location == SDP_MEM_CPU)
     {
diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index 1eaf8a6..7086cfc 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -246,6 +246,7 @@ void sdp_station_beam_aperture_array(
     check_array(element_beam_index, SDP_MEM_INT, location, status);
     check_array(element_beam, complex_type, location, status);
     check_array(station_beam, complex_type, location, status);
+    sdp_mem_check_writeable(station_beam, status);
     if (*status) return;
     const int is_complex4 = sdp_mem_is_complex4(station_beam);
     if (location == SDP_MEM_CPU)
-- 
2.43.0


From 5d271494bcc9f7acccdc3e78eb1853467b607380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:49 +0000
Subject: [PATCH 44/56] fix: w-towers: creating a kernel keeps an error that is
 already set

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index f11becb..701e9e9 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -687,6 +687,7 @@ sdp_GridderWtowerUVW* sdp_gridder_wtower_uvw_create(
         sdp_Error* status
 )
 {
+    if (*status) return NULL;
     if (subgrid_size % 2 != 0)
     {
         // If subgrid_size isn't even, the current FFT shift won't be correct.
-- 
2.43.0


From 64be51a31904c7c28981de58ef7ea7fe9f6f74c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:32 +0000
Subject: [PATCH 45/56] fix: examples: function A wrote past its work area;
 vector add misread gaps

---
 src/ska-sdp-func/examples/sdp_function_example_a.cpp | 3 ++-
 src/ska-sdp-func/examples/sdp_vector_add.cpp         | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index 14c0fc7..651289d 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -81,7 +81,8 @@ void sdp_function_example_a_exec(
     );
 
     float* output_pointer = (float*) sdp_mem_data(output);
-    for (int f = 0; f < num_elements; f++)
+    const int num_required = plan->a * plan->b;
+    for (int f = 0; f < num_required; f++)
     {
         float ftemp = 0.f;
         plan->workarea[f] = plan->c * f;
diff --git a/src/ska-sdp-func/examples/sdp_vector_add.cpp b/src/ska-sdp-func/examples/sdp_vector_add.cpp
index 10d3064..a160cde 100644
--- a/src/ska-sdp-func/examples/sdp_vector_add.cpp
+++ b/src/ska-sdp-func/examples/sdp_vector_add.cpp
@@ -57,6 +57,14 @@ void sdp_vector_add(
         SDP_LOG_ERROR("All vectors must have the same number of elements");
         return;
     }
+    if (!sdp_mem_is_c_contiguous(input_a) ||
+            !sdp_mem_is_c_contiguous(input_b) ||
+            !sdp_mem_is_c_contiguous(output))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("All vectors must be C contiguous");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (type == SDP_MEM_DOUBLE)
-- 
2.43.0


From df1b6a665b08f9b93a4adca53d5d2d40b2eba1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:17 +0000
Subject: [PATCH 46/56] fix: swiftly: methods can be called with keyword
 arguments

The Python wrapper went on to call the annotated method with the converted
arguments and the caller's keywords again, so that a call such as
prepare_facet(facet=..., prep_facet_out=..., facet_offset=...) raised a
TypeError after the work had been done.
---
 src/ska_sdp_func/fourier_transforms/swiftly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska_sdp_func/fourier_transforms/swiftly.py b/src/ska_sdp_func/fourier_transforms/swiftly.py
index ca6c495..393af26 100644
--- a/src/ska_sdp_func/fourier_transforms/swiftly.py
+++ b/src/ska_sdp_func/fourier_transforms/swiftly.py
@@ -103,7 +103,7 @@ def auto_wrap_method(c_fn_name, add_handle=True, add_error_status=True):
 
             # Finally call original function, in case there's any
             # additional action to take.
-            return orig_fn(*args, **kwargs)
+            return orig_fn(*bound.args, **bound.kwargs)
 
         return wrapped_fn
 
-- 
2.43.0


From c51bc524052707fce6d034658908b495979d2471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:29 +0000
Subject: [PATCH 47/56] fix: SkyCoord: refuse an unknown object also when
 astropy is present

With astropy installed, an object of another type fell through to the C
function, which was then called without arguments.
---
 src/ska_sdp_func/utility/sky_coord.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/ska_sdp_func/utility/sky_coord.py b/src/ska_sdp_func/utility/sky_coord.py
index 0b631c1..19523d1 100644
--- a/src/ska_sdp_func/utility/sky_coord.py
+++ b/src/ska_sdp_func/utility/sky_coord.py
@@ -40,18 +40,19 @@ class SkyCoord(StructWrapper):
                     other.value(1),
                     other.value(2),
                 )
-            elif astropy:
-                if isinstance(args[0], astropy.coordinates.SkyCoord):
-                    astropy_coord = args[0]
-                    if astropy_coord.frame.name == "icrs":
-                        create_args = (
-                            "icrs".encode("ascii"),
-                            astropy_coord.ra.rad,
-                            astropy_coord.dec.rad,
-                            0.0,
-                        )
-                    else:
-                        raise RuntimeError("Unknown astropy coordinate frame")
+            elif astropy and isinstance(
+                args[0], astropy.coordinates.SkyCoord
+            ):
+                astropy_coord = args[0]
+                if astropy_coord.frame.name == "icrs":
+                    create_args = (
+                        "icrs".encode("ascii"),
+                        astropy_coord.ra.rad,
+                        astropy_coord.dec.rad,
+                        0.0,
+                    )
+                else:
+                    raise RuntimeError("Unknown astropy coordinate frame")
             else:
                 raise RuntimeError(
                     "Unknown object passed to SkyCoord constructor"
-- 
2.43.0


From 729d38ce161d0b9e580fac408d560f268aa911be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:29 +0000
Subject: [PATCH 48/56] fix: SkyCoord: a copy keeps the epoch

phase_rotate_uvw and phase_rotate_vis copy the coordinates they are given,
and handed them on with the default epoch.
---
 src/ska_sdp_func/utility/sky_coord.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska_sdp_func/utility/sky_coord.py b/src/ska_sdp_func/utility/sky_coord.py
index 19523d1..661edf1 100644
--- a/src/ska_sdp_func/utility/sky_coord.py
+++ b/src/ska_sdp_func/utility/sky_coord.py
@@ -69,6 +69,8 @@ class SkyCoord(StructWrapper):
         super().__init__(
             Lib.sdp_sky_coord_create, create_args, Lib.sdp_sky_coord_free
         )
+        if len(args) == 1 and isinstance(args[0], SkyCoord):
+            self.set_epoch(args[0].epoch())
 
     def epoch(self) -> float:
         """Returns the value of the coordinate epoch"""
-- 
2.43.0


From 7c3bdcef2f7467d57e5265a4b85406f3f8b33905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:29 +0000
Subject: [PATCH 49/56] fix: get_uv_range: take the V coordinates into account

The slice 0:1 selects U only, although the function returns the maximum
absolute value of the UV coordinates, from which the grid size follows.
---
 src/ska_sdp_func/visibility/weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska_sdp_func/visibility/weighting.py b/src/ska_sdp_func/visibility/weighting.py
index 46662eb..fa29ccd 100644
--- a/src/ska_sdp_func/visibility/weighting.py
+++ b/src/ska_sdp_func/visibility/weighting.py
@@ -54,7 +54,7 @@ def get_uv_range(uvw, freq_hz):
     :returns max_abs_uv: Maximum absolute value of UV coordinates
                          in wavelength units, real-valued
     """
-    max_abs_uv = numpy.amax(numpy.abs(uvw[:, :, 0:1]))
+    max_abs_uv = numpy.amax(numpy.abs(uvw[:, :, 0:2]))
     max_abs_uv *= freq_hz[-1] / 299792458.0
 
     return max_abs_uv
-- 
2.43.0


From d762c97127b50e3ec81526eb387cf1f8a4fdbc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:29 +0000
Subject: [PATCH 50/56] fix: Mem: keep the wrapped array alive

The handle points into the array's memory, which was gone if the caller kept
only the Mem object.
---
 src/ska_sdp_func/utility/mem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska_sdp_func/utility/mem.py b/src/ska_sdp_func/utility/mem.py
index c26f646..771efa9 100644
--- a/src/ska_sdp_func/utility/mem.py
+++ b/src/ska_sdp_func/utility/mem.py
@@ -42,6 +42,8 @@ class Mem(StructWrapper):
         passed as the first argument.
         """
         obj = args[0] if len(args) == 1 else None
+        # The array must live as long as the handle that points into it.
+        self._obj = obj
         if isinstance(obj, numpy.ndarray):
             if obj.dtype in (numpy.int8, numpy.byte):
                 mem_type = self.MemType.SDP_MEM_CHAR
-- 
2.43.0


From 292f21b2fccda7c8cb7bb042f57c1a75aecfd344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:16 +0000
Subject: [PATCH 51/56] fix: w-tower height: a small field of view divided by
 zero or wrote outside the image

---
 .../grid_data/sdp_gridder_wtower_height.cpp   | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index 2ec74d7..1e1dc75 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -70,6 +70,12 @@ double find_gridder_accuracy(
     sdp_Mem* vis_test = sdp_mem_create(
             SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU, 2, vis_shape, status
     );
+    // Make the worst-case image, with sources in the corners.
+    // Note that this needs to be of complex type for the FFT.
+    sdp_gridder_worst_case_image(theta, fov, image, status);
+    sdp_gridder_image_to_flmn(
+            image, theta, shear_u, shear_v, NULL, src_flux, src_lmn, status
+    );
     if (*status || !image || !src_flux || !src_lmn || !start_chs || !end_chs ||
             !subgrid || !uvws || !vis_ref || !vis_test)
     {
@@ -85,13 +91,6 @@ double find_gridder_accuracy(
         return 0;
     }
 
-    // Make the worst-case image, with sources in the corners.
-    // Note that this needs to be of complex type for the FFT.
-    sdp_gridder_worst_case_image(theta, fov, image, status);
-    sdp_gridder_image_to_flmn(
-            image, theta, shear_u, shear_v, NULL, src_flux, src_lmn, status
-    );
-
     // Apply correction.
     sdp_gridder_wtower_uvw_degrid_correct(kernel, image, 0, 0, 0, status);
 
@@ -120,7 +119,9 @@ double find_gridder_accuracy(
     if (subgrid_frac == 0.0) subgrid_frac = 2.0 / 3.0;
     const double start = -subgrid_size * subgrid_frac / theta / 2;
     const double end = subgrid_size * subgrid_frac / theta / 2;
-    const double step = (end - start) / (num_samples - 1);
+    const double step = (
+        num_samples > 1 ? (end - start) / (num_samples - 1) : 0.0
+    );
     sdp_MemViewCpu<double, 2> uvws_;
     sdp_mem_check_and_view(uvws, &uvws_, status);
     for (int i = 0, index = 0; i < num_samples; ++i)
@@ -297,10 +298,17 @@ void sdp_gridder_worst_case_image(
     // operating on-grid, and therefore not actually testing the window
     // function).
     int fov_edge = int(image_size / theta * fov / 2);
-    while (image_size % fov_edge == 0)
+    while (fov_edge > 1 && image_size % fov_edge == 0)
     {
         fov_edge -= 1;
     }
+    if (fov_edge < 1 || fov_edge + 1 > image_size / 2 ||
+            image_size / 2 + fov_edge >= image_size)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The sources do not fit into the image");
+        return;
+    }
 
     // Put sources into corners, careful not to generate actual symmetries.
     sdp_mem_clear_contents(image, status);
-- 
2.43.0


From f4badf5aedfe962b5e7265f7531bc394a7194253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:24 +0000
Subject: [PATCH 52/56] Revert the repairs of the two example functions

They are recorded as findings instead: examples are not to be changed here.
---
 src/ska-sdp-func/examples/sdp_function_example_a.cpp | 3 +--
 src/ska-sdp-func/examples/sdp_vector_add.cpp         | 8 --------
 2 files changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index 651289d..14c0fc7 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -81,8 +81,7 @@ void sdp_function_example_a_exec(
     );
 
     float* output_pointer = (float*) sdp_mem_data(output);
-    const int num_required = plan->a * plan->b;
-    for (int f = 0; f < num_required; f++)
+    for (int f = 0; f < num_elements; f++)
     {
         float ftemp = 0.f;
         plan->workarea[f] = plan->c * f;
diff --git a/src/ska-sdp-func/examples/sdp_vector_add.cpp b/src/ska-sdp-func/examples/sdp_vector_add.cpp
index a160cde..10d3064 100644
--- a/src/ska-sdp-func/examples/sdp_vector_add.cpp
+++ b/src/ska-sdp-func/examples/sdp_vector_add.cpp
@@ -57,14 +57,6 @@ void sdp_vector_add(
         SDP_LOG_ERROR("All vectors must have the same number of elements");
         return;
     }
-    if (!sdp_mem_is_c_contiguous(input_a) ||
-            !sdp_mem_is_c_contiguous(input_b) ||
-            !sdp_mem_is_c_contiguous(output))
-    {
-        *status = SDP_ERR_INVALID_ARGUMENT;
-        SDP_LOG_ERROR("All vectors must be C contiguous");
-        return;
-    }
     if (location == SDP_MEM_CPU)
     {
         if (type == SDP_MEM_DOUBLE)
-- 
2.43.0


From 304367e1d0d62e525d54fea509b77c26d050d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:49 +0000
Subject: [PATCH 53/56] fix: random fill wrote outside arrays with gaps, and
 ignored integer arrays

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 1b7cbe5..2746d30 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -785,6 +785,12 @@ void sdp_mem_random_fill(sdp_Mem* mem, sdp_Error* status)
         SDP_LOG_ERROR("Unsupported memory location");
         return;
     }
+    if (mem->data && !mem->is_c_contiguous)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Array to fill must be C-contiguous");
+        return;
+    }
     int64_t num_elements = mem->num_elements;
     const sdp_MemType precision = (sdp_MemType) (mem->type & 0x0F);
     if (sdp_mem_is_complex(mem)) num_elements *= 2;
@@ -806,6 +812,11 @@ void sdp_mem_random_fill(sdp_Mem* mem, sdp_Error* status)
             data[i] = (double)rand() / (double)RAND_MAX;
         }
     }
+    else
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type");
+    }
 }
 
 
-- 
2.43.0


From b2c1590b2eef5a66a3a91efb0f272f575893957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:33 +0000
Subject: [PATCH 54/56] fix: log messages from several threads shared one
 broken-down time

---
 src/ska-sdp-func/utility/sdp_logging.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_logging.c b/src/ska-sdp-func/utility/sdp_logging.c
index c8eefc1..b9c2c09 100644
--- a/src/ska-sdp-func/utility/sdp_logging.c
+++ b/src/ska-sdp-func/utility/sdp_logging.c
@@ -1,5 +1,9 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#ifndef _POSIX_C_SOURCE
+#define _POSIX_C_SOURCE 200112L
+#endif
+
 #include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
@@ -62,12 +66,13 @@ void sdp_log_message(
     char time_str[48];
     struct timeval tv;
     const time_t unix_time = time(0);
-    struct tm* timeinfo = gmtime(&unix_time);
+    struct tm timeinfo;
+    if (!gmtime_r(&unix_time, &timeinfo)) return;
     gettimeofday(&tv, 0);
     if (snprintf(time_str, sizeof(time_str),
             "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
-            timeinfo->tm_year + 1900, timeinfo->tm_mon + 1, timeinfo->tm_mday,
-            timeinfo->tm_hour, timeinfo->tm_min, timeinfo->tm_sec,
+            timeinfo.tm_year + 1900, timeinfo.tm_mon + 1, timeinfo.tm_mday,
+            timeinfo.tm_hour, timeinfo.tm_min, timeinfo.tm_sec,
             (int)(tv.tv_usec) / 1000
             ) >= (int) sizeof(time_str))
     {
-- 
2.43.0


From 148e42a1a71c02d1b283cb02e742ce3b2ec06dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:08 +0000
Subject: [PATCH 55/56] fix: the time of a log message took its seconds from
 another reading of the clock than its milliseconds

---
 src/ska-sdp-func/utility/sdp_logging.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_logging.c b/src/ska-sdp-func/utility/sdp_logging.c
index b9c2c09..820c264 100644
--- a/src/ska-sdp-func/utility/sdp_logging.c
+++ b/src/ska-sdp-func/utility/sdp_logging.c
@@ -65,10 +65,10 @@ void sdp_log_message(
     // Get timestamp, as a string.
     char time_str[48];
     struct timeval tv;
-    const time_t unix_time = time(0);
+    gettimeofday(&tv, 0);
+    const time_t unix_time = tv.tv_sec;
     struct tm timeinfo;
     if (!gmtime_r(&unix_time, &timeinfo)) return;
-    gettimeofday(&tv, 0);
     if (snprintf(time_str, sizeof(time_str),
             "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
             timeinfo.tm_year + 1900, timeinfo.tm_mon + 1, timeinfo.tm_mday,
-- 
2.43.0


From 36445def959d5e40127e1e594b805a5ba8f2db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:08 +0000
Subject: [PATCH 56/56] fix: log messages from several threads were mixed
 within a line

---
 src/ska-sdp-func/utility/sdp_logging.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_logging.c b/src/ska-sdp-func/utility/sdp_logging.c
index 820c264..f7ac2c3 100644
--- a/src/ska-sdp-func/utility/sdp_logging.c
+++ b/src/ska-sdp-func/utility/sdp_logging.c
@@ -110,10 +110,12 @@ void sdp_log_message(
     // Print message to stream using SKA log formatting.
     va_list args;
     va_start(args, message);
+    flockfile(stream); // One whole line, whatever other threads write.
     (void) fprintf(stream, "1|%s|%s||%s|%s#%i|| ",
             time_str, level_str, func, file, line
     );
     (void) vfprintf(stream, message, args);
     (void) fprintf(stream, "\n");
+    funlockfile(stream);
     va_end(args);
 }
-- 
2.43.0

