From 4a52d7864f28795ff744829cea87e9c5548cc13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 01/16] fix: colorize no longer divides by zero when painting
 black on opaque white

The luminance difference spans [-32768, 32768]; 32768 does not fit int16_t.
---
 brushmodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brushmodes.c b/brushmodes.c
index f0c68b6..5a7f75b 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -209,7 +209,7 @@ set_rgb16_lum_from_rgb16(const uint16_t topr,
     // temporary representation inflation.
     const uint16_t botlum = LUMA(*botr, *botg, *botb) / (1<<15);
     const uint16_t toplum = LUMA(topr, topg, topb) / (1<<15);
-    const int16_t diff = botlum - toplum;
+    const int32_t diff = botlum - toplum;
     int32_t r = topr + diff;
     int32_t g = topg + diff;
     int32_t b = topb + diff;
-- 
2.43.0


From 23d9fda41518bbcc52e9b314b860cc2f91cbb5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 02/16] fix: a dab that paints nothing no longer discards the
 invalidated regions of earlier dabs

---
 mypaint-tiled-surface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index b19c4dd..82f8bf7 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -794,7 +794,8 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             break;
         }
     }
-    self->num_bboxes_dirtied = MIN(self->num_bboxes, num_bboxes_used);
+    // Earlier dabs of the same atomic operation may have used more bounding boxes
+    self->num_bboxes_dirtied = MAX(self->num_bboxes_dirtied, MIN(self->num_bboxes, num_bboxes_used));
     return surface_modified;
 #undef DDI
 }
-- 
2.43.0


From 4856e4a370a971ce93888490c41cc30a95778836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 03/16] fix: keep the snowflake bounding box index inside the
 bounding box array

---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 82f8bf7..b1fee0e 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -763,7 +763,7 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             for (int dab_count = 0; dab_count < symm.num_lines; dab_count++) {
                 // If the number of bboxes cannot fit all snowflake dabs, use half for the rotational dabs
                 // and the other half for the reflected dabs. This is not always optimal, but seldom bad.
-                const int bbox_idx = offset + MIN(roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
+                const int bbox_idx = MIN(offset + roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
                 mypaint_transform_point(&matrices[base_idx + dab_count], x, y, &x_out, &y_out);
                 DDI(x_out, y_out, base_angle - dab_count * rot_angle, bbox_idx);
             }
-- 
2.43.0


From 09cf295b89c350c7fc3aee0567319c45f51c1ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 04/16] fix: do not write before the output array when no
 invalidation rectangles are requested

---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index b1fee0e..c66c163 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -120,7 +120,7 @@ mypaint_tiled_surface_end_atomic(MyPaintTiledSurface *self, MyPaintRectangles *r
 
     operation_queue_clear_dirty_tiles(self->operation_queue);
 
-    if (roi) {
+    if (roi && roi->num_rectangles > 0) {
         const int roi_rects = roi->num_rectangles;
         const int num_dirty = self->num_bboxes_dirtied;
         // Clear out the input rectangles that will be overwritten
-- 
2.43.0


From f04ba6903b2ce17d5727b2812aa9a2f0d4c15eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 05/16] fix: keep the color sampling interval within 16 bits

For very large radii the interval wrapped, to zero for some of them,
which made get_color divide by zero.
---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index c66c163..64ddae5 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -853,7 +853,7 @@ void get_color (MyPaintSurface *surface, float x, float y,
     //
     // For really small radii we'll sample every pixel
     // in the dab to avoid biasing.
-    const int sample_interval = radius <= 2.0f ? 1 : (int)(radius * 7);
+    const int sample_interval = radius <= 2.0f ? 1 : (int)MIN(radius * 7, UINT16_MAX);
     const float random_sample_rate = 1.0f / (7 * radius);
 
     #pragma omp parallel for schedule(static) if(self->threadsafe_tile_requests && tiles_n > 3)
-- 
2.43.0


From ee6e12670a831ddf4db8041590060a807413e1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 06/16] fix: smudge bucket accessors and reset address whole
 buckets

The state accessors and brush_reset treated the bucket index as an index of
floats, so that buckets overlapped and a reset cleared the wrong ones. Reject
negative indices, track buckets written through the setter, and initialize the
used range of brushes without buckets.
---
 mypaint-brush.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 9533265..02250e6 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -159,7 +159,7 @@ brush_reset(MyPaintBrush *self)
       if (min_index != -1) {
         int max_index = self->max_bucket_used;
         size_t num_bytes = (max_index - min_index + 1) * sizeof(self->smudge_buckets[0]) * SMUDGE_BUCKET_SIZE;
-        memset(self->smudge_buckets + min_index, 0, num_bytes);
+        memset(self->smudge_buckets + min_index * SMUDGE_BUCKET_SIZE, 0, num_bytes);
         self->min_bucket_used = -1;
         self->max_bucket_used = -1;
       }
@@ -208,6 +208,8 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
     } else {
       self->smudge_buckets = NULL;
       self->num_buckets = 0;
+      self->min_bucket_used = -1;
+      self->max_bucket_used = -1;
     }
 
     self->refcount = 1;
@@ -459,8 +461,14 @@ mypaint_brush_set_smudge_bucket_state(
     float prev_r, float prev_g, float prev_b, float prev_a,
     float prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    if (self->min_bucket_used == -1 || self->min_bucket_used > bucket_index) {
+      self->min_bucket_used = bucket_index;
+    }
+    if (self->max_bucket_used < bucket_index) {
+      self->max_bucket_used = bucket_index;
+    }
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     bucket[SMUDGE_R] = r;
     bucket[SMUDGE_G] = g;
     bucket[SMUDGE_B] = b;
@@ -491,8 +499,8 @@ mypaint_brush_get_smudge_bucket_state(
     float* prev_r, float* prev_g, float* prev_b, float* prev_a,
     float* prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     *r = bucket[SMUDGE_R];
     *g = bucket[SMUDGE_G];
     *b = bucket[SMUDGE_B];
-- 
2.43.0


From 6c662da36dbdafb6d312b093ac8750dfee3470b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 07/16] fix: reject malformed curves and containers in brush
 files instead of aborting

A mapping with one point, more than 64 points, points that are not arrays or
decreasing x values made mypaint_brush_from_string() abort; settings or inputs
that are not JSON objects were dereferenced as NULL tables.
---
 mypaint-brush.c | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 02250e6..17210d0 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1569,6 +1569,29 @@ obj_get(json_object *self, const gchar *key, json_object **obj_out) {
 #endif
 }
 
+// The requirements of mypaint_mapping_set_n() and mypaint_mapping_set_point()
+static gboolean
+mapping_points_are_valid(json_object *points)
+{
+    const size_t number_of_points = json_object_array_length(points);
+    if (number_of_points == 1 || number_of_points > 64) {
+        return FALSE;
+    }
+    float previous_x = -INFINITY;
+    for (size_t i = 0; i < number_of_points; i++) {
+        json_object *point = json_object_array_get_idx(points, i);
+        if (!json_object_is_type(point, json_type_array)) {
+            return FALSE;
+        }
+        const float x = json_object_get_double(json_object_array_get_idx(point, 0));
+        if (!(x >= previous_x)) {
+            return FALSE;
+        }
+        previous_x = x;
+    }
+    return TRUE;
+}
+
 static gboolean
 update_brush_setting_from_json_object(MyPaintBrush *self,
                                       char *setting_name,
@@ -1602,6 +1625,10 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
         fprintf(stderr, "Warning: No 'inputs' field for setting: %s\n", setting_name);
         return FALSE;
     }
+    if (!json_object_is_type(inputs, json_type_object)) {
+        fprintf(stderr, "Warning: Wrong 'inputs' type for setting: %s\n", setting_name);
+        return FALSE;
+    }
     json_object_object_foreach(inputs, input_name, input_obj) {
         MyPaintBrushInput input_id = mypaint_brush_input_from_cname(input_name);
 
@@ -1616,11 +1643,16 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
             return FALSE;
         }
 
-        const int number_of_mapping_points = json_object_array_length(input_obj);
+        const size_t number_of_mapping_points = json_object_array_length(input_obj);
+
+        if (!mapping_points_are_valid(input_obj)) {
+            fprintf(stderr, "Warning: Invalid mapping points for setting: %s\n", setting_name);
+            return FALSE;
+        }
 
         mypaint_brush_set_mapping_n(self, setting_id, input_id, number_of_mapping_points);
 
-        for (int i=0; i<number_of_mapping_points; i++) {
+        for (size_t i=0; i<number_of_mapping_points; i++) {
             json_object *mapping_point = json_object_array_get_idx(input_obj, i);
 
             json_object *x_obj = json_object_array_get_idx(mapping_point, 0);
@@ -1658,6 +1690,10 @@ update_brush_from_json_object(MyPaintBrush *self)
     }
 
     gboolean updated_any = FALSE;
+    if (!json_object_is_type(settings, json_type_object)) {
+        fprintf(stderr, "Error: Wrong 'settings' type for brush\n");
+        return FALSE;
+    }
     json_object_object_foreach(settings, setting_name, setting_obj) {
       updated_any |= update_brush_setting_from_json_object(self, setting_name, setting_obj);
     }
-- 
2.43.0


From bfd936da725a31547b7182a831824a1b335bc580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 08/16] fix: alpha-locked pigment blending no longer divides
 zero by zero on nearly transparent pixels

---
 brushmodes.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brushmodes.c b/brushmodes.c
index 5a7f75b..409ad13 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -464,7 +464,9 @@ void draw_dab_pixels_BlendMode_LockAlpha_Paint (uint16_t * mask,
         rgba[2] = (opa_a*color_b + opa_b*rgba[2])/(1<<15);
         continue;
       }
-      float fac_a = (float)opa_a / (opa_a + opa_b * rgba[3] / (1<<15));
+      // both weights can be truncated to zero at minimal canvas alpha
+      uint32_t opa_sum = opa_a + opa_b * rgba[3] / (1<<15);
+      float fac_a = opa_sum ? (float)opa_a / opa_sum : 0.0f;
       float fac_b = 1.0 - fac_a;
       float spectral_b[10] = {0};
       rgb_to_spectral((float)rgba[0] / rgba[3], (float)rgba[1] / rgba[3], (float)rgba[2] / rgba[3], spectral_b);
-- 
2.43.0


From fd04c0d97aea0546782494203e55a04a9353dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:12 +0000
Subject: [PATCH 09/16] fix: colorize keeps rounded luminance within white so
 channels stay at or below alpha

---
 brushmodes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brushmodes.c b/brushmodes.c
index 409ad13..ef87945 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -216,7 +216,8 @@ set_rgb16_lum_from_rgb16(const uint16_t topr,
 
     // Spec: ClipColor()
     // Clip out of band values
-    int32_t lum = LUMA(r, g, b) / (1<<15);
+    // (rounding can put the luminance just above white)
+    int32_t lum = MIN(LUMA(r, g, b) / (1<<15), 1<<15);
     int32_t cmin = MIN3(r, g, b);
     int32_t cmax = MAX3(r, g, b);
     if (cmin < 0) {
-- 
2.43.0


From e022a8b7ca5c1be2b3ecd752e232a0342f013551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:47 +0000
Subject: [PATCH 10/16] fix: HCY luma weights sum to one

The red weight was 0.2162 instead of 0.2126, so the luma of bright colors
exceeded 1 and their chroma did not survive a round trip; a luma that
rounds to 0 or 1 divided by zero.
---
 helpers.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/helpers.c b/helpers.c
index d0a227c..4a4d08a 100644
--- a/helpers.c
+++ b/helpers.c
@@ -369,7 +369,7 @@ hsl_to_rgb_float (float *h_, float *s_, float *l_)
 void
 rgb_to_hcy_float (float *r_, float *g_, float *b_) {
 	
-	float _HCY_RED_LUMA = 0.2162;
+	float _HCY_RED_LUMA = 0.2126;
 	float _HCY_GREEN_LUMA = 0.7152;
 	float _HCY_BLUE_LUMA = 0.0722;
 	float h, c, y;
@@ -405,8 +405,9 @@ rgb_to_hcy_float (float *r_, float *g_, float *b_) {
 	h = fmod(h,1.0);
 
 	// Chroma, relative to the RGB gamut envelope.
-	if ((r == g) && (g == b)){
-		// Avoid a division by zero for the achromatic case.
+	if (((r == g) && (g == b)) || y <= 0 || y >= 1){
+		// Avoid a division by zero for the achromatic case
+		// (and for colors whose luma rounds to black or white).
 		c = 0.0;
 	} else {
 		// For the derivation, see the GLHS paper.
@@ -421,7 +422,7 @@ rgb_to_hcy_float (float *r_, float *g_, float *b_) {
 void
 hcy_to_rgb_float (float *h_, float *c_, float *y_) {
 	
-	float _HCY_RED_LUMA = 0.2162;
+	float _HCY_RED_LUMA = 0.2126;
 	float _HCY_GREEN_LUMA = 0.7152;
 	float _HCY_BLUE_LUMA = 0.0722;
 	float h, c, y;
-- 
2.43.0


From ed25a9c44c7607c8f93c2e8ae633ef026a703e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:40 +0000
Subject: [PATCH 11/16] fix: new brushes no longer start from uninitialized
 setting values

The first simulation step after creation reads the gridmap scale settings
before they are calculated, so the first dab depended on the contents of
freshly allocated memory.
---
 mypaint-brush.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 17210d0..7ff65ac 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -216,6 +216,8 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
     for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
       self->settings[i] = mypaint_mapping_new(MYPAINT_BRUSH_INPUTS_COUNT);
     }
+    // The first simulation step reads some values before calculating them.
+    memset(self->settings_value, 0, sizeof(self->settings_value));
     self->rng = rng_double_new(1000);
     self->random_input = 0;
     self->print_inputs = FALSE;
-- 
2.43.0


From 11e6f465dbd49d33585f63744532d1752f2ee3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:40 +0000
Subject: [PATCH 12/16] fix: insane stroke coordinates no longer imply a zoom
 of zero

The zoom has to be positive: the simulation takes its logarithm and
divides by it, so ignoring an event with insane coordinates produced
dabs at non-finite positions.
---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 7ff65ac..2f07d90 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1343,7 +1343,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       x = 0.0;
       y = 0.0;
       pressure = 0.0;
-      viewzoom = 0.0;
+      viewzoom = 1.0;
       viewrotation = 0.0;
       barrel_rotation = 0.0;
     }
-- 
2.43.0


From cb5b534d58c04d348d9811e563d2d2e957a27779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:33 +0000
Subject: [PATCH 13/16] fix: mixing colors no longer depends on the previously
 mixed colors

With a paint mode below zero (or after a result that was not a number)
the additive branch of mix_colors() scaled the static result of the
previous call into the new one, across brushes.
---
 helpers.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/helpers.c b/helpers.c
index 4a4d08a..b026e48 100644
--- a/helpers.c
+++ b/helpers.c
@@ -564,8 +564,10 @@ spectral_to_rgb (float *spectral, float *rgb_) {
 //a is the current smudge state, b is the get_color or brush color
 float * mix_colors(float *a, float *b, float fac, float paint_mode)
 {
-  static float result[4] = {0};  
-  
+  static float result[4] = {0};
+  // Don't let the result of the previous call leak into this one
+  result[0] = result[1] = result[2] = 0;
+
   float opa_a = fac;
   float opa_b = 1.0-opa_a;
   result[3] = CLAMP(opa_a * a[3] + opa_b * b[3], 0.0f, 1.0f);
-- 
2.43.0


From 60319e0ae2f55678aa020c75290914cc9596db39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:10 +0000
Subject: [PATCH 14/16] fix: freeing a queue also frees the operations it still
 holds

---
 fifo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fifo.c b/fifo.c
index 1d71ab7..3eb365f 100644
--- a/fifo.c
+++ b/fifo.c
@@ -59,7 +59,8 @@ void fifo_free(struct fifo* queue, FifoUserFreeFunction user_free)
     while ((item = queue->first) != NULL)
     {
         queue->first = item->next;
-        user_free(item);
+        user_free(item->payload);
+        free(item);
     }
     free(queue);
 }
-- 
2.43.0


From 6884a2016fa9bf6d77e6a7217fedc9873685e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:06 +0000
Subject: [PATCH 15/16] fix: do not abort when all tiles of the queue's map are
 listed as dirty

A tile that was processed early (colour picking) and dirtied again is still
in the list of dirty tiles; when every tile of the map is listed, there is
no room for another entry, and none is needed.
---
 operationqueue.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/operationqueue.c b/operationqueue.c
index 7cbe890..bd86bfd 100644
--- a/operationqueue.c
+++ b/operationqueue.c
@@ -199,8 +199,10 @@ operation_queue_add(OperationQueue *self, TileIndex index, OperationDataDrawDab
            // Prune duplicate tiles that cause us to almost exceed max
            self->dirty_tiles_n = remove_duplicate_tiles(self->dirty_tiles, self->dirty_tiles_n);
        }
-       assert(self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2);
-       self->dirty_tiles[self->dirty_tiles_n++] = index;
+       // If the pruned list is full, then every tile of the map is in it already
+       if (self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2) {
+           self->dirty_tiles[self->dirty_tiles_n++] = index;
+       }
     }
     fifo_push(op_queue, (void *)op);
 }
-- 
2.43.0


From 9dadde693d6dc8d4980b81c6a20c2e181769b125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:40 +0000
Subject: [PATCH 16/16] fix: ignore stroke coordinates that would fail the
 range assertion

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 2f07d90..db3627a 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1337,7 +1337,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
 
     if (pressure <= 0.0) pressure = 0.0;
     if (!isfinite(x) || !isfinite(y) ||
-        (x > 1e10 || y > 1e10 || x < -1e10 || y < -1e10)) {
+        (x >= 1e8 || y >= 1e8 || x <= -1e8 || y <= -1e8)) {
       // workaround attempt for https://gna.org/bugs/?14372
       printf("Warning: ignoring brush::stroke_to with insane inputs (x = %f, y = %f)\n", (double)x, (double)y);
       x = 0.0;
-- 
2.43.0

