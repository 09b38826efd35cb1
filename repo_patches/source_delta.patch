From cbd8090d6bbe3dc9deb6f4df2f39b12c2fccf11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:02 +0000
Subject: [PATCH 01/15] fix: sanitize_degrees_double never returns 360

---
 src/utils/math_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/math_utils.rs b/src/utils/math_utils.rs
index c302bcc..8d3e8ef 100644
--- a/src/utils/math_utils.rs
+++ b/src/utils/math_utils.rs
@@ -69,6 +69,10 @@ impl MathUtils {
         let mut degrees = degrees % 360.0;
         if degrees < 0.0 {
             degrees = degrees + 360.0;
+            // A tiny negative remainder rounds up to a full turn.
+            if degrees >= 360.0 {
+                degrees = 0.0;
+            }
         }
         return degrees;
     }
-- 
2.43.0


From 9b54ce31355b7c723695e6e08e7a0c853407f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:02 +0000
Subject: [PATCH 02/15] fix: CAM16 of a colour just below hue 0 no longer
 panics

---
 src/hct/cam16.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/hct/cam16.rs b/src/hct/cam16.rs
index 6a48248..45116d5 100644
--- a/src/hct/cam16.rs
+++ b/src/hct/cam16.rs
@@ -162,15 +162,7 @@ impl Cam16 {
         // hue
         let atan2 = (b).atan2(a);
         let atan_degrees = atan2 * 180.0 / std::f64::consts::PI;
-        let hue: f64 = {
-            if atan_degrees < 0.0 {
-                atan_degrees + 360.0
-            } else if atan_degrees >= 360.0 {
-                atan_degrees - 360.0
-            } else {
-                atan_degrees
-            }
-        };
+        let hue: f64 = MathUtils::sanitize_degrees_double(atan_degrees);
 
         let hue_radians = hue * std::f64::consts::PI / 180.0;
         assert!(hue >= 0.0 && hue < 360.0, "hue was really $hue");
-- 
2.43.0


From 602f1b9d6cac1070ed748a7862191069299b021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:02 +0000
Subject: [PATCH 03/15] fix: temperature cache covers hues that round to 360

---
 src/temperature/temperature_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/temperature/temperature_cache.rs b/src/temperature/temperature_cache.rs
index 152a039..9b09ef5 100644
--- a/src/temperature/temperature_cache.rs
+++ b/src/temperature/temperature_cache.rs
@@ -284,7 +284,7 @@ impl TemperatureCache {
             return self._hcts_by_hue.clone();
         }
         let mut hcts: Vec<Hct> = Vec::new();
-        for hue in 0..360 {
+        for hue in 0..=360 {
             let hue = hue as f64;
             let color_at_hue = Hct::from(hue, self.input.get_chroma(), self.input.get_tone());
             hcts.push(color_at_hue);
-- 
2.43.0


From f9d5213f3a3c22b6c1c75901619bd4e3c46baca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:02 +0000
Subject: [PATCH 04/15] fix: Celebi quantization is deterministic

---
 src/quantize/quantizer_celebi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_celebi.rs b/src/quantize/quantizer_celebi.rs
index f69a973..d8708e3 100644
--- a/src/quantize/quantizer_celebi.rs
+++ b/src/quantize/quantizer_celebi.rs
@@ -17,10 +17,13 @@ impl Quantizer for QuantizerCelebi {
             return_input_pixel_to_cluster_pixel.unwrap_or(false);
         let mut wu = QuantizerWu::new();
         let wu_result = wu.quantize(pixels, max_colors, None);
+        // The map has no fixed order, and k-means depends on the order of its seeds.
+        let mut starting_clusters: Vec<i64> = wu_result.color_to_count.keys().cloned().collect();
+        starting_clusters.sort();
         let wsmeans_result = QuantizerWsmeans::quantize(
             pixels,
             max_colors,
-            Some(&wu_result.color_to_count.keys().cloned().collect()),
+            Some(&starting_clusters),
             Some(&PointProviderLab::new()),
             None,
             Some(return_input_pixel_to_cluster_pixel),
-- 
2.43.0


From 4bb9d645a1cc5980a8e4b2370482b5ebbe7f2045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:02 +0000
Subject: [PATCH 05/15] fix: scoring breaks ties deterministically

---
 src/score/score.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/score/score.rs b/src/score/score.rs
index d0343d9..5315461 100644
--- a/src/score/score.rs
+++ b/src/score/score.rs
@@ -89,9 +89,10 @@ impl Score {
         let mut colors_hct: Vec<Hct> = Vec::new();
         let mut hue_population = [0; 360]; //List<int>.filled(360, 0);
         let mut population_sum = 0;
-        for (key, value) in colors_to_population {
-            let argb = key;
-            let population = value;
+        // Visit the colors in a fixed order, so that ties are always broken the same way.
+        let mut colors: Vec<(&i64, &i64)> = colors_to_population.iter().collect();
+        colors.sort();
+        for (argb, population) in colors {
             let hct = Hct::from_int(*argb);
             colors_hct.push(hct.clone());
             let hue = hct.get_hue().floor();
-- 
2.43.0


From 1383cc7e59a5dd263ced592d9cc275cfab954327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:02 +0000
Subject: [PATCH 06/15] fix: palette colour of a fractional tone does not
 depend on earlier lookups

---
 src/palettes/tonal_palette.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 714d773..311730c 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -181,7 +181,12 @@ impl TonalPalette {
     /// If the palette is constructed from a hue and chroma (i.e. using [of] or
     /// [fromHct]), the result is generated from the given [hue] and [chroma].
     pub fn get_hct(&self, tone: f64) -> Hct {
-        let maybe_hct_int = self._cache.get(&(tone as i64));
+        // Colors are only cached for integer tones.
+        let maybe_hct_int = if tone.fract() == 0.0 {
+            self._cache.get(&(tone as i64))
+        } else {
+            None
+        };
 
         match maybe_hct_int {
             Some(hct_int) => Hct::from_int(*hct_int),
-- 
2.43.0


From 3ef1c7a9f3c61c7616ba9568f8042f729e7d5bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:02 +0000
Subject: [PATCH 07/15] fix: equal tonal palettes have equal hashes

---
 src/palettes/tonal_palette.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 311730c..bd1da40 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -226,13 +226,9 @@ impl PartialEq for TonalPalette {
 }
 impl Hash for TonalPalette {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        if !self._is_from_cache {
-            self.hue.to_ne_bytes().hash(state);
-            self.chroma.to_ne_bytes().hash(state);
-        } else {
-            let list = self.clone().get_as_list();
-            hash_vec_i64(&list, state);
-        }
+        // Palettes that compare equal, however they were made, agree on every
+        // common tone.
+        self.clone().get(50).hash(state);
     }
 }
 
@@ -251,9 +247,3 @@ impl ListEquality {
         }
     }
 }
-
-fn hash_vec_i64<H: Hasher>(vec: &Vec<i64>, state: &mut H) {
-    for element in vec {
-        element.hash(state);
-    }
-}
-- 
2.43.0


From 9ab0cbf411d027954785aa3666bb61aaba440a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:02 +0000
Subject: [PATCH 08/15] fix: equal dynamic schemes have equal hashes

---
 src/dynamiccolor/dynamic_scheme.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamiccolor/dynamic_scheme.rs b/src/dynamiccolor/dynamic_scheme.rs
index 621e006..20289e1 100644
--- a/src/dynamiccolor/dynamic_scheme.rs
+++ b/src/dynamiccolor/dynamic_scheme.rs
@@ -76,7 +76,8 @@ impl Hash for DynamicScheme {
         self.source_color_hct.hash(state);
         self.variant.hash(state);
         self.is_dark.hash(state);
-        self.contrast_level.to_ne_bytes().hash(state);
+        // 0.0 and -0.0 are equal
+        (self.contrast_level + 0.0).to_ne_bytes().hash(state);
         self.primary_palette.hash(state);
         self.secondary_palette.hash(state);
         self.tertiary_palette.hash(state);
-- 
2.43.0


From e82b0945ce80eb2ff6c02f52a505862f7947d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:44 +0000
Subject: [PATCH 09/15] fix: schemes with different palette key colours are
 different cache keys

---
 src/dynamiccolor/dynamic_scheme.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/dynamiccolor/dynamic_scheme.rs b/src/dynamiccolor/dynamic_scheme.rs
index 20289e1..d6d073c 100644
--- a/src/dynamiccolor/dynamic_scheme.rs
+++ b/src/dynamiccolor/dynamic_scheme.rs
@@ -61,15 +61,24 @@ impl PartialEq for DynamicScheme {
             && self.variant == other.variant
             && self.is_dark == other.is_dark
             && self.contrast_level == other.contrast_level
-            && self.primary_palette == other.primary_palette
-            && self.secondary_palette == other.secondary_palette
-            && self.tertiary_palette == other.tertiary_palette
-            && self.neutral_palette == other.neutral_palette
-            && self.neutral_variant_palette == other.neutral_variant_palette
-            && self.error_palette == other.error_palette
+            && same_palette(&self.primary_palette, &other.primary_palette)
+            && same_palette(&self.secondary_palette, &other.secondary_palette)
+            && same_palette(&self.tertiary_palette, &other.tertiary_palette)
+            && same_palette(&self.neutral_palette, &other.neutral_palette)
+            && same_palette(
+                &self.neutral_variant_palette,
+                &other.neutral_variant_palette,
+            )
+            && same_palette(&self.error_palette, &other.error_palette)
     }
 }
 impl Eq for DynamicScheme {}
+
+// Palettes compare by the colors they produce; colors resolved in a scheme also
+// depend on the rest.
+fn same_palette(a: &TonalPalette, b: &TonalPalette) -> bool {
+    a == b && a.hue == b.hue && a.chroma == b.chroma && a.key_color == b.key_color
+}
 impl Hash for DynamicScheme {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.source_color_argb.hash(state);
-- 
2.43.0


From 26debb135ef8c56ca9dada268e07c62d2cec3739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:44 +0000
Subject: [PATCH 10/15] fix: total and partial orders of scored colours and
 distances agree

---
 src/quantize/quantizer_wsmeans.rs | 8 +-------
 src/score/score.rs                | 4 +---
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/quantize/quantizer_wsmeans.rs b/src/quantize/quantizer_wsmeans.rs
index 16f8cdc..0125255 100644
--- a/src/quantize/quantizer_wsmeans.rs
+++ b/src/quantize/quantizer_wsmeans.rs
@@ -20,13 +20,7 @@ impl DistanceAndIndex {
 impl Eq for DistanceAndIndex {}
 impl Ord for DistanceAndIndex {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        if self.distance < other.distance {
-            return std::cmp::Ordering::Less;
-        } else if self.distance > other.distance {
-            return std::cmp::Ordering::Greater;
-        } else {
-            return std::cmp::Ordering::Equal;
-        }
+        self.partial_cmp(other).unwrap_or(std::cmp::Ordering::Equal)
     }
 }
 
diff --git a/src/score/score.rs b/src/score/score.rs
index 5315461..964e2ff 100644
--- a/src/score/score.rs
+++ b/src/score/score.rs
@@ -38,9 +38,7 @@ impl PartialOrd for _ScoredHCT {
 
 impl Ord for _ScoredHCT {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        self.score
-            .partial_cmp(&other.score)
-            .unwrap_or(std::cmp::Ordering::Equal)
+        self.partial_cmp(other).unwrap_or(std::cmp::Ordering::Equal)
     }
 }
 
-- 
2.43.0


From 37242dfa32c35a92031d402b4778e216af5a1480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:44 +0000
Subject: [PATCH 11/15] fix: Wu rounds the mean colour of a box to nearest

---
 src/quantize/quantizer_wu.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index 4391115..54a3b31 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -191,11 +191,14 @@ impl QuantizerWu {
             let cube = &self.cubes[i as usize];
             let weight: i64 = Self::volume(cube.clone(), self.weights.clone());
             if weight > 0 {
-                let r: i64 = ((Self::volume(cube.clone(), self.moments_r.clone()) / weight) as f64)
+                let r: i64 = (Self::volume(cube.clone(), self.moments_r.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
-                let g: i64 = ((Self::volume(cube.clone(), self.moments_g.clone()) / weight) as f64)
+                let g: i64 = (Self::volume(cube.clone(), self.moments_g.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
-                let b: i64 = ((Self::volume(cube.clone(), self.moments_b.clone()) / weight) as f64)
+                let b: i64 = (Self::volume(cube.clone(), self.moments_b.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
                 let color: i64 = ColorUtils::argb_from_rgb(r, g, b);
                 colors.push(color);
-- 
2.43.0


From 539b38e33437cc22b439f33584d35a92cae3e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:12 +0000
Subject: [PATCH 12/15] fix: Wu's variances do not overflow on large images

---
 src/quantize/quantizer_wu.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index 54a3b31..6c56327 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -220,9 +220,9 @@ impl QuantizerWu {
             + self.moments[Self::get_index(cube.r0, cube.g0, cube.b1) as usize]
             - self.moments[Self::get_index(cube.r0, cube.g0, cube.b0) as usize];
 
-        let hypotenuse = dr * dr + dg * dg + db * db;
+        let hypotenuse = Self::sum_of_squares(dr, dg, db);
         let volume_ = Self::volume(cube, self.weights.clone());
-        return xx - (hypotenuse / volume_) as f64;
+        return xx - hypotenuse / volume_ as f64;
     }
 
     pub fn cut(&mut self, one_index: usize, two_index: usize) -> bool {
@@ -344,8 +344,7 @@ impl QuantizerWu {
                 continue;
             }
 
-            let mut temp_numerator: f64 =
-                ((half_r * half_r) + (half_g * half_g) + (half_b * half_b)) as f64;
+            let mut temp_numerator: f64 = Self::sum_of_squares(half_r, half_g, half_b);
             let mut temp_denominator: f64 = half_w as f64;
             let mut temp: f64 = temp_numerator / temp_denominator;
 
@@ -356,7 +355,7 @@ impl QuantizerWu {
             if half_w == 0 {
                 continue;
             }
-            temp_numerator = ((half_r * half_r) + (half_g * half_g) + (half_b * half_b)) as f64;
+            temp_numerator = Self::sum_of_squares(half_r, half_g, half_b);
             temp_denominator = half_w as f64;
             temp += temp_numerator / temp_denominator;
 
@@ -368,6 +367,11 @@ impl QuantizerWu {
         return MaximizeResult::new(cut, max);
     }
 
+    // Squared sums over large images do not fit an integer.
+    fn sum_of_squares(r: i64, g: i64, b: i64) -> f64 {
+        (r as f64) * (r as f64) + (g as f64) * (g as f64) + (b as f64) * (b as f64)
+    }
+
     pub fn volume(cube: Box, moment: Vec<i64>) -> i64 {
         return moment[Self::get_index(cube.r1, cube.g1, cube.b1) as usize]
             - moment[Self::get_index(cube.r1, cube.g1, cube.b0) as usize]
-- 
2.43.0


From 577d9868cce33d20c736708b13962fcea75f7816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:01 +0000
Subject: [PATCH 13/15] fix: Wu does not lose a colour when a box cannot be cut

---
 src/quantize/quantizer_wu.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index 6c56327..688e261 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -149,7 +149,8 @@ impl QuantizerWu {
         let mut volume_variance: Vec<f64> = vec![0.0; max_color_count as usize];
         let mut next: i64 = 0;
         let mut generated_color_count: i64 = max_color_count;
-        for mut i in 1..max_color_count {
+        let mut i: i64 = 1;
+        while i < max_color_count {
             let one = next as usize;
             let two = i as usize;
             if self.cut(one, two) {
@@ -180,6 +181,7 @@ impl QuantizerWu {
                 generated_color_count = i + 1;
                 break;
             }
+            i += 1;
         }
 
         return CreateBoxesResult::new(max_color_count, generated_color_count);
-- 
2.43.0


From 5b9490205f51a507a8eea185f2b14b675f6fb45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:55 +0000
Subject: [PATCH 14/15] fix: a palette describes itself by the way it was made

---
 src/palettes/tonal_palette.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index bd1da40..96e4bca 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -198,7 +198,7 @@ impl TonalPalette {
 impl ToString for TonalPalette {
     fn to_string(&self) -> String {
         let mut mutable_clone = self.clone();
-        if self._is_from_cache {
+        if !self._is_from_cache {
             return format!(
                 "TonalPalette.of({}, {})",
                 mutable_clone.hue, mutable_clone.chroma
-- 
2.43.0


From 653fcbe6f717664adadec553964679a8f6262768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:55 +0000
Subject: [PATCH 15/15] fix: Wu's boxes print their bounds

---
 src/quantize/quantizer_wu.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index 688e261..5de80e3 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -499,6 +499,9 @@ impl Box {
 }
 impl ToString for Box {
     fn to_string(&self) -> String {
-        format!("Box: R $r0 -> $r1 G  $g0 -> $g1 B $b0 -> $b1 VOL = $vol")
+        format!(
+            "Box: R {} -> {} G  {} -> {} B {} -> {} VOL = {}",
+            self.r0, self.r1, self.g0, self.g1, self.b0, self.b1, self.vol
+        )
     }
 }
-- 
2.43.0

