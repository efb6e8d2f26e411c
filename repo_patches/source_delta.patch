From 0fd6d51a874e3b85fcc573dbb75761f3a8b47b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:31 +0000
Subject: [PATCH 01/30] fix: clone of an image with owned pixels must not point
 into the original's pixels

---
 src/rows.rs   | 15 ++++++++++++---
 src/seacow.rs |  6 ++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/rows.rs b/src/rows.rs
index 80254a1..c2dd5cd 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -51,16 +51,25 @@ impl Clone for DynamicRows<'_, '_> {
             height: self.height,
             f_pixels: self.f_pixels.clone(),
             pixels: match &self.pixels {
-                PixelsSource::Pixels { rows, pixels } => PixelsSource::Pixels {
+                // row pointers of a clone can stay the same only if its pixels aren't moved to a new allocation
+                PixelsSource::Pixels { rows, pixels } if pixels.as_ref().map_or(true, |p| p.is_borrowed()) => PixelsSource::Pixels {
                     rows: rows.clone(),
                     pixels: pixels.clone(),
                 },
-                PixelsSource::Callback(_) => {
+                PixelsSource::Pixels { .. } | PixelsSource::Callback(_) => {
                     let area = self.width as usize * self.height as usize;
                     let mut out = Vec::with_capacity(area);
                     let out_rows = out.spare_capacity_mut()[..area].chunks_exact_mut(self.width as usize);
                     for (i, row) in out_rows.enumerate() {
-                        self.row_rgba(row, i);
+                        match &self.pixels {
+                            PixelsSource::Callback(cb) => cb(row, i),
+                            PixelsSource::Pixels { rows, .. } => {
+                                let src = unsafe { std::slice::from_raw_parts(rows.as_slice()[i].0, self.width()) };
+                                for (dst, src) in row.iter_mut().zip(src) {
+                                    dst.write(*src);
+                                }
+                            },
+                        }
                     }
                     unsafe {
                         out.set_len(area);
diff --git a/src/seacow.rs b/src/seacow.rs
index 3914ba4..ee7808d 100644
--- a/src/seacow.rs
+++ b/src/seacow.rs
@@ -40,6 +40,12 @@ impl<'a, T> SeaCow<'a, T> {
         Self { inner: SeaCowInner::Borrowed(data) }
     }
 
+    #[inline]
+    #[must_use]
+    pub(crate) const fn is_borrowed(&self) -> bool {
+        matches!(self.inner, SeaCowInner::Borrowed(_))
+    }
+
     /// The pointer must be `malloc`-allocated
     #[inline]
     #[cfg(feature = "_internal_c_ffi")]
-- 
2.43.0


From be8dce13d31dc3782a2c9391b78cfd962c971a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:31 +0000
Subject: [PATCH 02/30] fix: histogram made only of fixed colors had zero total
 weight

---
 src/hist.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hist.rs b/src/hist.rs
index 9ec20e1..7778313 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -332,8 +332,10 @@ impl Histogram {
             // weight == 0 means it's a fixed color
             let weight = if temp_item.weight > 0. {
                 (temp_item.weight * (1. / 256.)).min(max_perceptual_weight)
-            } else {
+            } else if max_perceptual_weight > 0. {
                 max_perceptual_weight * 10.
+            } else {
+                1. // there are only fixed colors
             };
             total_perceptual_weight += f64::from(weight);
 
-- 
2.43.0


From 2f74d183cf73d3d7917e1dfb00c96436308bc2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:31 +0000
Subject: [PATCH 03/30] fix: set_output_gamma accepted NaN

---
 src/quant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quant.rs b/src/quant.rs
index be31257..ca50e08 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -144,7 +144,7 @@ impl QuantizationResult {
 
     /// The default is sRGB gamma (~1/2.2)
     pub fn set_output_gamma(&mut self, value: f64) -> Result<(), Error> {
-        if value <= 0. || value >= 1. {
+        if !(value > 0. && value < 1.) {
             return Err(ValueOutOfRange);
         }
 
-- 
2.43.0


From 9a5fcebc643a9cbdb59f82d8e70106dbd225b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:31 +0000
Subject: [PATCH 04/30] fix: palette() returned colors in the previous output
 gamma

---
 src/quant.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quant.rs b/src/quant.rs
index ca50e08..060ca48 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -149,6 +149,7 @@ impl QuantizationResult {
         }
 
         self.remapped = None;
+        self.int_palette.count = 0; // cached palette used the old gamma
         self.gamma = value;
 
         Ok(())
-- 
2.43.0


From 486df36124cd2a79075c9b48a504dedef4efe77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:02 +0000
Subject: [PATCH 05/30] fix: contrast maps must not overwrite user's importance
 map nor leave it zeroed on failure

---
 src/image.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 9c17ed9..b916df0 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -243,15 +243,11 @@ impl<'pixels> Image<'pixels> {
             return Ok(()); // shrug
         }
 
-        let noise = if let Some(n) = self.importance_map.as_deref_mut() { n } else {
-            let vec = try_zero_vec(width * height)?;
-            self.importance_map.get_or_insert_with(move || vec.into_boxed_slice())
-        };
-
-        let edges = if let Some(e) = self.edges.as_mut() { e } else {
-            let vec = try_zero_vec(width * height)?;
-            self.edges.get_or_insert_with(move || vec.into_boxed_slice())
-        };
+        // the maps are stored only when they're complete, and never replace user-supplied importance map
+        let mut noise_map = try_zero_vec(width * height)?;
+        let mut edges_map = try_zero_vec(width * height)?;
+        let noise = &mut noise_map[..];
+        let edges = &mut edges_map[..];
 
         let mut rows_iter = self.px.all_rows_f()?.chunks_exact(width);
 
@@ -301,6 +297,8 @@ impl<'pixels> Image<'pixels> {
         for (edges, noise) in edges.iter_mut().zip(noise) {
             *edges = (*noise).min(*edges);
         }
+        self.importance_map.get_or_insert_with(move || noise_map.into_boxed_slice());
+        self.edges = Some(edges_map.into_boxed_slice());
         Ok(())
     }
 
-- 
2.43.0


From 3938384c33c5f7d0d31de4ffab4df6691b764858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:14 +0000
Subject: [PATCH 06/30] fix: Histogram::add_image did not fail when there are
 too many fixed colors

---
 src/hist.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index 7778313..eeea766 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -105,6 +105,14 @@ impl Histogram {
     pub fn add_image(&mut self, attr: &Attributes, image: &mut Image) -> Result<(), Error> {
         let width = image.width();
         let height = image.height();
+
+        let new_fixed_colors = image.fixed_colors.iter().copied().enumerate()
+            .filter(|&(idx, rgba)| !self.fixed_colors.contains(&HashColor { rgba, index: idx as _ }))
+            .count();
+        if self.fixed_colors.len() + new_fixed_colors > MAX_COLORS {
+            return Err(BufferTooSmall);
+        }
+
         if image.importance_map.is_none() && attr.use_contrast_maps {
             image.contrast_maps()?;
         }
-- 
2.43.0


From 1f27a7b108fc86eb0df0e1b03b61c4b719eca364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:14 +0000
Subject: [PATCH 07/30] fix: Break from the progress callback did not abort
 palette search

---
 src/quant.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index 060ca48..3b38e5e 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -396,7 +396,10 @@ pub(crate) fn find_best_palette(attr: &Attributes, target_mse: f64, target_mse_i
             target_mse_overshoot = 1.;
             trials_left -= 5 + fails_in_a_row;
         }
-        if attr.progress(overall_done) || trials_left <= 0 {
+        if attr.progress(overall_done) {
+            return Err(Aborted);
+        }
+        if trials_left <= 0 {
             break best_palette;
         }
     }.ok_or(ValueOutOfRange)?;
@@ -416,7 +419,7 @@ fn refine_palette(palette: &mut PalF, attr: &Attributes, hist: &mut HistogramInt
             let stage_done = f32::from(i) / f32::from(iterations);
             let overall_done = (stage_done * f32::from(attr.progress_stage3)).mul_add(0.89, f32::from(attr.progress_stage1) + f32::from(attr.progress_stage2));
             if attr.progress(overall_done) {
-                break;
+                return Err(Aborted);
             }
 
             let pal_err = Kmeans::iteration(hist, palette, false)?;
-- 
2.43.0


From 7bf28673001214380f5b2f32d428db5fc7d76405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:33 +0000
Subject: [PATCH 08/30] fix: out-of-range C ints were truncated to valid
 quality and posterization values

---
 imagequant-sys/src/ffi.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 42bde26..d6fe281 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -234,7 +234,8 @@ pub extern "C" fn liq_get_max_colors(attr: &liq_attr) -> c_uint {
 #[inline(never)]
 pub extern "C" fn liq_set_min_posterization(attr: &mut liq_attr, bits: c_int) -> liq_error {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
-    attr.inner.set_min_posterization(bits as u8).err().unwrap_or(LIQ_OK)
+    let bits = match bits.try_into() { Ok(b) => b, Err(_) => return Error::ValueOutOfRange };
+    attr.inner.set_min_posterization(bits).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
@@ -261,7 +262,11 @@ pub extern "C" fn liq_get_speed(attr: &liq_attr) -> c_uint {
 #[inline(never)]
 pub extern "C" fn liq_set_quality(attr: &mut liq_attr, minimum: c_uint, target: c_uint) -> liq_error {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
-    attr.inner.set_quality(minimum as u8, target as u8).err().unwrap_or(LIQ_OK)
+    let (minimum, target) = match (minimum.try_into(), target.try_into()) {
+        (Ok(minimum), Ok(target)) => (minimum, target),
+        _ => return Error::ValueOutOfRange,
+    };
+    attr.inner.set_quality(minimum, target).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
-- 
2.43.0


From 772c9b794698f64398e0b09fc96d348d57e5d90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:01 +0000
Subject: [PATCH 09/30] fix: NULL objects passed to the C API could crash
 instead of being rejected

---
 imagequant-sys/src/ffi.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index d6fe281..8d63cfe 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -225,7 +225,8 @@ pub extern "C" fn liq_set_max_colors(attr: &mut liq_attr, colors: c_uint) -> liq
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_get_max_colors(attr: &liq_attr) -> c_uint {
+pub extern "C" fn liq_get_max_colors(attr: Option<&liq_attr>) -> c_uint {
+    let attr = match attr { Some(attr) => attr, None => return !0 };
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return !0; }
     attr.inner.max_colors()
 }
@@ -240,7 +241,8 @@ pub extern "C" fn liq_set_min_posterization(attr: &mut liq_attr, bits: c_int) ->
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_get_min_posterization(attr: &liq_attr) -> c_uint {
+pub extern "C" fn liq_get_min_posterization(attr: Option<&liq_attr>) -> c_uint {
+    let attr = match attr { Some(attr) => attr, None => return !0 };
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return !0; }
     attr.inner.min_posterization().into()
 }
@@ -248,12 +250,14 @@ pub extern "C" fn liq_get_min_posterization(attr: &liq_attr) -> c_uint {
 #[no_mangle]
 #[inline(never)]
 pub extern "C" fn liq_set_speed(attr: &mut liq_attr, speed: c_int) -> liq_error {
+    if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
     attr.inner.set_speed(speed).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_get_speed(attr: &liq_attr) -> c_uint {
+pub extern "C" fn liq_get_speed(attr: Option<&liq_attr>) -> c_uint {
+    let attr = match attr { Some(attr) => attr, None => return !0 };
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return !0; }
     attr.inner.speed()
 }
@@ -345,14 +349,16 @@ pub extern "C" fn liq_histogram_add_fixed_color(hist: &mut liq_histogram, color:
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_image_get_width(img: &liq_image) -> c_uint {
+pub extern "C" fn liq_image_get_width(img: Option<&liq_image>) -> c_uint {
+    let img = match img { Some(img) => img, None => return !0 };
     if bad_object!(img, LIQ_IMAGE_MAGIC) { return !0; }
     img.inner.width() as _
 }
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_image_get_height(img: &liq_image) -> c_uint {
+pub extern "C" fn liq_image_get_height(img: Option<&liq_image>) -> c_uint {
+    let img = match img { Some(img) => img, None => return !0 };
     if bad_object!(img, LIQ_IMAGE_MAGIC) { return !0; }
     img.inner.height() as _
 }
@@ -363,7 +369,8 @@ pub extern "C" fn liq_image_destroy(_: Option<Box<liq_image>>) {}
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_image_set_background<'pixels>(img: &mut liq_image<'pixels>, background: Box<liq_image<'pixels>>) -> liq_error {
+pub extern "C" fn liq_image_set_background<'pixels>(img: &mut liq_image<'pixels>, background: Option<Box<liq_image<'pixels>>>) -> liq_error {
+    let background = match background { Some(background) => background, None => return Error::InvalidPointer };
     if bad_object!(img, LIQ_IMAGE_MAGIC) ||
        bad_object!(background, LIQ_IMAGE_MAGIC) { return Error::InvalidPointer; }
     let background = unsafe { ManuallyDrop::take(&mut ManuallyDrop::new(background).inner) };
@@ -481,7 +488,8 @@ pub extern "C" fn liq_set_dithering_level(result: &mut liq_result, dither_level:
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_get_output_gamma(result: &liq_result) -> f64 {
+pub extern "C" fn liq_get_output_gamma(result: Option<&liq_result>) -> f64 {
+    let result = match result { Some(result) => result, None => return -1. };
     if bad_object!(result, LIQ_RESULT_MAGIC) { return -1.; }
     result.inner.output_gamma()
 }
@@ -574,6 +582,7 @@ pub(crate) fn check_image_size(attr: &liq_attr, width: u32, height: u32) -> bool
 #[inline(never)]
 pub unsafe extern "C" fn liq_image_create_custom(attr: &liq_attr, row_callback: liq_image_get_rgba_row_callback, user_info: AnySyncSendPtr, width: c_uint, height: c_uint, gamma: f64)
  -> Option<Box<liq_image<'static>>> {
+    if bad_object!(attr, LIQ_ATTR_MAGIC) { return None; }
     let cb: Box<dyn Fn(&mut [MaybeUninit<RGBA>], usize) + Send + Sync> = Box::new(move |row, y| row_callback(row.as_mut_ptr(), y as _, row.len() as _, user_info));
     liq_image_create_custom_impl(&attr.inner, cb, width as _, height as _, gamma)
         .map(move |inner| Box::new(liq_image {
-- 
2.43.0


From 17d384ae833856bd4c23ce88e97d7d5918bc08a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:01 +0000
Subject: [PATCH 10/30] fix: NULL callback must clear the callback instead of
 crashing

---
 imagequant-sys/src/ffi.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 8d63cfe..c188150 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -176,17 +176,17 @@ unsafe impl Sync for AnySyncSendPtr {}
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_attr_set_progress_callback(attr: &mut liq_attr, callback: liq_progress_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_attr_set_progress_callback(attr: &mut liq_attr, callback: Option<liq_progress_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return; }
-    let cb = move |f| if callback(f, user_info) == 0 { ControlFlow::Break} else { ControlFlow::Continue};
+    let cb = move |f| if callback.map_or(1, |callback| callback(f, user_info)) == 0 { ControlFlow::Break} else { ControlFlow::Continue};
     attr.inner.set_progress_callback(cb);
 }
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_result_set_progress_callback(result: &mut liq_result, callback: liq_progress_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_result_set_progress_callback(result: &mut liq_result, callback: Option<liq_progress_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(result, LIQ_RESULT_MAGIC) { return; }
-    result.inner.set_progress_callback(move |f| if callback(f, user_info) == 0 { ControlFlow::Break} else { ControlFlow::Continue});
+    result.inner.set_progress_callback(move |f| if callback.map_or(1, |callback| callback(f, user_info)) == 0 { ControlFlow::Break} else { ControlFlow::Continue});
 }
 
 #[allow(clippy::cast_ptr_alignment)]
@@ -200,10 +200,10 @@ unsafe fn attr_to_liq_attr_ptr(ptr: &Attributes) -> &liq_attr {
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_set_log_callback(attr: &mut liq_attr, callback: liq_log_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_set_log_callback(attr: &mut liq_attr, callback: Option<liq_log_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return; }
     attr.inner.set_log_callback(move |attr, msg| {
-        if let Ok(tmp) = CString::new(msg) {
+        if let (Some(callback), Ok(tmp)) = (callback, CString::new(msg)) {
             callback(attr_to_liq_attr_ptr(attr), tmp.as_ptr(), user_info);
         }
     });
@@ -211,9 +211,11 @@ pub unsafe extern "C" fn liq_set_log_callback(attr: &mut liq_attr, callback: liq
 
 #[no_mangle]
 #[inline(never)]
-pub unsafe extern "C" fn liq_set_log_flush_callback(attr: &mut liq_attr, callback: liq_log_flush_callback_function, user_info: AnySyncSendPtr) {
+pub unsafe extern "C" fn liq_set_log_flush_callback(attr: &mut liq_attr, callback: Option<liq_log_flush_callback_function>, user_info: AnySyncSendPtr) {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return; }
-    attr.inner.set_log_flush_callback(move |attr| callback(attr_to_liq_attr_ptr(attr), user_info));
+    attr.inner.set_log_flush_callback(move |attr| if let Some(callback) = callback {
+        callback(attr_to_liq_attr_ptr(attr), user_info);
+    });
 }
 
 #[no_mangle]
-- 
2.43.0


From eef135fce325cc66537e99777bb91e79646fd914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:02 +0000
Subject: [PATCH 11/30] fix: taking ownership of rows of an already remapped
 image freed an invalid pointer

---
 src/rows.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rows.rs b/src/rows.rs
index c2dd5cd..532883d 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -228,6 +228,8 @@ impl<'pixels, 'rows> DynamicRows<'pixels, 'rows> {
     pub(crate) unsafe fn set_memory_ownership(&mut self, own_rows: bool, own_pixels: bool, free_fn: unsafe extern "C" fn(*mut std::os::raw::c_void)) -> Result<(), Error> {
         if own_rows {
             match &mut self.pixels {
+                // there's nothing to take ownership of when the histogram inputs have been freed
+                PixelsSource::Pixels { rows, .. } if rows.as_slice().is_empty() => return Err(Error::Unsupported),
                 PixelsSource::Pixels { rows, .. } => rows.make_owned(free_fn),
                 PixelsSource::Callback(_) => return Err(Error::ValueOutOfRange),
             }
-- 
2.43.0


From 5869f9f5369e9cd9751a1d04cc69f079a3e35b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:02 +0000
Subject: [PATCH 12/30] fix: liq_image_set_background leaked the background's
 handle

---
 imagequant-sys/src/ffi.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index c188150..a067792 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -372,11 +372,12 @@ pub extern "C" fn liq_image_destroy(_: Option<Box<liq_image>>) {}
 #[no_mangle]
 #[inline(never)]
 pub extern "C" fn liq_image_set_background<'pixels>(img: &mut liq_image<'pixels>, background: Option<Box<liq_image<'pixels>>>) -> liq_error {
-    let background = match background { Some(background) => background, None => return Error::InvalidPointer };
+    let mut background = match background { Some(background) => background, None => return Error::InvalidPointer };
     if bad_object!(img, LIQ_IMAGE_MAGIC) ||
        bad_object!(background, LIQ_IMAGE_MAGIC) { return Error::InvalidPointer; }
-    let background = unsafe { ManuallyDrop::take(&mut ManuallyDrop::new(background).inner) };
-    img.inner.set_background(background).err().unwrap_or(LIQ_OK)
+    let background_image = unsafe { ManuallyDrop::take(&mut background.inner) };
+    background.magic_header = LIQ_FREED_MAGIC; // the inner image has been moved out
+    img.inner.set_background(background_image).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
-- 
2.43.0


From 2295719ed9be9f01bd1f3f64c573f406edb73122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:33 +0000
Subject: [PATCH 13/30] fix: dithered remapping silently truncated indices of
 large palettes

---
 src/remap.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/remap.rs b/src/remap.rs
index 78fca5b..eab0293 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -160,6 +160,9 @@ pub(crate) fn remap_to_palette_floyd(input_image: &mut Image, mut output_pixels:
 
     let n = Nearest::new(palette)?;
     let palette = palette.as_slice();
+    if palette.len() > PalIndexRemap::MAX as usize + 1 {
+        return Err(Error::Unsupported);
+    }
 
     let mut background = input_image.background.as_mut().map(|bg| {
         bg.px.prepare_iter(&mut temp_row, true)?;
-- 
2.43.0


From 27b5f146929e31e7ec67f5e48955839d2be080f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:34 +0000
Subject: [PATCH 14/30] fix: warm-up of dithering chunks read uninitialized
 memory

---
 src/remap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/remap.rs b/src/remap.rs
index eab0293..303341b 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -211,7 +211,8 @@ pub(crate) fn remap_to_palette_floyd(input_image: &mut Image, mut output_pixels:
                     let bg_pixels = background.as_mut().map(|b| b.row_f(&mut temp_row, row as _)).unwrap_or(&[]);
                     let dither_map = dither_map.get(row * width .. row * width + width).unwrap_or(&[]);
                     let scan_forward = row & 1 == 0;
-                    dither_row(row_pixels, &mut discard_row, width as u32, dither_map, base_dithering_level, max_dither_error, n, palette, transparent_index, bg_pixels, guess_from_remapped_pixels, &mut diffusion, scan_forward);
+                    // discard_row has no remapped pixels to guess from
+                    dither_row(row_pixels, &mut discard_row, width as u32, dither_map, base_dithering_level, max_dither_error, n, palette, transparent_index, bg_pixels, false, &mut diffusion, scan_forward);
                 }
             }
             // parallel remap makes progress not very useful
-- 
2.43.0


From d818f27e765d41f5fdf3d46dbeb95a1f26c1acad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:34 +0000
Subject: [PATCH 15/30] fix: merging of histogram entries lost their counts

---
 src/hist.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index eeea766..7417f9d 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -250,9 +250,11 @@ impl Histogram {
 
         let new_size = (self.hashmap.len()/3).max(self.hashmap.capacity()/5);
         let old_hashmap = std::mem::replace(&mut self.hashmap, HashMap::with_capacity_and_hasher(new_size, U32Hasher(0)));
-        self.hashmap.extend(old_hashmap.into_iter().map(move |(k, v)| {
-            (k & new_posterize_mask, v)
-        }));
+        for (k, (boost, rgba)) in old_hashmap {
+            self.hashmap.entry(k & new_posterize_mask)
+                .and_modify(move |e| e.0 = e.0.saturating_add(boost))
+                .or_insert((boost, rgba));
+        }
     }
 
     pub(crate) fn add_pixel_rows(&mut self, image: &DynamicRows<'_, '_>, importance_map: Option<&[u8]>, posterize_bits: u8) -> Result<(), Error> {
-- 
2.43.0


From ecac56c291068853ea9024384f41e9b11c722a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:36 +0000
Subject: [PATCH 16/30] fix: weights of the histogram could grow to infinity in
 the feedback loop

---
 src/kmeans.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index e0c508f..3316272 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -94,7 +94,8 @@ impl Kmeans {
                 let remapped = colors[matched as usize];
                 let (_, new_diff) = n.search(&f_pixel(px.0 + px.0 - remapped.0), matched);
                 diff = new_diff;
-                item.adjusted_weight = 2.0f32.mul_add(item.adjusted_weight, item.perceptual_weight) * (0.5 + diff);
+                // it may grow exponentially with each iteration, and must stay finite even when many weights are added together
+                item.adjusted_weight = (2.0f32.mul_add(item.adjusted_weight, item.perceptual_weight) * (0.5 + diff)).min(1e30);
             }
             debug_assert!(f64::from(diff) < 1e20);
             self.update_color(px, item.adjusted_weight, matched);
-- 
2.43.0


From 56b03b557b1b2f52e0c498da84b090053b80f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:40 +0000
Subject: [PATCH 17/30] fix: entries of alpha exactly on the opaque threshold
 were sorted as transparent

---
 src/quant.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index 3b38e5e..e1ddb79 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -315,7 +315,7 @@ fn sort_palette(attr: &Attributes, palette: &mut PalF) {
 
     let mut tmp: ArrayVec<_, { MAX_COLORS }> = palette.iter_mut().map(|(c, p)| (*c, *p)).collect();
     tmp.sort_by_key(|(color, pop)| {
-        let is_transparent = color.a <= MAX_TRANSP_A;
+        let is_transparent = color.a < MAX_TRANSP_A;
         (is_transparent == last_index_transparent, Reverse(OrdFloat::new(pop.popularity())))
     });
     palette.iter_mut().zip(tmp).for_each(|((dcol, dpop), (scol, spop))| {
@@ -325,7 +325,7 @@ fn sort_palette(attr: &Attributes, palette: &mut PalF) {
 
     if last_index_transparent {
         let alpha_index = palette.as_slice().iter().enumerate()
-            .filter(|(_, c)| c.a <= MAX_TRANSP_A)
+            .filter(|(_, c)| c.a < MAX_TRANSP_A)
             .min_by_key(|(_, c)| OrdFloat::new(c.a))
             .map(|(i, _)| i);
         if let Some(alpha_index) = alpha_index {
@@ -334,7 +334,7 @@ fn sort_palette(attr: &Attributes, palette: &mut PalF) {
         }
     } else {
         let num_transparent = palette.as_slice().iter().enumerate()
-            .filter(|(_, c)| c.a <= MAX_TRANSP_A)
+            .filter(|(_, c)| c.a < MAX_TRANSP_A)
             .map(|(i, _)| i + 1) // num entries, not index
             .max();
         if let Some(num_transparent) = num_transparent {
-- 
2.43.0


From c64f57cbcf4959b3f85f9e8e0f8cdd3f118ae626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:36 +0000
Subject: [PATCH 18/30] fix: Histogram::add_fixed_color accepted invalid gamma

---
 src/hist.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index 7417f9d..44ff44b 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -175,6 +175,10 @@ impl Histogram {
             return Err(Unsupported);
         }
 
+        if !(0. ..=1.).contains(&gamma) {
+            return Err(ValueOutOfRange);
+        }
+
         if self.gamma.is_none() && gamma > 0. {
             self.gamma = Some(gamma);
         }
-- 
2.43.0


From 3c489930d92873401a2adb83cff947066f0392b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:55 +0000
Subject: [PATCH 19/30] fix: QualityTooLow was returned because the search
 aimed for too few colors

With a target quality below 100 the search stops at fewer colors than allowed,
based on an approximate error. When the real error turned out to be above the
limit, quantization failed, even for images that fit the palette losslessly.
---
 src/quant.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/quant.rs b/src/quant.rs
index e1ddb79..2a9b8cc 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -406,6 +406,14 @@ pub(crate) fn find_best_palette(attr: &Attributes, target_mse: f64, target_mse_i
 
     refine_palette(&mut palette, attr, &mut hist, max_mse, &mut palette_error)?;
 
+    // The search for the target quality tries to use few colors, based on an approximate error.
+    // If that went too far, try to get the best quality before giving up.
+    let too_low = max_mse.zip(palette_error).map_or(false, |(max_mse, error)| error > max_mse);
+    if too_low && !target_mse_is_zero {
+        hist.items.iter_mut().for_each(|item| item.adjusted_weight = item.perceptual_weight);
+        return find_best_palette(attr, 0., true, max_mse, hist);
+    }
+
     Ok((palette, palette_error))
 }
 
-- 
2.43.0


From 1cbb456ab313babd5327336a957fd50bc8071743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:28 +0000
Subject: [PATCH 20/30] fix: fixed color also used in the image took two
 palette entries at speeds 8-10

---
 src/hist.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index 44ff44b..25852ee 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -297,6 +297,12 @@ impl Histogram {
                 unsafe { RGBAInt { rgba }.int }
             } else { 0 };
 
+            // don't waste a second palette entry on the same color if it's been added with a posterized key
+            let posterized = px_int & self.posterize_mask();
+            if posterized != px_int && self.hashmap.get(&posterized).map_or(false, |&(_, color)| color == rgba) {
+                self.hashmap.remove(&posterized);
+            }
+
             self.hashmap.insert(px_int, (0, rgba));
         }
 
-- 
2.43.0


From c4c7809853214abff4b82d0f9aebc2763d44872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:28 +0000
Subject: [PATCH 21/30] fix: quantizing a histogram with fixed colors again
 could give a differently ordered palette

---
 src/hist.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hist.rs b/src/hist.rs
index 25852ee..f0016ee 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -303,7 +303,8 @@ impl Histogram {
                 self.hashmap.remove(&posterized);
             }
 
-            self.hashmap.insert(px_int, (0, rgba));
+            // unlike insert(), entry() won't reallocate (and reorder) the hashmap if it has this color already
+            *self.hashmap.entry(px_int).or_insert((0, rgba)) = (0, rgba);
         }
 
         let mut temp = Vec::new();
-- 
2.43.0


From 4462d8394fe6abea4c087fcf0bfdc2d8dbde06bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:23 +0000
Subject: [PATCH 22/30] fix: reading the palette lost precision of colors
 needed for other output gammas and later remaps

---
 src/quant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quant.rs b/src/quant.rs
index 2a9b8cc..3807f27 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -209,7 +209,8 @@ impl QuantizationResult {
             &remap.int_palette
         } else {
             if self.int_palette.count == 0 {
-                self.palette.init_int_palette(&mut self.int_palette, self.gamma, self.min_posterization_output);
+                // colors get rounded to the current gamma, but later calls may need full precision
+                self.palette.clone().init_int_palette(&mut self.int_palette, self.gamma, self.min_posterization_output);
             }
             &self.int_palette
         }
-- 
2.43.0


From c8b8656830ab82b1f1b24f8d3db594bc18e71562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:15 +0000
Subject: [PATCH 23/30] fix: error of images with 2^32 or more pixels was
 computed with an overflowed pixel count

---
 src/quant.rs | 2 +-
 src/remap.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index 3807f27..888857f 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -118,7 +118,7 @@ impl QuantizationResult {
     }
 
     fn optionally_generate_dither_map(use_dither_map: DitherMapMode, image: &mut Image<'_>, uses_background: bool, output_pixels: &mut RowBitmapMut<'_, MaybeUninit<PalIndexRemap>>, palette: &mut PalF) -> Result<Option<f64>, Error> {
-        let is_image_huge = (image.px.width * image.px.height) > 2000 * 2000;
+        let is_image_huge = (image.width() * image.height()) > 2000 * 2000;
         let allow_dither_map = use_dither_map == DitherMapMode::Always || (!is_image_huge && use_dither_map != DitherMapMode::None);
         let generate_dither_map = allow_dither_map && image.dither_map.is_none();
         if !generate_dither_map {
diff --git a/src/remap.rs b/src/remap.rs
index 303341b..4c5c0af 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -97,7 +97,7 @@ pub(crate) fn remap_to_palette<'x, 'b: 'x>(px: &mut DynamicRows, background: Opt
         .map(|t| t.0.into_inner().0)
         .reduce(Kmeans::merge) { kmeans.finalize(palette); }
 
-    let remapping_error = remapping_error / f64::from(px.width * px.height);
+    let remapping_error = remapping_error / (f64::from(px.width) * f64::from(px.height));
     Ok((remapping_error, unsafe { output_pixels.assume_init() }))
 }
 
-- 
2.43.0


From f01c22d2046ee798833724c21ef3104f00710049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 24/30] fix: Java: image was returned with the palette from
 before its remapping

---
 imagequant-sys/org/pngquant/Result.java | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/imagequant-sys/org/pngquant/Result.java b/imagequant-sys/org/pngquant/Result.java
index f4ef43c..7870e45 100644
--- a/imagequant-sys/org/pngquant/Result.java
+++ b/imagequant-sys/org/pngquant/Result.java
@@ -22,16 +22,18 @@ public class Result extends LiqObject {
      * @return BufferedImage remapped to palette this Result has been created with or null on failure.
      */
     public BufferedImage getRemapped(Image orig_image) {
+        int width = orig_image.getWidth(), height = orig_image.getHeight();
+        byte[] remapped = new byte[width * height];
+        if (!liq_write_remapped_image(handle, orig_image.handle, remapped)) return null;
+
+        // Remapping refines the palette, so it has to be read afterwards
         byte[] pal = liq_get_palette(handle);
         IndexColorModel color = new IndexColorModel(8, pal.length/4, pal, 0, true);
-        BufferedImage img = new BufferedImage(
-            orig_image.getWidth(), orig_image.getHeight(),
-            BufferedImage.TYPE_BYTE_INDEXED, color);
+        BufferedImage img = new BufferedImage(width, height, BufferedImage.TYPE_BYTE_INDEXED, color);
 
         byte[] data = get8bitDataFromImage(img);
         if (data == null) return null;
-
-        if (!liq_write_remapped_image(handle, orig_image.handle, data)) return null;
+        System.arraycopy(remapped, 0, data, 0, remapped.length);
 
         return img;
     }
-- 
2.43.0


From 4b2c6be1a5780d0b953a1ea2e5b07ae0520a0b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 25/30] fix: Java: premultiplied images of the caller were
 overwritten with unpremultiplied pixels

---
 imagequant-sys/org/pngquant/Image.java | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/imagequant-sys/org/pngquant/Image.java b/imagequant-sys/org/pngquant/Image.java
index 676d164..e9ca69d 100644
--- a/imagequant-sys/org/pngquant/Image.java
+++ b/imagequant-sys/org/pngquant/Image.java
@@ -51,14 +51,13 @@ public class Image extends LiqObject {
 
     private static long handleFromImage(PngQuant attr, BufferedImage image) {
         // The JNI wrapper will accept non-premultiplied ABGR and BGR only.
+        // Other images have to be converted to a copy, because these pixels belong to the caller.
         int type = image.getType();
         if (type != BufferedImage.TYPE_3BYTE_BGR &&
-            type != BufferedImage.TYPE_4BYTE_ABGR &&
-            type != BufferedImage.TYPE_4BYTE_ABGR_PRE) return 0;
+            type != BufferedImage.TYPE_4BYTE_ABGR) return 0;
 
         WritableRaster raster = image.getRaster();
         ColorModel color = image.getColorModel();
-        if (type == BufferedImage.TYPE_4BYTE_ABGR_PRE) color.coerceData(raster, false);
 
         DataBuffer buffer = raster.getDataBuffer();
         if (buffer instanceof DataBufferByte) {
-- 
2.43.0


From c944b56c818e7c17c1aa1315ffc3ac695b847ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 26/30] fix: Java: sub-images were read as the first pixels of
 the larger image

---
 imagequant-sys/org/pngquant/Image.java | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/imagequant-sys/org/pngquant/Image.java b/imagequant-sys/org/pngquant/Image.java
index e9ca69d..244dc0e 100644
--- a/imagequant-sys/org/pngquant/Image.java
+++ b/imagequant-sys/org/pngquant/Image.java
@@ -1,6 +1,8 @@
 package org.pngquant;
 
 import org.pngquant.*;
+import java.awt.AlphaComposite;
+import java.awt.Graphics2D;
 import java.awt.image.*;
 
 /**
@@ -22,7 +24,10 @@ public class Image extends LiqObject {
 
         if (handle == 0) {
             BufferedImage converted = new BufferedImage(image.getWidth(), image.getHeight(), BufferedImage.TYPE_4BYTE_ABGR);
-            converted.getGraphics().drawImage(image, 0, 0, null);
+            Graphics2D graphics = converted.createGraphics();
+            graphics.setComposite(AlphaComposite.Src); // blending wouldn't keep colors of translucent pixels exactly
+            graphics.drawImage(image, 0, 0, null);
+            graphics.dispose();
             handle = handleFromImage(attr, converted);
 
             if (handle == 0) {
@@ -62,6 +67,8 @@ public class Image extends LiqObject {
         DataBuffer buffer = raster.getDataBuffer();
         if (buffer instanceof DataBufferByte) {
             byte[] imageData = ((DataBufferByte)buffer).getData();
+            // Result of getSubimage() shares the buffer of the larger image
+            if (imageData.length != raster.getWidth() * raster.getHeight() * color.getNumComponents()) return 0;
             return liq_image_create(attr.handle, imageData,
                 raster.getWidth(), raster.getHeight(), color.getNumComponents());
         }
-- 
2.43.0


From a05aca8b40f5368b252a35ce127b85eb6457a8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 27/30] fix: Java: garbage collector could free objects during
 calls that use them

---
 imagequant-sys/org/pngquant/Image.java    |  5 +++--
 imagequant-sys/org/pngquant/PngQuant.c    | 26 ++++++++++++++---------
 imagequant-sys/org/pngquant/PngQuant.java |  5 +++--
 imagequant-sys/org/pngquant/Result.java   | 13 ++++++------
 4 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/imagequant-sys/org/pngquant/Image.java b/imagequant-sys/org/pngquant/Image.java
index 244dc0e..c6fc218 100644
--- a/imagequant-sys/org/pngquant/Image.java
+++ b/imagequant-sys/org/pngquant/Image.java
@@ -4,6 +4,7 @@ import org.pngquant.*;
 import java.awt.AlphaComposite;
 import java.awt.Graphics2D;
 import java.awt.image.*;
+import java.util.Objects;
 
 /**
  * PngQuant's representation of an Image constructed from BufferedImage.
@@ -69,12 +70,12 @@ public class Image extends LiqObject {
             byte[] imageData = ((DataBufferByte)buffer).getData();
             // Result of getSubimage() shares the buffer of the larger image
             if (imageData.length != raster.getWidth() * raster.getHeight() * color.getNumComponents()) return 0;
-            return liq_image_create(attr.handle, imageData,
+            return liq_image_create(Objects.requireNonNull(attr), imageData,
                 raster.getWidth(), raster.getHeight(), color.getNumComponents());
         }
         return 0;
     }
 
-    private static native long liq_image_create(long attr, byte[] bitmap, int width, int height, int components);
+    private static native long liq_image_create(PngQuant attr, byte[] bitmap, int width, int height, int components);
     private static native void liq_image_destroy(long handle);
 }
diff --git a/imagequant-sys/org/pngquant/PngQuant.c b/imagequant-sys/org/pngquant/PngQuant.c
index 06fa547..d43f4a0 100644
--- a/imagequant-sys/org/pngquant/PngQuant.c
+++ b/imagequant-sys/org/pngquant/PngQuant.c
@@ -14,12 +14,18 @@ static void *handle(JNIEnv *env, jobject obj) {
     return (void*)h;
 }
 
+/* Functions are given objects rather than their handles, because the garbage collector
+   won't finalize (and free) an object that is an argument of a native function being executed */
+static liq_image *image_handle(JNIEnv *env, jobject obj) {
+    return ((liq_jni_image*)handle(env, obj))->image;
+}
+
 JNIEXPORT jlong JNICALL Java_org_pngquant_PngQuant_liq_1attr_1create(JNIEnv *env, jclass class) {
     return (jlong)liq_attr_create();
 }
 
-JNIEXPORT jlong JNICALL Java_org_pngquant_PngQuant_liq_1attr_1copy(JNIEnv *env, jclass class, jlong attr) {
-    return (jlong)liq_attr_copy((liq_attr*)attr);
+JNIEXPORT jlong JNICALL Java_org_pngquant_PngQuant_liq_1attr_1copy(JNIEnv *env, jclass class, jobject attr) {
+    return (jlong)liq_attr_copy(handle(env, attr));
 }
 
 JNIEXPORT void JNICALL Java_org_pngquant_PngQuant_liq_1attr_1destroy(JNIEnv *env, jclass class, jlong attr) {
@@ -68,7 +74,7 @@ static void convert_bgr(liq_color row_out[], int row_index, int width, void* use
     }
 }
 
-JNIEXPORT jlong JNICALL Java_org_pngquant_Image_liq_1image_1create(JNIEnv *env, jclass class, jlong attr, jbyteArray bytearray, jint w, jint h, jint components) {
+JNIEXPORT jlong JNICALL Java_org_pngquant_Image_liq_1image_1create(JNIEnv *env, jclass class, jobject attr, jbyteArray bytearray, jint w, jint h, jint components) {
     /* liq_image needs to be wrapped to keep track of allocated buffer */
     liq_jni_image *jniimg = malloc(sizeof(liq_jni_image));
 
@@ -77,7 +83,7 @@ JNIEXPORT jlong JNICALL Java_org_pngquant_Image_liq_1image_1create(JNIEnv *env,
     jniimg->data = malloc(size);
     (*env)->GetByteArrayRegion(env, bytearray, 0, size, jniimg->data);
 
-    jniimg->image = liq_image_create_custom((liq_attr*)attr, components == 4 ? convert_abgr : convert_bgr, jniimg, w, h, 0);
+    jniimg->image = liq_image_create_custom(handle(env, attr), components == 4 ? convert_abgr : convert_bgr, jniimg, w, h, 0);
 
     if (!jniimg->image) {
         free(jniimg->data);
@@ -107,8 +113,8 @@ JNIEXPORT void JNICALL Java_org_pngquant_Image_liq_1image_1destroy(JNIEnv *env,
     free(jniimg);
 }
 
-JNIEXPORT jlong JNICALL Java_org_pngquant_Result_liq_1quantize_1image(JNIEnv *env, jclass class, jlong attr, jlong handle) {
-    return (jlong)liq_quantize_image((liq_attr*)attr, ((liq_jni_image*)handle)->image);
+JNIEXPORT jlong JNICALL Java_org_pngquant_Result_liq_1quantize_1image(JNIEnv *env, jclass class, jobject attr, jobject image) {
+    return (jlong)liq_quantize_image(handle(env, attr), image_handle(env, image));
 }
 
 JNIEXPORT jboolean JNICALL Java_org_pngquant_Result_setDitheringLevel(JNIEnv *env, jobject obj, jfloat l) {
@@ -123,11 +129,11 @@ JNIEXPORT jdouble JNICALL Java_org_pngquant_Result_getGamma(JNIEnv *env, jobject
     return liq_get_output_gamma(handle(env, obj));
 }
 
-JNIEXPORT jboolean JNICALL Java_org_pngquant_Result_liq_1write_1remapped_1image(JNIEnv *env, jclass class, jlong result, jlong image_handle, jbyteArray bytearray) {
+JNIEXPORT jboolean JNICALL Java_org_pngquant_Result_liq_1write_1remapped_1image(JNIEnv *env, jclass class, jobject result, jobject image, jbyteArray bytearray) {
     jsize size = (*env)->GetArrayLength(env, bytearray);
 
     jbyte *bitmap = (*env)->GetByteArrayElements(env, bytearray, 0);
-    liq_error err = liq_write_remapped_image((liq_result*)result, ((liq_jni_image*)image_handle)->image, bitmap, size);
+    liq_error err = liq_write_remapped_image(handle(env, result), image_handle(env, image), bitmap, size);
     (*env)->ReleaseByteArrayElements(env, bytearray, bitmap, 0);
 
     return LIQ_OK == err;
@@ -145,8 +151,8 @@ JNIEXPORT void JNICALL Java_org_pngquant_Result_liq_1result_1destroy(JNIEnv *env
     return liq_result_destroy((liq_result*)result);
 }
 
-JNIEXPORT jbyteArray JNICALL Java_org_pngquant_Result_liq_1get_1palette(JNIEnv *env, jclass class, jlong result) {
-    const liq_palette *pal = liq_get_palette((liq_result*)result);
+JNIEXPORT jbyteArray JNICALL Java_org_pngquant_Result_liq_1get_1palette(JNIEnv *env, jclass class, jobject result) {
+    const liq_palette *pal = liq_get_palette(handle(env, result));
     jbyteArray arr = (*env)->NewByteArray(env, pal->count * 4);
     int i;
     for(i=0; i < pal->count; i++) {
diff --git a/imagequant-sys/org/pngquant/PngQuant.java b/imagequant-sys/org/pngquant/PngQuant.java
index a8e54d2..1ec6c48 100644
--- a/imagequant-sys/org/pngquant/PngQuant.java
+++ b/imagequant-sys/org/pngquant/PngQuant.java
@@ -2,6 +2,7 @@ package org.pngquant;
 
 import org.pngquant.*;
 import java.awt.image.*;
+import java.util.Objects;
 
 /**
  * Starting point for the library. Holds configuration. Equivalent of liq_attr* in libimagequant.
@@ -16,7 +17,7 @@ public class PngQuant extends LiqObject {
     }
 
     public PngQuant(PngQuant other) {
-        handle = liq_attr_copy(other.handle);
+        handle = liq_attr_copy(Objects.requireNonNull(other));
     }
 
     /**
@@ -106,6 +107,6 @@ public class PngQuant extends LiqObject {
     }
 
     private static native long liq_attr_create();
-    private static native long liq_attr_copy(long orig);
+    private static native long liq_attr_copy(PngQuant orig);
     private static native void liq_attr_destroy(long handle);
 }
diff --git a/imagequant-sys/org/pngquant/Result.java b/imagequant-sys/org/pngquant/Result.java
index 7870e45..b29d7d7 100644
--- a/imagequant-sys/org/pngquant/Result.java
+++ b/imagequant-sys/org/pngquant/Result.java
@@ -2,6 +2,7 @@ package org.pngquant;
 
 import org.pngquant.*;
 import java.awt.image.*;
+import java.util.Objects;
 
 /**
  * Quantization result that holds palette and options for remapping.
@@ -12,7 +13,7 @@ public class Result extends LiqObject {
      * Throws when quantization fails (e.g. due to failing to achieve minimum quality)
      */
     public Result(PngQuant pngquant, Image image) throws PngQuantException {
-        handle = liq_quantize_image(pngquant.handle, image.handle);
+        handle = liq_quantize_image(Objects.requireNonNull(pngquant), Objects.requireNonNull(image));
         if (handle == 0) {
             throw new PngQuantException();
         }
@@ -24,10 +25,10 @@ public class Result extends LiqObject {
     public BufferedImage getRemapped(Image orig_image) {
         int width = orig_image.getWidth(), height = orig_image.getHeight();
         byte[] remapped = new byte[width * height];
-        if (!liq_write_remapped_image(handle, orig_image.handle, remapped)) return null;
+        if (!liq_write_remapped_image(this, orig_image, remapped)) return null;
 
         // Remapping refines the palette, so it has to be read afterwards
-        byte[] pal = liq_get_palette(handle);
+        byte[] pal = liq_get_palette(this);
         IndexColorModel color = new IndexColorModel(8, pal.length/4, pal, 0, true);
         BufferedImage img = new BufferedImage(width, height, BufferedImage.TYPE_BYTE_INDEXED, color);
 
@@ -85,8 +86,8 @@ public class Result extends LiqObject {
         return null;
     }
 
-    private static native byte[] liq_get_palette(long handle);
-    private static native long liq_quantize_image(long attr, long image);
-    private static native boolean liq_write_remapped_image(long handle, long image, byte[] buffer);
+    private static native byte[] liq_get_palette(Result result);
+    private static native long liq_quantize_image(PngQuant attr, Image image);
+    private static native boolean liq_write_remapped_image(Result result, Image image, byte[] buffer);
     private static native void liq_result_destroy(long handle);
 }
-- 
2.43.0


From 96acf53782e926f87737e6f486cd5563db7d7c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 28/30] fix: preparing for dithering panicked if the buffer was
 not exactly as large as the image

---
 src/quant.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quant.rs b/src/quant.rs
index 888857f..8b98d5a 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -75,6 +75,9 @@ impl QuantizationResult {
     /// However, this can be called before calling `image.set_background()`, so it may allow better parallelization while the background is generated on another thread.
     #[doc(hidden)]
     pub fn optionally_prepare_for_dithering_with_background_set(&mut self, image: &mut Image<'_>, output_buf: &mut [MaybeUninit<PalIndexRemap>]) -> Result<(), Error> {
+        let required_size = (image.width()) * (image.height());
+        let output_buf = output_buf.get_mut(0..required_size).ok_or(BufferTooSmall)?;
+
         let mut output_pixels = RowBitmapMut::new_contiguous(output_buf, image.width());
         Self::optionally_generate_dither_map(self.use_dither_map, image, true, &mut output_pixels, &mut self.palette)?;
         Ok(())
-- 
2.43.0


From 52f5c54b508e2b1245b8282faca2beb6d2fde4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 29/30] fix: liq_attr_create_with_allocator(NULL, NULL) crashed
 when owned memory was freed

---
 imagequant-sys/src/ffi.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index a067792..a0401c8 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -439,11 +439,11 @@ pub extern "C" fn liq_histogram_destroy(_hist: Option<Box<liq_histogram>>) {}
 #[no_mangle]
 #[inline(never)]
 #[deprecated(note = "custom allocators are no longer supported")]
-pub extern "C" fn liq_attr_create_with_allocator(_unused: *mut c_void, free: unsafe extern "C" fn(*mut c_void)) -> Option<Box<liq_attr>> {
+pub extern "C" fn liq_attr_create_with_allocator(_unused: *mut c_void, free: Option<unsafe extern "C" fn(*mut c_void)>) -> Option<Box<liq_attr>> {
     let attr = Box::new(liq_attr {
         magic_header: LIQ_ATTR_MAGIC,
         inner: Attributes::new(),
-        c_api_free: free,
+        c_api_free: free.unwrap_or(libc::free),
     });
     debug_assert_eq!(std::ptr::addr_of!(*attr), unsafe { attr_to_liq_attr_ptr(&attr.inner) } as *const liq_attr);
     Some(attr)
@@ -453,7 +453,7 @@ pub extern "C" fn liq_attr_create_with_allocator(_unused: *mut c_void, free: uns
 #[inline(never)]
 #[allow(deprecated)]
 pub extern "C" fn liq_attr_create() -> Option<Box<liq_attr>> {
-    liq_attr_create_with_allocator(ptr::null_mut(), libc::free)
+    liq_attr_create_with_allocator(ptr::null_mut(), None)
 }
 
 #[no_mangle]
-- 
2.43.0


From bf3492c92a68bc033900cdc771f798eb8ca4a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 30/30] fix: liq_write_remapped_image_rows crashed when a row
 pointer was NULL

---
 imagequant-sys/src/ffi.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index a0401c8..77a9e4d 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -329,6 +329,7 @@ pub unsafe extern "C" fn liq_write_remapped_image_rows(result: &mut liq_result,
 
     if liq_received_invalid_pointer(row_pointers.cast()) { return Error::InvalidPointer; }
     let rows = std::slice::from_raw_parts_mut(row_pointers, input_image.height());
+    if rows.iter().any(|row| row.is_null()) { return Error::InvalidPointer; }
 
     liq_write_remapped_image_rows_impl(result, input_image, rows).err().unwrap_or(LIQ_OK)
 }
-- 
2.43.0

