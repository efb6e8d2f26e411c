//! Raw prototypes of the C API as a C program sees it (libimagequant.h), linked from imagequant-sys.
#![allow(non_camel_case_types, dead_code, clashing_extern_declarations)]
use std::os::raw::{c_char, c_double, c_float, c_int, c_void};
extern crate imagequant_sys as _;

pub type attr = c_void;
pub type image = c_void;
pub type result = c_void;
pub type hist = c_void;

#[repr(C)]
#[derive(Copy, Clone)]
pub struct color {
    pub r: u8,
    pub g: u8,
    pub b: u8,
    pub a: u8,
}
#[repr(C)]
pub struct palette {
    pub count: u32,
    pub entries: [color; 256],
}
#[repr(C)]
#[derive(Copy, Clone)]
pub struct hist_entry {
    pub color: color,
    pub count: u32,
}
pub const OK: c_int = 0;
pub const QUALITY_TOO_LOW: c_int = 99;
pub const VALUE_OUT_OF_RANGE: c_int = 100;
pub const OUT_OF_MEMORY: c_int = 101;
pub const ABORTED: c_int = 102;
pub const BITMAP_NOT_AVAILABLE: c_int = 103;
pub const BUFFER_TOO_SMALL: c_int = 104;
pub const INVALID_POINTER: c_int = 105;
pub const UNSUPPORTED: c_int = 106;
pub const OWN_ROWS: c_int = 4;
pub const OWN_PIXELS: c_int = 8;
pub const COPY_PIXELS: c_int = 16;

pub type log_cb = unsafe extern "C" fn(*const attr, *const c_char, *mut c_void);
pub type flush_cb = unsafe extern "C" fn(*const attr, *mut c_void);
pub type progress_cb = unsafe extern "C" fn(c_float, *mut c_void) -> c_int;
pub type row_cb = unsafe extern "C" fn(*mut color, c_int, c_int, *mut c_void);
pub type free_fn = unsafe extern "C" fn(*mut c_void);

extern "C" {
    #[cfg_attr(feature = "header", link_name = "h_liq_attr_create")]
    pub fn liq_attr_create() -> *mut attr;
    #[cfg_attr(feature = "header", link_name = "h_liq_attr_create_with_allocator")]
    pub fn liq_attr_create_with_allocator(m: *mut c_void, f: Option<free_fn>) -> *mut attr;
    #[cfg_attr(feature = "header", link_name = "h_liq_attr_copy")]
    pub fn liq_attr_copy(a: *const attr) -> *mut attr;
    #[cfg_attr(feature = "header", link_name = "h_liq_attr_destroy")]
    pub fn liq_attr_destroy(a: *mut attr);
    #[cfg_attr(feature = "header", link_name = "h_liq_histogram_create")]
    pub fn liq_histogram_create(a: *const attr) -> *mut hist;
    #[cfg_attr(feature = "header", link_name = "h_liq_histogram_add_image")]
    pub fn liq_histogram_add_image(h: *mut hist, a: *const attr, i: *mut image) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_histogram_add_colors")]
    pub fn liq_histogram_add_colors(h: *mut hist, a: *const attr, e: *const hist_entry, n: c_int, g: c_double) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_histogram_add_fixed_color")]
    pub fn liq_histogram_add_fixed_color(h: *mut hist, c: color, g: c_double) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_histogram_destroy")]
    pub fn liq_histogram_destroy(h: *mut hist);
    #[cfg_attr(feature = "header", link_name = "h_liq_set_max_colors")]
    pub fn liq_set_max_colors(a: *mut attr, n: c_int) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_get_max_colors")]
    pub fn liq_get_max_colors(a: *const attr) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_set_speed")]
    pub fn liq_set_speed(a: *mut attr, n: c_int) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_get_speed")]
    pub fn liq_get_speed(a: *const attr) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_set_min_opacity")]
    pub fn liq_set_min_opacity(a: *mut attr, n: c_int) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_get_min_opacity")]
    pub fn liq_get_min_opacity(a: *const attr) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_set_min_posterization")]
    pub fn liq_set_min_posterization(a: *mut attr, n: c_int) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_get_min_posterization")]
    pub fn liq_get_min_posterization(a: *const attr) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_set_quality")]
    pub fn liq_set_quality(a: *mut attr, min: c_int, max: c_int) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_get_min_quality")]
    pub fn liq_get_min_quality(a: *const attr) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_get_max_quality")]
    pub fn liq_get_max_quality(a: *const attr) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_set_last_index_transparent")]
    pub fn liq_set_last_index_transparent(a: *mut attr, n: c_int);
    #[cfg_attr(feature = "header", link_name = "h_liq_set_log_callback")]
    pub fn liq_set_log_callback(a: *mut attr, c: Option<log_cb>, u: *mut c_void);
    #[cfg_attr(feature = "header", link_name = "h_liq_set_log_flush_callback")]
    pub fn liq_set_log_flush_callback(a: *mut attr, c: Option<flush_cb>, u: *mut c_void);
    #[cfg_attr(feature = "header", link_name = "h_liq_attr_set_progress_callback")]
    pub fn liq_attr_set_progress_callback(a: *mut attr, c: Option<progress_cb>, u: *mut c_void);
    #[cfg_attr(feature = "header", link_name = "h_liq_result_set_progress_callback")]
    pub fn liq_result_set_progress_callback(r: *mut result, c: Option<progress_cb>, u: *mut c_void);
    #[cfg_attr(feature = "header", link_name = "h_liq_image_create_rgba_rows")]
    pub fn liq_image_create_rgba_rows(a: *const attr, rows: *const *mut c_void, w: c_int, h: c_int, g: c_double) -> *mut image;
    #[cfg_attr(feature = "header", link_name = "h_liq_image_create_rgba")]
    pub fn liq_image_create_rgba(a: *const attr, p: *const c_void, w: c_int, h: c_int, g: c_double) -> *mut image;
    #[cfg_attr(feature = "header", link_name = "h_liq_image_create_custom")]
    pub fn liq_image_create_custom(a: *const attr, cb: row_cb, u: *mut c_void, w: c_int, h: c_int, g: c_double) -> *mut image;
    #[cfg_attr(feature = "header", link_name = "h_liq_image_set_memory_ownership")]
    pub fn liq_image_set_memory_ownership(i: *mut image, f: c_int) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_image_set_background")]
    pub fn liq_image_set_background(i: *mut image, b: *mut image) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_image_set_importance_map")]
    pub fn liq_image_set_importance_map(i: *mut image, b: *mut u8, n: usize, o: c_int) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_image_add_fixed_color")]
    pub fn liq_image_add_fixed_color(i: *mut image, c: color) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_image_get_width")]
    pub fn liq_image_get_width(i: *const image) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_image_get_height")]
    pub fn liq_image_get_height(i: *const image) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_image_destroy")]
    pub fn liq_image_destroy(i: *mut image);
    #[cfg_attr(feature = "header", link_name = "h_liq_histogram_quantize")]
    pub fn liq_histogram_quantize(h: *mut hist, a: *mut attr, r: *mut *mut result) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_image_quantize")]
    pub fn liq_image_quantize(i: *mut image, a: *mut attr, r: *mut *mut result) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_quantize_image")]
    pub fn liq_quantize_image(a: *mut attr, i: *mut image) -> *mut result;
    #[cfg_attr(feature = "header", link_name = "h_liq_set_dithering_level")]
    pub fn liq_set_dithering_level(r: *mut result, d: c_float) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_set_output_gamma")]
    pub fn liq_set_output_gamma(r: *mut result, g: c_double) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_get_output_gamma")]
    pub fn liq_get_output_gamma(r: *const result) -> c_double;
    #[cfg_attr(feature = "header", link_name = "h_liq_get_palette")]
    pub fn liq_get_palette(r: *mut result) -> *const palette;
    #[cfg_attr(feature = "header", link_name = "h_liq_write_remapped_image")]
    pub fn liq_write_remapped_image(r: *mut result, i: *mut image, b: *mut c_void, n: usize) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_write_remapped_image_rows")]
    pub fn liq_write_remapped_image_rows(r: *mut result, i: *mut image, rows: *mut *mut u8) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_get_quantization_error")]
    pub fn liq_get_quantization_error(r: *const result) -> c_double;
    #[cfg_attr(feature = "header", link_name = "h_liq_get_quantization_quality")]
    pub fn liq_get_quantization_quality(r: *const result) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_get_remapping_error")]
    pub fn liq_get_remapping_error(r: *const result) -> c_double;
    #[cfg_attr(feature = "header", link_name = "h_liq_get_remapping_quality")]
    pub fn liq_get_remapping_quality(r: *const result) -> c_int;
    #[cfg_attr(feature = "header", link_name = "h_liq_result_destroy")]
    pub fn liq_result_destroy(r: *mut result);
    #[cfg_attr(feature = "header", link_name = "h_liq_version")]
    pub fn liq_version() -> c_int;
}

pub fn ccolor(p: crate::common::Px) -> color {
    color { r: p[0], g: p[1], b: p[2], a: p[3] }
}
pub unsafe fn pal_px(r: *mut result) -> Vec<crate::common::Px> {
    let p = liq_get_palette(r);
    assert!(!p.is_null());
    #[cfg(feature = "header")]
    return (0..h_pal_count(p)).map(|i| { let c = h_pal_entry(p, i); [c.r, c.g, c.b, c.a] }).collect();
    #[cfg(not(feature = "header"))]
    {
    // with large palettes the array is longer than in the header, but it starts at the same place
    let n = (*p).count as usize;
    let first = std::ptr::addr_of!((*p).entries).cast::<color>();
    (0..n).map(|i| { let c = *first.add(i); [c.r, c.g, c.b, c.a] }).collect()
    }
}
#[cfg(feature = "header")]
extern "C" {
    pub fn h_pal_count(p: *const palette) -> u32;
    pub fn h_pal_entry(p: *const palette, i: u32) -> color;
    pub fn h_layout(i: c_int) -> std::os::raw::c_long;
}
pub fn code(e: imagequant::Error) -> c_int {
    e as c_int
}

macro_rules! owned {
    ($n:ident, $d:ident) => {
        pub struct $n(pub *mut c_void);
        impl Drop for $n {
            fn drop(&mut self) {
                if !self.0.is_null() {
                    unsafe { $d(self.0) }
                }
            }
        }
    };
}
owned!(CAttr, liq_attr_destroy);
owned!(CImage, liq_image_destroy);
owned!(CResult, liq_result_destroy);
owned!(CHist, liq_histogram_destroy);

pub fn c_attr(s: &crate::common::Settings) -> CAttr {
    unsafe {
        let a = CAttr(liq_attr_create());
        assert_eq!(OK, liq_set_speed(a.0, s.speed as c_int));
        assert_eq!(OK, liq_set_max_colors(a.0, s.max_colors as c_int));
        if let Some((min, max)) = s.quality {
            assert_eq!(OK, liq_set_quality(a.0, min as c_int, max as c_int));
        }
        assert_eq!(OK, liq_set_min_posterization(a.0, s.posterize as c_int));
        liq_set_last_index_transparent(a.0, s.last_transparent as c_int);
        a
    }
}
