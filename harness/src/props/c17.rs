//! C API in lockstep with the Rust API; bad handles and NULLs.
use crate::capi::*;
use crate::common::*;
use imagequant::{Attributes, Histogram, HistogramEntry, Image, QuantizationResult, RGBA};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::raw::{c_int, c_void};
use std::ptr::{null, null_mut};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Speed(i32),
    MaxColors(i32),
    Quality(i32, i32),
    Posterize(i32),
    LastTransparent(i32),
    AttrCopy,
    Img { img: Img, kind: u8, gamma: f64 },
    Fixed(u8, Px),
    Imp(u8, u32, bool),
    Bg(u8, u8),
    Quantize(u8),
    HNew,
    HImg(u8),
    HCols(Vec<Px>, u32, f64),
    /// many entries: seed, number
    HMany(u32, u32),
    HFixed(Px, f64),
    HQuantize,
    Dither(f32),
    OutGamma(f64),
    Palette,
    Remap { i: u8, rows: bool, slack: u8 },
    Short(u8),
}
/// one call with a bad handle: function, handle position, what is passed
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Poke {
    f: u8,
    pos: u8,
    bad: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Lock { ops: Vec<Op> },
    Bad { img: Img, set: Settings, dither: f32, pokes: Vec<Poke>, null_ok: bool },
}
pub struct P;

struct Pair {
    r: Image<'static>,
    c: CImage,
    w: usize,
    h: usize,
    has_bg: bool,
    fixed: usize,
}

unsafe extern "C" fn row(out: *mut color, y: c_int, w: c_int, u: *mut c_void) {
    let d = &*(u as *const (Vec<RGBA>, usize));
    for x in 0..w as usize {
        *out.add(x) = ccolor(px(d.0[y as usize * d.1 + x]));
    }
}

struct Lock {
    ra: Attributes,
    ca: CAttr,
    imgs: Vec<Pair>,
    rh: Option<(Histogram, CHist)>,
    res: Option<(QuantizationResult, CResult)>,
    keep: Vec<Box<(Vec<RGBA>, usize)>>,
    rows: Vec<Vec<*mut c_void>>,
}

fn rc(r: Result<(), imagequant::Error>) -> c_int {
    r.err().map_or(OK, code)
}
fn erri(e: Option<f64>) -> f64 {
    e.unwrap_or(-1.)
}

impl Lock {
    unsafe fn step(&mut self, op: &Op, st: &mut Stats) -> R {
        macro_rules! same {
            ($r:expr, $c:expr, $what:expr) => {{
                let (r, c) = ($r, $c);
                ensure!(r == c, "{}: Rust {:?}, C {:?}", $what, r, c);
                r
            }};
        }
        macro_rules! pick {
            ($i:expr) => {{
                if self.imgs.is_empty() { return Ok(()); }
                *$i as usize % self.imgs.len()
            }};
        }
        match op {
            Op::Speed(v) => {
                same!(rc(self.ra.set_speed(*v)), liq_set_speed(self.ca.0, *v), "set_speed");
            }
            Op::MaxColors(v) => {
                same!(rc(self.ra.set_max_colors(*v as u32)), liq_set_max_colors(self.ca.0, *v), "set_max_colors");
            }
            Op::Quality(a, b) => {
                let r = match (u8::try_from(*a), u8::try_from(*b)) { (Ok(a), Ok(b)) => rc(self.ra.set_quality(a, b)), _ => VALUE_OUT_OF_RANGE };
                same!(r, liq_set_quality(self.ca.0, *a, *b), "set_quality");
            }
            Op::Posterize(v) => {
                let r = match u8::try_from(*v) { Ok(v) => rc(self.ra.set_min_posterization(v)), _ => VALUE_OUT_OF_RANGE };
                same!(r, liq_set_min_posterization(self.ca.0, *v), "set_min_posterization");
            }
            Op::LastTransparent(v) => {
                self.ra.set_last_index_transparent(*v != 0);
                liq_set_last_index_transparent(self.ca.0, *v);
            }
            Op::AttrCopy => {
                self.ra = self.ra.clone();
                self.ca = CAttr(liq_attr_copy(self.ca.0));
                ensure!(!self.ca.0.is_null(), "attr_copy gave NULL");
            }
            Op::Img { img, kind, gamma } => {
                let (w, h) = (img.w as usize, img.h as usize);
                self.keep.push(Box::new((img.pixels(), w)));
                let d: *const (Vec<RGBA>, usize) = &**self.keep.last().unwrap();
                let p = (*d).0.as_ptr();
                let (cw, ch) = (w as c_int, h as c_int);
                let (r, c) = match kind % 3 {
                    0 => (Image::new(&self.ra, img.pixels(), w, h, *gamma), liq_image_create_rgba(self.ca.0, p.cast(), cw, ch, *gamma)),
                    1 => {
                        self.rows.push((0..h).map(|y| p.add(y * w) as *mut c_void).collect());
                        (Image::new(&self.ra, img.pixels(), w, h, *gamma), liq_image_create_rgba_rows(self.ca.0, self.rows.last().unwrap().as_ptr(), cw, ch, *gamma))
                    }
                    _ => {
                        let px = img.pixels();
                        let f = move |out: &mut [std::mem::MaybeUninit<RGBA>], y: usize| {
                            for (o, p) in out.iter_mut().zip(&px[y * w..]) { o.write(*p); }
                        };
                        (Image::new_fn(&self.ra, f, w, h, *gamma), liq_image_create_custom(self.ca.0, row, d as *mut c_void, cw, ch, *gamma))
                    }
                };
                same!(r.is_err(), c.is_null(), format!("image refused (gamma {gamma})"));
                if let Ok(r) = r {
                    let c = CImage(c);
                    same!((r.width(), r.height()), (liq_image_get_width(c.0) as usize, liq_image_get_height(c.0) as usize), "size");
                    self.imgs.push(Pair { r, c, w, h, has_bg: false, fixed: 0 });
                }
            }
            Op::Fixed(i, p) => {
                let i = pick!(i);
                let im = &mut self.imgs[i];
                same!(rc(im.r.add_fixed_color(rgba(*p))), liq_image_add_fixed_color(im.c.0, ccolor(*p)), "add_fixed_color");
                im.fixed += 1;
            }
            Op::Imp(i, seed, zeros) => {
                let i = pick!(i);
                let im = &mut self.imgs[i];
                let mut r = Sm::new(*seed as u64);
                let mut m: Vec<u8> = (0..im.w * im.h).map(|_| if *zeros && r.below(3) == 0 { 0 } else { r.next() as u8 }).collect();
                same!(rc(im.r.set_importance_map(m.clone())), liq_image_set_importance_map(im.c.0, m.as_mut_ptr(), m.len(), COPY_PIXELS), "importance map");
            }
            Op::Bg(i, b) => {
                if self.imgs.len() < 2 { return Ok(()); }
                let b = *b as usize % self.imgs.len();
                let i = *i as usize % self.imgs.len();
                if i == b { return Ok(()); }
                let bg = self.imgs.remove(b);
                let i = if b < i { i - 1 } else { i };
                let h = bg.c.0;
                std::mem::forget(bg.c);
                let im = &mut self.imgs[i];
                let r = same!(rc(im.r.set_background(bg.r)), liq_image_set_background(im.c.0, h), "set_background");
                im.has_bg |= r == OK;
            }
            Op::Quantize(i) => {
                let i = pick!(i);
                let im = &mut self.imgs[i];
                let r = self.ra.quantize(&mut im.r);
                let mut out = null_mut();
                let c = if i % 3 == 2 {
                    out = liq_quantize_image(self.ca.0, im.c.0);
                    same!(r.is_err(), out.is_null(), "quantize_image");
                    r.as_ref().err().map_or(OK, |e| code(*e))
                } else {
                    liq_image_quantize(im.c.0, self.ca.0, &mut out)
                };
                same!(r.as_ref().err().map_or(OK, |e| code(*e)), c, "quantize");
                self.take(r, out)?;
                st.label(if c == OK { "quantized" } else { "refused" });
            }
            Op::HNew => self.rh = Some((Histogram::new(&self.ra), CHist(liq_histogram_create(self.ca.0)))),
            Op::HImg(i) => {
                let i = pick!(i);
                let Some((rh, ch)) = &mut self.rh else { return Ok(()) };
                same!(rc(rh.add_image(&self.ra, &mut self.imgs[i].r)), liq_histogram_add_image(ch.0, self.ca.0, self.imgs[i].c.0), "add_image");
            }
            Op::HCols(cols, count, g) => {
                let Some((rh, ch)) = &mut self.rh else { return Ok(()) };
                let e: Vec<HistogramEntry> = cols.iter().enumerate().map(|(k, &p)| HistogramEntry { color: rgba(p), count: count.wrapping_mul(k as u32 + 1) }).collect();
                let ce: Vec<hist_entry> = e.iter().map(|e| hist_entry { color: ccolor(px(e.color)), count: e.count }).collect();
                // an empty list is no error in C
                let r = if e.is_empty() { OK } else { rc(rh.add_colors(&e, *g)) };
                same!(r, liq_histogram_add_colors(ch.0, self.ca.0, ce.as_ptr(), ce.len() as c_int, *g), "add_colors");
            }
            Op::HMany(seed, n) => {
                let Some((rh, ch)) = &mut self.rh else { return Ok(()) };
                let mut r = Sm::new(*seed as u64);
                let mask = if seed % 2 == 0 { 0x3F0F1F } else { 0xFF030307 };
                let e: Vec<HistogramEntry> = (0..*n).map(|_| { let v = r.next() as u32 & mask; HistogramEntry { color: RGBA::new(v as u8, (v >> 8) as u8, (v >> 16) as u8, 255 - (v >> 24) as u8), count: 1 + r.below(9) as u32 } }).collect();
                let ce: Vec<hist_entry> = e.iter().map(|e| hist_entry { color: ccolor(px(e.color)), count: e.count }).collect();
                same!(rc(rh.add_colors(&e, 0.)), liq_histogram_add_colors(ch.0, self.ca.0, ce.as_ptr(), ce.len() as c_int, 0.), "add_colors (many)");
                st.nontrivial(*n > 65536);
            }
            Op::HFixed(p, g) => {
                let Some((rh, ch)) = &mut self.rh else { return Ok(()) };
                same!(rc(rh.add_fixed_color(rgba(*p), *g)), liq_histogram_add_fixed_color(ch.0, ccolor(*p), *g), "histogram add_fixed_color");
            }
            Op::HQuantize => {
                let Some((rh, ch)) = &mut self.rh else { return Ok(()) };
                let r = rh.quantize(&self.ra);
                let mut out = null_mut();
                let c = liq_histogram_quantize(ch.0, self.ca.0, &mut out);
                same!(r.as_ref().err().map_or(OK, |e| code(*e)), c, "histogram quantize");
                self.take(r, out)?;
            }
            Op::Dither(d) => {
                let Some((r, c)) = &mut self.res else { return Ok(()) };
                same!(rc(r.set_dithering_level(*d)), liq_set_dithering_level(c.0, *d), "set_dithering_level");
            }
            Op::OutGamma(g) => {
                let Some((r, c)) = &mut self.res else { return Ok(()) };
                same!(rc(r.set_output_gamma(*g)), liq_set_output_gamma(c.0, *g), "set_output_gamma");
                same!(r.output_gamma().to_bits(), liq_get_output_gamma(c.0).to_bits(), "output gamma");
            }
            Op::Palette => {
                let Some((r, c)) = &mut self.res else { return Ok(()) };
                let p: Vec<Px> = r.palette_vec().into_iter().map(px).collect();
                same!(&p, &pal_px(c.0), "palette");
                // the array behind the palette is all zero beyond the count
                st.label("palette compared");
            }
            Op::Remap { i, rows, slack } => {
                let i = pick!(i);
                let Some((r, c)) = &mut self.res else { return Ok(()) };
                let im = &mut self.imgs[i];
                let n = im.w * im.h;
                let rr = r.remapped(&mut im.r);
                let pad = *slack as usize % 9;
                let cx = if *rows {
                    let stride = im.w + pad;
                    let mut buf = vec![0xC3u8; stride * im.h];
                    let mut rp: Vec<*mut u8> = (0..im.h).map(|y| buf.as_mut_ptr().add(y * stride)).collect();
                    let x = liq_write_remapped_image_rows(c.0, im.c.0, rp.as_mut_ptr());
                    let mut out = vec![];
                    for y in 0..im.h {
                        out.extend_from_slice(&buf[y * stride..y * stride + im.w]);
                        ensure!(buf[y * stride + im.w..(y + 1) * stride].iter().all(|&b| b == 0xC3), "bytes after row {y} were written");
                    }
                    (x, out)
                } else {
                    let mut buf = vec![0xC3u8; n + pad];
                    let x = liq_write_remapped_image(c.0, im.c.0, buf.as_mut_ptr().cast(), n + pad);
                    ensure!(buf[n..].iter().all(|&b| b == 0xC3), "bytes after the image were written");
                    buf.truncate(n);
                    (x, buf)
                };
                same!(rr.as_ref().err().map_or(OK, |e| code(*e)), cx.0, "remap");
                if let Ok((p, idx)) = rr {
                    same!(&idx, &cx.1, "indices");
                    let p: Vec<Px> = p.into_iter().map(px).collect();
                    same!(&p, &pal_px(c.0), "palette after remapping");
                    st.label("remapped");
                    st.nontrivial(p.len() >= 3);
                }
            }
            Op::Short(i) => {
                let i = pick!(i);
                let Some((_, c)) = &mut self.res else { return Ok(()) };
                let im = &mut self.imgs[i];
                let mut buf = vec![0xC3u8; im.w * im.h];
                let n = im.w * im.h - 1;
                let x = liq_write_remapped_image(c.0, im.c.0, buf.as_mut_ptr().cast(), n);
                ensure!(x == BUFFER_TOO_SMALL && buf.iter().all(|&b| b == 0xC3), "buffer of {n} bytes: {x}");
            }
        }
        self.getters()
    }
    fn take(&mut self, r: Result<QuantizationResult, imagequant::Error>, out: *mut c_void) -> R {
        ensure!(r.is_ok() == !out.is_null(), "result pointer {out:?}");
        if let Ok(r) = r {
            self.res = Some((r, CResult(out)));
        }
        Ok(())
    }
    fn getters(&mut self) -> R {
        unsafe {
            let (a, c) = (&self.ra, self.ca.0);
            let x = (a.speed() as i64, a.max_colors() as i64, a.min_posterization() as i64, a.quality().0 as i64, a.quality().1 as i64);
            let y = (liq_get_speed(c) as i64, liq_get_max_colors(c) as i64, liq_get_min_posterization(c) as i64, liq_get_min_quality(c) as i64, liq_get_max_quality(c) as i64);
            ensure!(x == y, "settings: Rust {x:?}, C {y:?}");
            if let Some((r, c)) = &self.res {
                let x = (erri(r.quantization_error()).to_bits(), erri(r.remapping_error()).to_bits(), r.quantization_quality().map_or(-1, c_int::from), r.remapping_quality().map_or(-1, c_int::from), r.output_gamma().to_bits());
                let y = (liq_get_quantization_error(c.0).to_bits(), liq_get_remapping_error(c.0).to_bits(), liq_get_quantization_quality(c.0), liq_get_remapping_quality(c.0), liq_get_output_gamma(c.0).to_bits());
                ensure!(x == y, "errors, qualities, gamma: Rust {x:?}, C {y:?}");
            }
            Ok(())
        }
    }
}

unsafe extern "C" fn never_log(_: *const attr, _: *const std::os::raw::c_char, _: *mut c_void) {
    panic!("callback set through a bad handle was called");
}
unsafe extern "C" fn never_flush(_: *const attr, _: *mut c_void) {
    panic!("callback set through a bad handle was called");
}
unsafe extern "C" fn never_progress(_: f32, _: *mut c_void) -> c_int {
    panic!("callback set through a bad handle was called");
}
unsafe extern "C" fn never_row(_: *mut color, _: c_int, _: c_int, _: *mut c_void) {
    panic!("callback set through a bad handle was called");
}

const A: usize = 0;
const I: usize = 1;
const RS: usize = 2;
const H: usize = 3;
/// handle types per position of each function; whether NULL is taken care of by the function's signature in optimised builds
const FNS: &[(&str, &[usize], bool)] = &[
    ("liq_set_max_colors", &[A], false),
    ("liq_get_max_colors", &[A], true),
    ("liq_set_speed", &[A], false),
    ("liq_get_speed", &[A], true),
    ("liq_set_min_posterization", &[A], false),
    ("liq_get_min_posterization", &[A], true),
    ("liq_set_quality", &[A], false),
    ("liq_get_min_quality", &[A], false),
    ("liq_get_max_quality", &[A], false),
    ("liq_set_last_index_transparent", &[A], false),
    ("liq_set_log_callback", &[A], false),
    ("liq_set_log_flush_callback", &[A], false),
    ("liq_attr_set_progress_callback", &[A], false),
    ("liq_result_set_progress_callback", &[RS], false),
    ("liq_attr_copy", &[A], false),
    ("liq_histogram_create", &[A], false),
    ("liq_histogram_add_image", &[H, A, I], false),
    ("liq_histogram_add_colors", &[H, A], false),
    ("liq_histogram_add_fixed_color", &[H], false),
    ("liq_image_create_rgba_rows", &[A], false),
    ("liq_image_create_rgba", &[A], false),
    ("liq_image_create_custom", &[A], false),
    ("liq_image_set_memory_ownership", &[I], false),
    ("liq_image_set_background", &[I], false),
    ("liq_image_set_importance_map", &[I], false),
    ("liq_image_add_fixed_color", &[I], false),
    ("liq_image_get_width", &[I], true),
    ("liq_image_get_height", &[I], true),
    ("liq_histogram_quantize", &[H, A], false),
    ("liq_image_quantize", &[I, A], false),
    ("liq_quantize_image", &[A, I], false),
    ("liq_set_dithering_level", &[RS], false),
    ("liq_set_output_gamma", &[RS], false),
    ("liq_get_output_gamma", &[RS], true),
    ("liq_get_palette", &[RS], false),
    ("liq_write_remapped_image", &[RS, I], false),
    ("liq_write_remapped_image_rows", &[RS, I], false),
    ("liq_get_quantization_error", &[RS], false),
    ("liq_get_quantization_quality", &[RS], false),
    ("liq_get_remapping_error", &[RS], false),
    ("liq_get_remapping_quality", &[RS], false),
    // NULL only
    ("background NULL", &[], true),
    ("destroy NULL", &[], true),
    ("NULL buffers", &[], true),
    ("NULL callbacks", &[], true),
];

unsafe fn poke(p: &Poke, hs: [*mut c_void; 4], null_ok: bool, im: &Img, st: &mut Stats) -> R {
    let (name, pos, null_safe) = FNS[p.f as usize % FNS.len()];
    let mut h = [null_mut(); 3];
    let mut bad = null_mut();
    if !pos.is_empty() {
        for (k, t) in pos.iter().enumerate() {
            h[k] = hs[*t];
        }
        let k = p.pos as usize % pos.len();
        let other: Vec<usize> = (0..4).filter(|t| *t != pos[k]).collect();
        let b = p.bad as usize % 4;
        bad = if b == 3 { if !null_ok && !null_safe { return Ok(()); } null_mut() } else { hs[other[b]] };
        h[k] = bad;
        st.label(format!("{} {}", if b == 3 { "NULL" } else { "wrong type" }, name));
    } else {
        st.label(name);
    }
    let [x, y, z] = h;
    let n = im.n();
    let mut buf = vec![0x5Au8; n * 4];
    let mut out = 1usize as *mut c_void; // must not be touched or be set to NULL
    let c = color { r: 1, g: 2, b: 3, a: 4 };
    macro_rules! want {
        ($got:expr, $want:expr) => {{
            let g = $got;
            ensure!(g == $want, "{name} with {} handle in position {}: {:?}, expected {:?}", if bad.is_null() { "a NULL" } else { "a wrong-type" }, p.pos as usize % pos.len().max(1), g, $want);
        }};
    }
    match name {
        "liq_set_max_colors" => want!(liq_set_max_colors(x, 7), INVALID_POINTER),
        "liq_get_max_colors" => want!(liq_get_max_colors(x), -1),
        "liq_set_speed" => want!(liq_set_speed(x, 7), INVALID_POINTER),
        "liq_get_speed" => want!(liq_get_speed(x), -1),
        "liq_set_min_posterization" => want!(liq_set_min_posterization(x, 2), INVALID_POINTER),
        "liq_get_min_posterization" => want!(liq_get_min_posterization(x), -1),
        "liq_set_quality" => want!(liq_set_quality(x, 10, 20), INVALID_POINTER),
        "liq_get_min_quality" => want!(liq_get_min_quality(x), -1),
        "liq_get_max_quality" => want!(liq_get_max_quality(x), -1),
        "liq_set_last_index_transparent" => liq_set_last_index_transparent(x, 1),
        "liq_set_log_callback" => liq_set_log_callback(x, Some(never_log), null_mut()),
        "liq_set_log_flush_callback" => liq_set_log_flush_callback(x, Some(never_flush), null_mut()),
        "liq_attr_set_progress_callback" => liq_attr_set_progress_callback(x, Some(never_progress), null_mut()),
        "liq_result_set_progress_callback" => liq_result_set_progress_callback(x, Some(never_progress), null_mut()),
        "liq_attr_copy" => want!(liq_attr_copy(x).is_null(), true),
        "liq_histogram_create" => want!(liq_histogram_create(x).is_null(), true),
        "liq_histogram_add_image" => want!(liq_histogram_add_image(x, y, z), INVALID_POINTER),
        "liq_histogram_add_colors" => {
            let e = [hist_entry { color: c, count: 9 }];
            want!(liq_histogram_add_colors(x, y, e.as_ptr(), 1, 0.), INVALID_POINTER)
        }
        "liq_histogram_add_fixed_color" => want!(liq_histogram_add_fixed_color(x, c, 0.), INVALID_POINTER),
        "liq_image_create_rgba_rows" => {
            let rows: Vec<*mut c_void> = (0..im.h as usize).map(|r| buf.as_mut_ptr().add(r * im.w as usize * 4).cast()).collect();
            want!(liq_image_create_rgba_rows(x, rows.as_ptr(), im.w as c_int, im.h as c_int, 0.).is_null(), true)
        }
        "liq_image_create_rgba" => want!(liq_image_create_rgba(x, buf.as_ptr().cast(), im.w as c_int, im.h as c_int, 0.).is_null(), true),
        "liq_image_create_custom" => want!(liq_image_create_custom(x, never_row, null_mut(), im.w as c_int, im.h as c_int, 0.).is_null(), true),
        "liq_image_set_memory_ownership" => want!(liq_image_set_memory_ownership(x, OWN_PIXELS), INVALID_POINTER),
        "liq_image_set_background" => {
            let px = im.pixels();
            let b = liq_image_create_rgba(hs[A], px.as_ptr().cast(), im.w as c_int, im.h as c_int, 0.);
            want!(liq_image_set_background(x, b), INVALID_POINTER)
        }
        "liq_image_set_importance_map" => want!(liq_image_set_importance_map(x, buf.as_mut_ptr(), n, COPY_PIXELS), INVALID_POINTER),
        "liq_image_add_fixed_color" => want!(liq_image_add_fixed_color(x, c), INVALID_POINTER),
        "liq_image_get_width" => want!(liq_image_get_width(x), -1),
        "liq_image_get_height" => want!(liq_image_get_height(x), -1),
        "liq_histogram_quantize" => {
            want!(liq_histogram_quantize(x, y, &mut out), INVALID_POINTER);
            ensure!(out as usize <= 1, "result written");
        }
        "liq_image_quantize" => {
            want!(liq_image_quantize(x, y, &mut out), INVALID_POINTER);
            ensure!(out as usize <= 1, "result written");
        }
        "liq_quantize_image" => want!(liq_quantize_image(x, y).is_null(), true),
        "liq_set_dithering_level" => want!(liq_set_dithering_level(x, 0.25), INVALID_POINTER),
        "liq_set_output_gamma" => want!(liq_set_output_gamma(x, 0.25), INVALID_POINTER),
        "liq_get_output_gamma" => want!(liq_get_output_gamma(x), -1.),
        "liq_get_palette" => want!(liq_get_palette(x).is_null(), true),
        "liq_write_remapped_image" => want!(liq_write_remapped_image(x, y, buf.as_mut_ptr().cast(), n), INVALID_POINTER),
        "liq_write_remapped_image_rows" => {
            let mut rows: Vec<*mut u8> = (0..im.h as usize).map(|r| buf.as_mut_ptr().add(r * im.w as usize)).collect();
            want!(liq_write_remapped_image_rows(x, y, rows.as_mut_ptr()), INVALID_POINTER)
        }
        "liq_get_quantization_error" => want!(liq_get_quantization_error(x), -1.),
        "liq_get_quantization_quality" => want!(liq_get_quantization_quality(x), -1),
        "liq_get_remapping_error" => want!(liq_get_remapping_error(x), -1.),
        "liq_get_remapping_quality" => want!(liq_get_remapping_quality(x), -1),
        "background NULL" => want!(liq_image_set_background(hs[I], null_mut()), INVALID_POINTER),
        "destroy NULL" => {
            liq_attr_destroy(null_mut());
            liq_image_destroy(null_mut());
            liq_result_destroy(null_mut());
            liq_histogram_destroy(null_mut());
        }
        "NULL buffers" => {
            let (w, hh) = (im.w as c_int, im.h as c_int);
            want!(liq_image_create_rgba(hs[A], null(), w, hh, 0.).is_null(), true);
            want!(liq_image_create_rgba_rows(hs[A], null(), w, hh, 0.).is_null(), true);
            let mut rows: Vec<*mut c_void> = vec![buf.as_mut_ptr().cast(); im.h as usize];
            rows[p.bad as usize % im.h as usize] = null_mut();
            want!(liq_image_create_rgba_rows(hs[A], rows.as_ptr(), w, hh, 0.).is_null(), true);
            want!(liq_write_remapped_image(hs[RS], hs[I], null_mut(), n), INVALID_POINTER);
            want!(liq_write_remapped_image_rows(hs[RS], hs[I], null_mut()), INVALID_POINTER);
            want!(liq_write_remapped_image_rows(hs[RS], hs[I], rows.as_mut_ptr().cast()), INVALID_POINTER);
            want!(liq_image_set_importance_map(hs[I], null_mut(), n, COPY_PIXELS), INVALID_POINTER);
            want!(liq_image_set_importance_map(hs[I], buf.as_mut_ptr(), 0, COPY_PIXELS), INVALID_POINTER);
            want!(liq_histogram_add_colors(hs[H], hs[A], null(), 3, 0.), INVALID_POINTER);
            want!(liq_histogram_add_colors(hs[H], hs[A], null(), 0, 0.), OK);
            want!(liq_histogram_add_colors(hs[H], hs[A], null(), -1, 0.), VALUE_OUT_OF_RANGE);
        }
        "NULL callbacks" => {
            liq_set_log_callback(hs[A], None, null_mut());
            liq_set_log_flush_callback(hs[A], None, null_mut());
            liq_attr_set_progress_callback(hs[A], None, null_mut());
            liq_result_set_progress_callback(hs[RS], None, null_mut());
        }
        _ => unreachable!(),
    }
    ensure!(buf.iter().all(|&b| b == 0x5A), "{name} with a bad handle wrote to the buffer");
    Ok(())
}

/// what libimagequant.h says about layouts and error codes
#[cfg(feature = "header")]
fn header() -> R {
    use imagequant::Error::*;
    let e = |e: imagequant::Error| e as i64;
    let want = [(0, 4), (1, 0), (2, 1), (3, 2), (4, 3), (5, 256), (10, 0), (11, e(QualityTooLow)), (12, e(ValueOutOfRange)), (13, e(OutOfMemory)), (14, e(Aborted)),
        (15, e(InternalError)), (16, e(BufferTooSmall)), (17, e(InvalidPointer)), (18, e(Unsupported))];
    for (k, v) in want {
        let got = unsafe { h_layout(k) } as i64;
        ensure!(got == v, "libimagequant.h: value {k} of h_layout() is {got}, the library's is {v}");
    }
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "operation sequences executed in lockstep through both APIs, comparing every code, palette, index and number; calls with a NULL or wrong-type handle in each position followed by a full job with the untouched objects; non-trivial: a remap with 3 or more colors was compared, or at least one bad handle was passed";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let bad = o.mode.starts_with("bad");
        let null_ok = o.mode == "badnull";
        if bad {
            let d = (1u32..=9, 1u32..=9).boxed();
            return (img_of(d), plain_settings(), dither(), prop::collection::vec((any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(f, pos, bad)| Poke { f, pos, bad }), 1..12))
                .prop_map(move |(img, set, dither, pokes)| Case::Bad { img, set, dither, pokes, null_ok })
                .boxed();
        }
        if o.mode == "long" {
            let (d, _) = mode_dims("long");
            let many = (any::<u32>(), prop_oneof![1u32..70000, 65530u32..65545, 131070u32..131080]).prop_map(|(s, n)| Op::HMany(s, n));
            let op = prop_oneof![
                2 => many,
                2 => (img_of(d), any::<u8>()).prop_map(|(img, kind)| Op::Img { img, kind, gamma: 0. }),
                1 => (any::<u8>(), any::<u32>(), any::<bool>()).prop_map(|(i, s, z)| Op::Imp(i, s, z)),
                1 => any::<u8>().prop_map(Op::HImg),
                2 => Just(Op::HQuantize),
                1 => any::<u8>().prop_map(Op::Quantize),
                1 => dither().prop_map(Op::Dither),
                3 => (any::<u8>(), any::<bool>(), any::<u8>()).prop_map(|(i, rows, slack)| Op::Remap { i, rows, slack }),
            ];
            return prop::collection::vec(op, 2..7)
                .prop_map(|v| {
                    let mut ops = vec![Op::Speed(8), Op::MaxColors(24), Op::HNew];
                    ops.extend(v);
                    Case::Lock { ops }
                })
                .boxed();
        }
        let int = prop_oneof![6 => -3i32..=260, 1 => any::<i32>()];
        let q = prop_oneof![6 => 0i32..=101, 1 => any::<i32>()];
        let gam = prop_oneof![3 => Just(0f64), 3 => (1u32..=999).prop_map(|x| x as f64 / 1000.), 1 => prop_oneof![Just(1.0), Just(-0.1), Just(2.0), Just(f64::NAN), Just(f64::INFINITY)]];
        // JSON has no NaN
        let gam = gam.prop_map(|g| if g.is_nan() || g.is_infinite() { 7.5 } else { g }).boxed();
        let op = prop_oneof![
            2 => prop_oneof![4 => 1i32..=10, 1 => any::<i32>()].prop_map(Op::Speed),
            2 => int.prop_map(Op::MaxColors),
            2 => (q.clone(), q).prop_map(|(a, b)| Op::Quality(a, b)),
            1 => prop_oneof![4 => 0i32..=5, 1 => any::<i32>()].prop_map(Op::Posterize),
            1 => any::<i32>().prop_map(Op::LastTransparent),
            1 => Just(Op::AttrCopy),
            5 => (small_img(), any::<u8>(), gam.clone()).prop_map(|(img, kind, gamma)| Op::Img { img, kind, gamma }),
            2 => (any::<u8>(), color()).prop_map(|(i, c)| Op::Fixed(i, c)),
            1 => (any::<u8>(), any::<u32>(), any::<bool>()).prop_map(|(i, s, z)| Op::Imp(i, s, z)),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(i, b)| Op::Bg(i, b)),
            5 => any::<u8>().prop_map(Op::Quantize),
            1 => Just(Op::HNew),
            2 => any::<u8>().prop_map(Op::HImg),
            1 => (colors(0..30), prop_oneof![0u32..500, any::<u32>()], gam.clone()).prop_map(|(c, n, g)| Op::HCols(c, n, g)),
            1 => (color(), gam.clone()).prop_map(|(c, g)| Op::HFixed(c, g)),
            2 => Just(Op::HQuantize),
            2 => prop_oneof![4 => dither(), 1 => prop_oneof![Just(-0.1f32), Just(1.1), Just(1e9)]].prop_map(Op::Dither),
            1 => gam.prop_map(Op::OutGamma),
            2 => Just(Op::Palette),
            5 => (any::<u8>(), any::<bool>(), any::<u8>()).prop_map(|(i, rows, slack)| Op::Remap { i, rows, slack }),
            1 => any::<u8>().prop_map(Op::Short),
        ];
        // half of the histories start with something to remap
        let start = (small_img(), any::<u8>()).prop_map(|(img, kind)| vec![Op::Img { img, kind, gamma: 0. }, Op::Quantize(0)]);
        (prop_oneof![Just(vec![]), start], prop::collection::vec(op, 1..20)).prop_map(|(mut ops, v)| { ops.extend(v); Case::Lock { ops } }).boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        #[cfg(feature = "header")]
        header()?;
        match c {
            Case::Lock { ops } => unsafe {
                let mut l = Lock { ra: Attributes::new(), ca: CAttr(liq_attr_create()), imgs: vec![], rh: None, res: None, keep: vec![], rows: vec![] };
                l.getters()?;
                for (k, op) in ops.iter().enumerate() {
                    l.step(op, st).map_err(|e| format!("step {k} {op:?}: {e}"))?;
                }
                Ok(())
            },
            Case::Bad { img, set, dither, pokes, null_ok } => unsafe {
                let a = c_attr(set);
                let px_ = img.pixels();
                let mk = || CImage(liq_image_create_rgba(a.0, px_.as_ptr().cast(), img.w as c_int, img.h as c_int, 0.));
                let im = mk();
                let mut r = null_mut();
                let first = mk();
                ensure!(liq_image_quantize(first.0, a.0, &mut r) == OK, "quantize failed");
                let r = CResult(r);
                let h = CHist(liq_histogram_create(a.0));
                ensure!(liq_histogram_add_image(h.0, a.0, im.0) == OK, "add_image failed");
                for (k, p) in pokes.iter().enumerate() {
                    poke(p, [a.0, im.0, r.0, h.0], *null_ok, img, st).map_err(|e| format!("call {k}: {e}"))?;
                }
                st.nontrivial(true);
                // everything still works as if nothing had happened
                let ra = set.attr();
                let mut ri = new_image(&ra, img, 0.);
                let mut rh = Histogram::new(&ra);
                rh.add_image(&ra, &mut ri).map_err(e2s)?;
                let mut rr = ra.quantize(&mut new_image(&ra, img, 0.)).map_err(e2s)?;
                rr.set_dithering_level(*dither).map_err(e2s)?;
                ensure!(liq_set_dithering_level(r.0, *dither) == OK, "valid result refused");
                let mut hr = null_mut();
                ensure!(liq_histogram_quantize(h.0, a.0, &mut hr) == OK, "histogram refused");
                let hr = CResult(hr);
                let hp: Vec<Px> = rh.quantize(&ra).map_err(e2s)?.palette_vec().into_iter().map(px).collect();
                ensure!(pal_px(hr.0) == hp, "histogram changed by calls with bad handles: {:?}, expected {hp:?}", pal_px(hr.0));
                let (p, idx) = rr.remapped(&mut ri).map_err(e2s)?;
                let mut buf = vec![0u8; img.n()];
                ensure!(liq_write_remapped_image(r.0, im.0, buf.as_mut_ptr().cast(), buf.len()) == OK, "remap refused");
                let p: Vec<Px> = p.into_iter().map(px).collect();
                ensure!(buf == idx && pal_px(r.0) == p, "remap changed by calls with bad handles");
                let y = (liq_get_speed(a.0), liq_get_max_colors(a.0), liq_get_min_posterization(a.0), liq_get_min_quality(a.0), liq_get_max_quality(a.0), liq_image_get_width(im.0), liq_image_get_height(im.0));
                let x = (ra.speed() as c_int, ra.max_colors() as c_int, ra.min_posterization() as c_int, ra.quality().0 as c_int, ra.quality().1 as c_int, img.w as c_int, img.h as c_int);
                ensure!(x == y, "settings changed by calls with bad handles: {y:?}, expected {x:?}");
                Ok(())
            },
        }
    }
}
