//! Robustness: generated histories of Rust and C calls with extreme arguments (run also under ASan and MSan).
use crate::capi::*;
use crate::common::*;
use imagequant::{Attributes, ControlFlow, Histogram, HistogramEntry, Image, QuantizationResult, RGBA};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::mem::MaybeUninit;
use std::os::raw::{c_char, c_int, c_void};
use std::ptr::null_mut;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::Arc;

/// floating-point arguments as bits (JSON knows no NaN)
type F = u64;
fn f(x: &F) -> f64 {
    f64::from_bits(*x)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Attr,
    AttrClone(u8),
    Speed(u8, i32),
    MaxColors(u8, u32),
    Quality(u8, i32, i32),
    Posterize(u8, i32),
    LastTransparent(u8, bool),
    Log(u8, bool),
    Abort(u8, i64),
    /// kind: owned, borrowed, stride, callback, ...; slack: difference between the length given and needed
    Img { a: u8, img: Img, kind: u8, slack: i8, gamma: F },
    /// dimensions only, never processed
    Dims { a: u8, w: u64, h: u64, kind: u8, gamma: F },
    ImgClone(u8),
    Fixed { i: u8, c: Px, n: u16 },
    Imp { i: u8, seed: u32, style: u8, slack: i8 },
    Bg { i: u8, b: u8 },
    Quant { i: u8, a: u8 },
    Hist(u8),
    HImg { h: u8, a: u8, i: u8 },
    HCols { h: u8, colors: Vec<Px>, count: u32, gamma: F },
    HFixed { h: u8, c: Px, n: u16, gamma: F },
    HQuant { h: u8, a: u8 },
    ResClone(u8),
    Dither(u8, F),
    OutGamma(u8, F),
    Get(u8),
    ResAbort(u8, i64),
    Remap { r: u8, i: u8, how: u8, slack: i8 },
    Drop { what: u8, k: u8 },
    /// the documented-as-redundant preparation call, with any size of buffer
    Prepare { r: u8, i: u8, slack: i8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
    capi: bool,
}
pub struct P;

struct St<'s> {
    st: &'s mut Stats,
    ok: [u32; 4],
}

fn len_with(n: usize, slack: i8) -> usize {
    // mostly the exact length
    if slack.unsigned_abs() > 100 { n } else if slack < -50 { n / 2 } else { (n as i64 + (slack as i64 / 10)).max(0) as usize }
}
fn imp_map(n: usize, seed: u32, style: u8) -> Vec<u8> {
    let mut r = Sm::new(seed as u64);
    match style % 4 {
        0 => vec![0; n],
        1 => vec![255; n],
        2 => (0..n).map(|_| r.below(256) as u8).collect(),
        _ => (0..n).map(|_| if r.below(20) == 0 { r.below(256) as u8 } else { 0 }).collect(),
    }
}
fn counter(k: i64) -> Arc<AtomicI64> {
    Arc::new(AtomicI64::new(k))
}

// ------------------------------------------------------------------ Rust
struct RImg {
    im: Image<'static>,
    real: bool,
}
#[derive(Default)]
struct RWorld {
    attrs: Vec<Attributes>,
    imgs: Vec<RImg>,
    hists: Vec<Histogram>,
    res: Vec<QuantizationResult>,
    leaked: Vec<*mut [RGBA]>,
}
impl Drop for RWorld {
    fn drop(&mut self) {
        self.imgs.clear();
        for p in self.leaked.drain(..) {
            drop(unsafe { Box::from_raw(p) });
        }
    }
}

impl RWorld {
    fn op(&mut self, op: &Op, s: &mut St) -> R {
        macro_rules! pick {
            ($v:ident, $i:expr) => {{
                if self.$v.is_empty() { return Ok(()); }
                *$i as usize % self.$v.len()
            }};
        }
        macro_rules! at {
            ($v:ident, $i:expr) => {{
                let k = pick!($v, $i);
                &mut self.$v[k]
            }};
        }
        match op {
            Op::Attr => self.attrs.push(Attributes::new()),
            Op::AttrClone(a) => {
                let a = at!(attrs, a).clone();
                self.attrs.push(a);
            }
            Op::Speed(a, v) => drop(at!(attrs, a).set_speed(*v)),
            Op::MaxColors(a, v) => drop(at!(attrs, a).set_max_colors(*v)),
            Op::Quality(a, x, y) => drop(at!(attrs, a).set_quality(*x as u8, *y as u8)),
            Op::Posterize(a, v) => drop(at!(attrs, a).set_min_posterization(*v as u8)),
            Op::LastTransparent(a, v) => at!(attrs, a).set_last_index_transparent(*v),
            Op::Log(a, fl) => {
                let a = at!(attrs, a);
                a.set_log_callback(|_, m| assert!(!m.is_empty()));
                if *fl { a.set_log_flush_callback(|_| ()); }
            }
            Op::Abort(a, k) => {
                let c = counter(*k);
                at!(attrs, a).set_progress_callback(move |_| if c.fetch_sub(1, SeqCst) == 0 { ControlFlow::Break } else { ControlFlow::Continue });
            }
            Op::Img { a, img, kind, slack, gamma } => {
                let a = at!(attrs, a);
                let (w, h) = (img.w as usize, img.h as usize);
                let mut p = img.pixels();
                let r = match kind % 6 {
                    0 => { p.resize(len_with(w * h, *slack), RGBA::new(1, 2, 3, 4)); Image::new(a, p, w, h, f(gamma)) }
                    1 | 2 => {
                        p.resize(len_with(w * h, *slack), RGBA::new(1, 2, 3, 4));
                        let b = Box::into_raw(p.into_boxed_slice());
                        self.leaked.push(b);
                        let b: &'static [RGBA] = unsafe { &*b };
                        if kind % 6 == 1 { Image::new_borrowed(a, b, w, h, f(gamma)) } else { Image::new_stride_borrowed(a, b, (w / 2).max(1), h, w, f(gamma)) }
                    }
                    3 => {
                        let stride = w + (*slack as i64).unsigned_abs() as usize % 5;
                        p.resize(len_with(stride * (h - 1) + w, *slack), RGBA::new(9, 9, 9, 200));
                        Image::new_stride(a, p, w, h, stride, f(gamma))
                    }
                    4 => { p.truncate(len_with(w * h, *slack)); a.new_image_stride_copy(&p, w, h, w, f(gamma)) }
                    _ => unsafe { Image::new_fn(a, move |o: &mut [MaybeUninit<RGBA>], y| { for (o, p) in o.iter_mut().zip(&p[y * w..]) { o.write(*p); } }, w, h, f(gamma)) },
                };
                if let Ok(im) = r {
                    ensure!(im.height() == h && (im.width() == w || kind % 6 == 2), "dimensions of a new image");
                    self.imgs.push(RImg { im, real: true });
                }
            }
            Op::Dims { a, w, h, kind, gamma } => {
                let a = at!(attrs, a);
                let (w, h) = (*w as usize, *h as usize);
                let r = match kind % 4 {
                    0 => unsafe { Image::new_fn(a, |_: &mut [MaybeUninit<RGBA>], _| panic!("row requested"), w, h, f(gamma)) },
                    1 => Image::new(a, vec![RGBA::new(0, 0, 0, 0); 3], w, h, f(gamma)),
                    2 => Image::new_stride(a, vec![RGBA::new(0, 0, 0, 0); 3], w, 1, h, f(gamma)),
                    _ => Image::new_stride(a, vec![RGBA::new(0, 0, 0, 0); 3], 1, h, w, f(gamma)),
                };
                if let Ok(im) = r { self.imgs.push(RImg { im, real: kind % 4 != 0 }); }
            }
            Op::ImgClone(i) => {
                let i = at!(imgs, i);
                if i.real {
                    let im = i.im.clone();
                    self.imgs.push(RImg { im, real: true });
                }
            }
            Op::Fixed { i, c, n } => {
                let i = &mut at!(imgs, i).im;
                for k in 0..*n { let _ = i.add_fixed_color(RGBA::new(c[0].wrapping_add(k as u8), c[1], c[2].wrapping_sub((k / 256) as u8), c[3])); }
            }
            Op::Imp { i, seed, style, slack } => {
                let i = at!(imgs, i);
                if i.real { let _ = i.im.set_importance_map(imp_map(len_with(i.im.width() * i.im.height(), *slack), *seed, *style)); }
            }
            Op::Bg { i, b } => {
                let (i, b) = (pick!(imgs, i), pick!(imgs, b));
                if i != b && self.imgs[b].real == self.imgs[i].real {
                    let bg = self.imgs.remove(b);
                    let i = if b < i { i - 1 } else { i };
                    let _ = self.imgs[i].im.set_background(bg.im);
                }
            }
            Op::Quant { i, a } => {
                let (i, a) = (pick!(imgs, i), pick!(attrs, a));
                if !self.imgs[i].real { return Ok(()); }
                if let Ok(r) = self.attrs[a].quantize(&mut self.imgs[i].im) { self.res.push(r); s.ok[0] += 1; }
            }
            Op::Hist(a) => {
                let h = Histogram::new(at!(attrs, a));
                self.hists.push(h);
            }
            Op::HImg { h, a, i } => {
                let (h, a, i) = (pick!(hists, h), pick!(attrs, a), pick!(imgs, i));
                if self.imgs[i].real { let _ = self.hists[h].add_image(&self.attrs[a], &mut self.imgs[i].im); }
            }
            Op::HCols { h, colors, count, gamma } => {
                let e: Vec<_> = colors.iter().enumerate().map(|(k, &c)| HistogramEntry { color: rgba(c), count: count.wrapping_mul(1 + k as u32 % 3) }).collect();
                let _ = at!(hists, h).add_colors(&e, f(gamma));
            }
            Op::HFixed { h, c, n, gamma } => {
                let h = at!(hists, h);
                for k in 0..*n { let _ = h.add_fixed_color(RGBA::new(c[0].wrapping_add(k as u8), c[1], c[2].wrapping_sub((k / 256) as u8), c[3]), f(gamma)); }
            }
            Op::HQuant { h, a } => {
                let (h, a) = (pick!(hists, h), pick!(attrs, a));
                if let Ok(r) = self.hists[h].quantize(&self.attrs[a]) { self.res.push(r); s.ok[1] += 1; }
            }
            Op::ResClone(r) => {
                let r = at!(res, r).clone();
                self.res.push(r);
            }
            Op::Dither(r, d) => drop(at!(res, r).set_dithering_level(f(d) as f32)),
            Op::OutGamma(r, g) => drop(at!(res, r).set_output_gamma(f(g))),
            Op::Get(r) => {
                let r = at!(res, r);
                let n = r.palette_len();
                ensure!(r.palette().len() == n && r.palette_vec().len() == n && n >= 1, "palette length {n}");
                let _ = (r.quantization_error(), r.quantization_quality(), r.remapping_error(), r.remapping_quality(), r.output_gamma());
                let _ = format!("{:?}", self.attrs.len());
            }
            Op::ResAbort(r, k) => {
                let c = counter(*k);
                at!(res, r).set_progress_callback(move |_| if c.fetch_sub(1, SeqCst) == 0 { ControlFlow::Break } else { ControlFlow::Continue });
            }
            Op::Prepare { r, i, slack } => {
                let (r, i) = (pick!(res, r), pick!(imgs, i));
                if !self.imgs[i].real { return Ok(()); }
                let (r, i) = (&mut self.res[r], &mut self.imgs[i].im);
                let mut b: Box<[MaybeUninit<u8>]> = vec![MaybeUninit::uninit(); len_with(i.width() * i.height(), *slack)].into_boxed_slice();
                let _ = r.optionally_prepare_for_dithering_with_background_set(i, &mut b);
            }
            Op::Remap { r, i, how, slack } => {
                let (r, i) = (pick!(res, r), pick!(imgs, i));
                if !self.imgs[i].real { return Ok(()); }
                let (r, i) = (&mut self.res[r], &mut self.imgs[i].im);
                let n = i.width() * i.height();
                let out = match how % 3 {
                    0 => r.remapped(i).ok(),
                    1 => {
                        let len = len_with(n, *slack);
                        let mut b: Box<[MaybeUninit<u8>]> = vec![MaybeUninit::uninit(); len].into_boxed_slice();
                        match r.remap_into(i, &mut b) {
                            Ok(()) => {
                                ensure!(len >= n, "remap_into accepted {len} bytes for {n} pixels");
                                Some((r.palette_vec(), b[..n].iter().map(|x| unsafe { x.assume_init() }).collect()))
                            }
                            Err(_) => None,
                        }
                    }
                    _ => {
                        let mut v = vec![7u8; len_with(n, *slack)];
                        match r.remap_into_vec(i, &mut v) {
                            Ok(p) => Some((p, v)),
                            Err(_) => {
                                // whatever is left in it must have been written by someone
                                ensure!(v.iter().map(|&x| x as usize).sum::<usize>() <= v.len() * 255, "contents after an error");
                                None
                            }
                        }
                    }
                };
                if let Some((p, v)) = out {
                    check_indices(&p, &v, n, 256)?;
                    s.ok[2] += 1;
                }
            }
            Op::Drop { what, k } => match what % 4 {
                0 => { let k = pick!(attrs, k); drop(self.attrs.swap_remove(k)) },
                1 => { let k = pick!(imgs, k); drop(self.imgs.swap_remove(k)) },
                2 => { let k = pick!(hists, k); drop(self.hists.swap_remove(k)) },
                _ => { let k = pick!(res, k); drop(self.res.swap_remove(k)) },
            },
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C
struct CI {
    h: CImage,
    real: bool,
    n: usize,
    w: usize,
}
#[derive(Default)]
struct CWorld {
    res: Vec<CResult>,
    hists: Vec<CHist>,
    imgs: Vec<CI>,
    attrs: Vec<CAttr>,
    px: Vec<Box<(Vec<RGBA>, usize)>>,
    rows: Vec<Vec<*mut c_void>>,
    ctr: Vec<Box<AtomicI64>>,
}
unsafe extern "C" fn row(out: *mut color, y: c_int, w: c_int, u: *mut c_void) {
    let d = &*(u as *const (Vec<RGBA>, usize));
    for x in 0..w as usize {
        *out.add(x) = ccolor(px(d.0[y as usize * d.1 + x]));
    }
}
unsafe extern "C" fn no_row(_: *mut color, _: c_int, _: c_int, _: *mut c_void) {
    std::process::abort()
}
unsafe extern "C" fn prog(_: f32, u: *mut c_void) -> c_int {
    ((*(u as *const AtomicI64)).fetch_sub(1, SeqCst) != 0) as c_int
}
unsafe extern "C" fn log(_: *const attr, m: *const c_char, _: *mut c_void) {
    assert!(std::ffi::CStr::from_ptr(m).to_bytes().len() < 1_000_000);
}
unsafe extern "C" fn flush(_: *const attr, _: *mut c_void) {}

impl CWorld {
    unsafe fn op(&mut self, op: &Op, s: &mut St) -> R {
        macro_rules! pick {
            ($v:ident, $i:expr) => {{
                if self.$v.is_empty() { return Ok(()); }
                *$i as usize % self.$v.len()
            }};
        }
        macro_rules! at {
            ($v:ident, $i:expr) => {{
                let k = pick!($v, $i);
                &mut self.$v[k]
            }};
        }
        match op {
            Op::Attr => self.attrs.push(CAttr(liq_attr_create())),
            Op::AttrClone(a) => {
                let h = CAttr(liq_attr_copy(at!(attrs, a).0));
                self.attrs.push(h);
            }
            Op::Speed(a, v) => drop(liq_set_speed(at!(attrs, a).0, *v)),
            Op::MaxColors(a, v) => drop(liq_set_max_colors(at!(attrs, a).0, *v as c_int)),
            Op::Quality(a, x, y) => drop(liq_set_quality(at!(attrs, a).0, *x, *y)),
            Op::Posterize(a, v) => {
                liq_set_min_posterization(at!(attrs, a).0, *v);
                liq_set_min_opacity(at!(attrs, a).0, *v);
            }
            Op::LastTransparent(a, v) => liq_set_last_index_transparent(at!(attrs, a).0, *v as c_int),
            Op::Log(a, fl) => {
                let a = at!(attrs, a).0;
                liq_set_log_callback(a, if *fl { Some(log) } else { None }, null_mut());
                liq_set_log_flush_callback(a, if *fl { Some(flush) } else { None }, null_mut());
            }
            Op::Abort(a, k) => {
                let a = at!(attrs, a).0;
                self.ctr.push(Box::new(AtomicI64::new(*k)));
                let u = &**self.ctr.last().unwrap() as *const AtomicI64 as *mut c_void;
                liq_attr_set_progress_callback(a, if *k % 3 == 2 { None } else { Some(prog) }, u);
            }
            Op::Img { a, img, kind, gamma, .. } => {
                let a = at!(attrs, a).0;
                let (w, h) = (img.w as usize, img.h as usize);
                self.px.push(Box::new((img.pixels(), w)));
                let d: *const (Vec<RGBA>, usize) = &**self.px.last().unwrap();
                let p = (*d).0.as_ptr();
                let i = match kind % 3 {
                    0 => liq_image_create_rgba(a, p.cast(), w as c_int, h as c_int, f(gamma)),
                    1 => {
                        self.rows.push((0..h).rev().map(|y| p.add(y * w) as *mut c_void).collect());
                        liq_image_create_rgba_rows(a, self.rows.last().unwrap().as_ptr(), w as c_int, h as c_int, f(gamma))
                    }
                    _ => liq_image_create_custom(a, row, d as *mut c_void, w as c_int, h as c_int, f(gamma)),
                };
                if !i.is_null() { self.imgs.push(CI { h: CImage(i), real: true, n: w * h, w }); }
            }
            Op::Dims { a, w, h, gamma, .. } => {
                let a = at!(attrs, a).0;
                // only with a callback, because the bitmap functions cannot know how much memory is there
                let i = liq_image_create_custom(a, no_row, null_mut(), *w as c_int, *h as c_int, f(gamma));
                if !i.is_null() { self.imgs.push(CI { h: CImage(i), real: false, n: 0, w: *w as usize }); }
            }
            Op::ImgClone(_) => {}
            Op::Fixed { i, c, n } => {
                let i = at!(imgs, i).h.0;
                for k in 0..*n { liq_image_add_fixed_color(i, ccolor([c[0].wrapping_add(k as u8), c[1], c[2].wrapping_sub((k / 256) as u8), c[3]])); }
            }
            Op::Imp { i, seed, style, slack } => {
                let i = at!(imgs, i);
                if i.real {
                    let len = len_with(i.n, *slack);
                    let mut m = imp_map(len.max(1), *seed, *style);
                    liq_image_set_importance_map(i.h.0, m.as_mut_ptr(), len, COPY_PIXELS);
                }
            }
            Op::Bg { i, b } => {
                let (i, b) = (pick!(imgs, i), pick!(imgs, b));
                if i != b && self.imgs[b].real == self.imgs[i].real {
                    let mut bg = self.imgs.remove(b);
                    let i = if b < i { i - 1 } else { i };
                    liq_image_set_background(self.imgs[i].h.0, bg.h.0);
                    bg.h.0 = null_mut(); // consumed
                }
            }
            Op::Quant { i, a } => {
                let (i, a) = (pick!(imgs, i), pick!(attrs, a));
                if !self.imgs[i].real { return Ok(()); }
                let mut r = null_mut();
                liq_image_quantize(self.imgs[i].h.0, self.attrs[a].0, &mut r);
                if !r.is_null() { self.res.push(CResult(r)); s.ok[0] += 1; }
            }
            Op::Hist(a) => {
                let h = CHist(liq_histogram_create(at!(attrs, a).0));
                self.hists.push(h);
            }
            Op::HImg { h, a, i } => {
                let (h, a, i) = (pick!(hists, h), pick!(attrs, a), pick!(imgs, i));
                if self.imgs[i].real { liq_histogram_add_image(self.hists[h].0, self.attrs[a].0, self.imgs[i].h.0); }
            }
            Op::HCols { h, colors, count, gamma } => {
                let (h, a) = (pick!(hists, h), pick!(attrs, h));
                let mut e: Vec<_> = colors.iter().enumerate().map(|(k, &c)| hist_entry { color: ccolor(c), count: count.wrapping_mul(1 + k as u32 % 3) }).collect();
                let n = e.len();
                e.push(hist_entry { color: ccolor([1, 2, 3, 4]), count: 1 });
                liq_histogram_add_colors(self.hists[h].0, self.attrs[a].0, e.as_ptr(), n as c_int, f(gamma));
            }
            Op::HFixed { h, c, n, gamma } => {
                let h = at!(hists, h).0;
                for k in 0..*n { liq_histogram_add_fixed_color(h, ccolor([c[0].wrapping_add(k as u8), c[1], c[2].wrapping_sub((k / 256) as u8), c[3]]), f(gamma)); }
            }
            Op::HQuant { h, a } => {
                let (h, a) = (pick!(hists, h), pick!(attrs, a));
                let mut r = null_mut();
                liq_histogram_quantize(self.hists[h].0, self.attrs[a].0, &mut r);
                if !r.is_null() { self.res.push(CResult(r)); s.ok[1] += 1; }
            }
            Op::ResClone(_) => {}
            Op::Dither(r, d) => drop(liq_set_dithering_level(at!(res, r).0, f(d) as f32)),
            Op::OutGamma(r, g) => drop(liq_set_output_gamma(at!(res, r).0, f(g))),
            Op::Get(r) => {
                let r = at!(res, r).0;
                let n = pal_px(r).len();
                ensure!((1..=256).contains(&n), "palette length {n}");
                let _ = (liq_get_quantization_error(r), liq_get_quantization_quality(r), liq_get_remapping_error(r), liq_get_remapping_quality(r), liq_get_output_gamma(r));
            }
            Op::ResAbort(r, k) => {
                let r = at!(res, r).0;
                self.ctr.push(Box::new(AtomicI64::new(*k)));
                let u = &**self.ctr.last().unwrap() as *const AtomicI64 as *mut c_void;
                liq_result_set_progress_callback(r, if *k % 3 == 2 { None } else { Some(prog) }, u);
            }
            Op::Prepare { .. } => {}
            Op::Remap { r, i, how, slack } => {
                let (r, i) = (pick!(res, r), pick!(imgs, i));
                let i = &self.imgs[i];
                if !i.real { return Ok(()); }
                let r = self.res[r].0;
                let rc;
                let mut v;
                if how % 2 == 0 {
                    let len = len_with(i.n, *slack);
                    // (at least one readable byte: the library probes pointers)
                    v = vec![7u8; len.max(1)].into_boxed_slice();
                    rc = liq_write_remapped_image(r, i.h.0, v.as_mut_ptr().cast(), len);
                    ensure!(rc != OK || len >= i.n, "{len} bytes accepted for {} pixels", i.n);
                } else {
                    v = vec![7u8; i.n].into_boxed_slice();
                    let mut rows: Vec<*mut u8> = (0..i.n / i.w).map(|y| v.as_mut_ptr().add(y * i.w)).collect();
                    rc = liq_write_remapped_image_rows(r, i.h.0, rows.as_mut_ptr());
                }
                if rc == OK {
                    let p: Vec<RGBA> = pal_px(r).into_iter().map(rgba).collect();
                    check_indices(&p, &v[..i.n], i.n, 256)?;
                    s.ok[2] += 1;
                }
            }
            Op::Drop { what, k } => match what % 4 {
                0 => { let k = pick!(attrs, k); drop(self.attrs.swap_remove(k)) },
                1 => { let k = pick!(imgs, k); drop(self.imgs.swap_remove(k)) },
                2 => { let k = pick!(hists, k); drop(self.hists.swap_remove(k)) },
                _ => { let k = pick!(res, k); drop(self.res.swap_remove(k)) },
            },
        }
        Ok(())
    }
}

fn xgamma() -> BoxedStrategy<F> {
    prop_oneof![
        6 => gamma().prop_map(f64::to_bits),
        2 => (1u32..=100).prop_map(|x| (x as f64 / 10000.).to_bits()),
        1 => prop_oneof![Just(1e-300f64), Just(5e-324), Just(1e-30), Just(1e-9), Just(0.999999), Just(-0.0), Just(1.0), Just(f64::MIN_POSITIVE)].prop_map(f64::to_bits),
        1 => prop_oneof![Just(f64::NAN), Just(f64::INFINITY), Just(-1.0), Just(2.0), Just(f64::MAX)].prop_map(f64::to_bits),
    ]
    .boxed()
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "histories of up to 30 calls (Rust or C) with extreme arguments over pools of attributes, images, histograms and results; non-trivial: at least one successful quantization and one successful remap";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let slow = o.mode == "msan" || o.mode == "asan";
        let u = || any::<u8>();
        let int = || prop_oneof![6 => -3i32..=260, 1 => any::<i32>(), 1 => prop_oneof![Just(i32::MIN), Just(i32::MAX), Just(65536 + 5)]];
        let q = || prop_oneof![8 => 0i32..=101, 1 => any::<i32>()];
        let dims = || prop_oneof![Just(0u64), Just(1), Just(3), Just(1 << 16), Just((1 << 31) - 1), Just(1 << 31), Just(u32::MAX as u64), Just(1 << 32), Just((1 << 32) + 1), Just(1 << 62), Just(u64::MAX), any::<u64>()];
        let img = if slow { img_of(prop_oneof![6 => (1u32..=16, 1u32..=16), 1 => (1u32..=3, 129u32..=260), 1 => (60u32..=260, 1u32..=3)].boxed()) } else { small_img() };
        let n = || prop_oneof![8 => 1u16..4, 1 => 1u16..300, 1 => Just(256u16), 1 => Just(257u16)];
        let k = || prop_oneof![3 => 0i64..30, 1 => Just(-1i64)];
        let lvl = prop_oneof![6 => dither().prop_map(|d| (d as f64).to_bits()), 1 => xgamma()];
        let op = prop_oneof![
            1 => Just(Op::Attr),
            1 => u().prop_map(Op::AttrClone),
            2 => (u(), prop_oneof![8 => 1i32..=10, 1 => any::<i32>()]).prop_map(|(a, v)| Op::Speed(a, v)),
            2 => (u(), prop_oneof![6 => 0u32..=258, 1 => any::<u32>()]).prop_map(|(a, v)| Op::MaxColors(a, v)),
            2 => (u(), q(), q()).prop_map(|(a, x, y)| Op::Quality(a, x, y)),
            1 => (u(), prop_oneof![6 => 0i32..=5, 1 => int()]).prop_map(|(a, v)| Op::Posterize(a, v)),
            1 => (u(), any::<bool>()).prop_map(|(a, v)| Op::LastTransparent(a, v)),
            1 => (u(), any::<bool>()).prop_map(|(a, v)| Op::Log(a, v)),
            1 => (u(), k()).prop_map(|(a, v)| Op::Abort(a, v)),
            5 => (u(), img.clone(), u(), any::<i8>(), xgamma()).prop_map(|(a, img, kind, slack, gamma)| Op::Img { a, img, kind, slack, gamma }),
            1 => (u(), dims(), dims(), u(), xgamma()).prop_map(|(a, w, h, kind, gamma)| Op::Dims { a, w, h, kind, gamma }),
            1 => u().prop_map(Op::ImgClone),
            2 => (u(), color(), n()).prop_map(|(i, c, n)| Op::Fixed { i, c, n }),
            2 => (u(), any::<u32>(), u(), any::<i8>()).prop_map(|(i, seed, style, slack)| Op::Imp { i, seed, style, slack }),
            2 => (u(), u()).prop_map(|(i, b)| Op::Bg { i, b }),
            5 => (u(), u()).prop_map(|(i, a)| Op::Quant { i, a }),
            1 => u().prop_map(Op::Hist),
            2 => (u(), u(), u()).prop_map(|(h, a, i)| Op::HImg { h, a, i }),
            2 => (u(), colors(0..40), prop_oneof![Just(0u32), 1u32..500, any::<u32>(), Just(u32::MAX)], xgamma()).prop_map(|(h, colors, count, gamma)| Op::HCols { h, colors, count, gamma }),
            1 => (u(), color(), n(), xgamma()).prop_map(|(h, c, n, gamma)| Op::HFixed { h, c, n, gamma }),
            2 => (u(), u()).prop_map(|(h, a)| Op::HQuant { h, a }),
            1 => u().prop_map(Op::ResClone),
            2 => (u(), lvl).prop_map(|(r, d)| Op::Dither(r, d)),
            1 => (u(), xgamma()).prop_map(|(r, g)| Op::OutGamma(r, g)),
            2 => u().prop_map(Op::Get),
            1 => (u(), k()).prop_map(|(r, v)| Op::ResAbort(r, v)),
            6 => (u(), u(), u(), any::<i8>()).prop_map(|(r, i, how, slack)| Op::Remap { r, i, how, slack }),
            3 => (u(), u()).prop_map(|(what, k)| Op::Drop { what, k }),
            1 => (u(), u(), any::<i8>()).prop_map(|(r, i, slack)| Op::Prepare { r, i, slack }),
        ];
        let start = (img, u()).prop_map(|(img, kind)| vec![Op::Attr, Op::Img { a: 0, img, kind, slack: 127, gamma: 0 }, Op::Hist(0)]);
        (start, prop::collection::vec(op, 1..30), any::<bool>())
            .prop_map(|(mut ops, v, capi)| { ops.extend(v); Case { ops, capi } })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let mut s = St { st, ok: [0; 4] };
        if c.capi {
            let mut w = CWorld::default();
            for (k, op) in c.ops.iter().enumerate() {
                unsafe { w.op(op, &mut s) }.map_err(|e| format!("step {k} {op:?}: {e}"))?;
            }
        } else {
            let mut w = RWorld::default();
            for (k, op) in c.ops.iter().enumerate() {
                w.op(op, &mut s).map_err(|e| format!("step {k} {op:?}: {e}"))?;
            }
        }
        let ok = s.ok;
        s.st.label(if c.capi { "C" } else { "Rust" });
        for (i, l) in ["image quantized", "histogram quantized", "remapped"].iter().enumerate() {
            s.st.label_n(*l, ok[i] as u64);
        }
        s.st.nontrivial(ok[0] + ok[1] > 0 && ok[2] > 0);
        Ok(())
    }
}
