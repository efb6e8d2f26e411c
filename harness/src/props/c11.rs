//! All pixel sources describe the same image.
use crate::capi::*;
use crate::common::*;
use imagequant::{Attributes, Error, Histogram, Image, RGBA};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::mem::MaybeUninit;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Src {
    Owned,
    Borrowed,
    Stride { pad: u8, short_last: bool, owned: bool },
    Callback,
    CBitmap,
    CRows,
    CCustom,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CloneAt {
    No,
    BeforeQuantize,
    AfterQuantize,
    AfterRemap,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: Img,
    s: Settings,
    dither: f32,
    gamma: f64,
    imp: Option<u32>,
    fixed: Vec<Px>,
    bg: Option<u32>,
    srcs: Vec<(Src, CloneAt)>,
    seed: u32,
    hist: bool,
}
pub struct P;

#[derive(PartialEq, Debug)]
struct Out {
    pal: Vec<Px>,
    idx: Vec<u8>,
    qerr: Option<f64>,
    rerr: Option<f64>,
    pal2: Vec<Px>,
    idx2: Vec<u8>,
}

fn junk(r: &mut Sm) -> RGBA {
    let v = r.next();
    RGBA::new(v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8)
}

fn map(c: &Case) -> Option<Vec<u8>> {
    c.imp.map(|s| {
        let mut r = Sm::new(s as u64);
        (0..c.img.n()).map(|_| 1 + r.below(255) as u8).collect()
    })
}

/// a clone must survive the end of the original
fn only_clone<'a>(im: Image<'a>) -> Image<'a> {
    let n = im.width() * im.height();
    let cp = im.clone();
    drop(im);
    // let the allocator reuse what was freed
    let v: Vec<Vec<u8>> = (0..4).map(|i| vec![0x5Au8 + i; n * 4]).collect();
    std::hint::black_box(&v);
    cp
}

fn finish<'a>(c: &Case, attr: &Attributes, mut im: Image<'a>, bg: &'a [RGBA], clone: &CloneAt) -> Result<Result<Out, Error>, String> {
    if let Some(m) = map(c) {
        im.set_importance_map(m).map_err(e2s)?;
    }
    for &f in &c.fixed {
        im.add_fixed_color(rgba(f)).map_err(e2s)?;
    }
    if c.bg.is_some() {
        im.set_background(Image::new_borrowed(attr, bg, c.img.w as usize, c.img.h as usize, c.gamma).map_err(e2s)?).map_err(e2s)?;
    }
    if matches!(clone, CloneAt::BeforeQuantize) {
        im = only_clone(im);
    }
    ensure!(im.width() == c.img.w as usize && im.height() == c.img.h as usize, "dimensions");
    let r = if c.hist {
        let mut h = Histogram::new(attr);
        h.add_image(attr, &mut im).map_err(e2s)?;
        h.quantize(attr)
    } else {
        attr.quantize(&mut im)
    };
    let mut res = match r {
        Ok(r) => r,
        Err(e) => return Ok(Err(e)),
    };
    if matches!(clone, CloneAt::AfterQuantize) {
        im = only_clone(im);
    }
    res.set_dithering_level(c.dither).map_err(e2s)?;
    let (pal, idx) = res.remapped(&mut im).map_err(e2s)?;
    let (qerr, rerr) = (res.quantization_error(), res.remapping_error());
    if matches!(clone, CloneAt::AfterRemap) {
        im = only_clone(im);
    }
    res.set_dithering_level(0.).map_err(e2s)?;
    let (pal2, idx2) = res.remapped(&mut im).map_err(e2s)?;
    let v = |p: Vec<RGBA>| p.into_iter().map(px).collect::<Vec<_>>();
    Ok(Ok(Out { pal: v(pal), idx, qerr, rerr, pal2: v(pal2), idx2 }))
}

struct Rows {
    px: Vec<RGBA>,
    w: usize,
    h: usize,
    calls: AtomicU64,
    bad: AtomicU64,
}
unsafe extern "C" fn row_cb(out: *mut color, row: c_int, width: c_int, user: *mut c_void) {
    let r = &*(user as *const Rows);
    r.calls.fetch_add(1, SeqCst);
    if row < 0 || row as usize >= r.h || width as usize != r.w {
        r.bad.fetch_add(1, SeqCst);
        return;
    }
    for x in 0..r.w {
        *out.add(x) = ccolor(px(r.px[row as usize * r.w + x]));
    }
}

unsafe fn c_run(c: &Case, img: *mut image, bg: &[RGBA]) -> Result<Result<Out, c_int>, String> {
    let a = c_attr(&c.s);
    let im = CImage(img);
    ensure!(!im.0.is_null(), "C image not created");
    let (w, h) = (c.img.w as c_int, c.img.h as c_int);
    ensure!(liq_image_get_width(im.0) == w && liq_image_get_height(im.0) == h, "C dimensions");
    if let Some(mut m) = map(c) {
        let e = liq_image_set_importance_map(im.0, m.as_mut_ptr(), m.len(), COPY_PIXELS);
        ensure!(e == OK, "importance map: {e}");
    }
    for &f in &c.fixed {
        ensure!(liq_image_add_fixed_color(im.0, ccolor(f)) == OK, "fixed color");
    }
    if c.bg.is_some() {
        let b = liq_image_create_rgba(a.0, bg.as_ptr().cast(), w, h, c.gamma);
        ensure!(liq_image_set_background(im.0, b) == OK, "background");
    }
    let mut r = std::ptr::null_mut();
    let e = if c.hist {
        let hh = CHist(liq_histogram_create(a.0));
        ensure!(liq_histogram_add_image(hh.0, a.0, im.0) == OK, "add_image");
        liq_histogram_quantize(hh.0, a.0, &mut r)
    } else {
        liq_image_quantize(im.0, a.0, &mut r)
    };
    if e != OK {
        return Ok(Err(e));
    }
    let r = CResult(r);
    let mut go = |d: f32| -> Result<(Vec<Px>, Vec<u8>), String> {
        ensure_s(liq_set_dithering_level(r.0, d))?;
        let mut buf = vec![0xAAu8; c.img.n()];
        ensure_s(liq_write_remapped_image(r.0, im.0, buf.as_mut_ptr().cast(), buf.len()))?;
        Ok((pal_px(r.0), buf))
    };
    let (pal, idx) = go(c.dither)?;
    let neg = |v: f64| if v < 0. { None } else { Some(v) };
    let (qerr, rerr) = (neg(liq_get_quantization_error(r.0)), neg(liq_get_remapping_error(r.0)));
    let (pal2, idx2) = go(0.)?;
    Ok(Ok(Out { pal, idx, qerr, rerr, pal2, idx2 }))
}
fn ensure_s(e: c_int) -> R {
    ensure!(e == OK, "C error {e}");
    Ok(())
}

fn describe(a: &Out, b: &Out) -> String {
    if a.pal != b.pal {
        return format!("palettes differ: {:?} vs {:?}", a.pal, b.pal);
    }
    if let Some(i) = (0..a.idx.len().min(b.idx.len())).find(|&i| a.idx[i] != b.idx[i]) {
        return format!("index at {i}: {} vs {}", a.idx[i], b.idx[i]);
    }
    if a.pal2 != b.pal2 {
        return "palettes of the second remap differ".into();
    }
    if let Some(i) = (0..a.idx2.len().min(b.idx2.len())).find(|&i| a.idx2[i] != b.idx2[i]) {
        return format!("second remap, index at {i}: {} vs {}", a.idx2[i], b.idx2[i]);
    }
    format!("errors: {:?}/{:?} vs {:?}/{:?}", a.qerr, a.rerr, b.qerr, b.rerr)
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "one image given in several ways, all outputs compared with the first; non-trivial: at least 2 sources, at least 4 pixels and at least 2 palette entries";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let (d, big) = mode_dims(&o.mode);
        let src = prop_oneof![
            1 => Just(Src::Owned),
            1 => Just(Src::Borrowed),
            3 => (any::<u8>(), any::<bool>(), any::<bool>()).prop_map(|(p, short_last, owned)| Src::Stride { pad: p % 9, short_last, owned }),
            3 => Just(Src::Callback),
            1 => Just(Src::CBitmap),
            2 => Just(Src::CRows),
            2 => Just(Src::CCustom),
        ];
        let cl = prop_oneof![3 => Just(CloneAt::No), 1 => Just(CloneAt::BeforeQuantize), 1 => Just(CloneAt::AfterQuantize), 1 => Just(CloneAt::AfterRemap)];
        (
            (img_of(d), settings(), dither(), gamma()),
            prop::option::weighted(0.25, any::<u32>()),
            prop_oneof![3 => Just(vec![]), 1 => colors(1..5)],
            prop::option::weighted(0.2, any::<u32>()),
            prop::collection::vec((src, cl), if big { 1..3 } else { 1..5 }),
            any::<u32>(),
            prop::bool::weighted(0.25),
        )
            .prop_map(move |((img, mut s, dither, gamma), imp, fixed, bg, srcs, seed, hist)| {
                if big {
                    s.speed = s.speed.max(6);
                }
                Case { img, s, dither, gamma, imp, fixed, bg, srcs, seed, hist }
            })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let attr = c.s.attr();
        let (w, h) = (c.img.w as usize, c.img.h as usize);
        let n = w * h;
        let px0 = c.img.pixels();
        let bg: Vec<RGBA> = match c.bg {
            Some(s) => {
                let mut r = Sm::new(s as u64);
                px0.iter().map(|&p| if r.below(2) == 0 { p } else { junk(&mut r) }).collect()
            }
            None => vec![],
        };
        let base = finish(c, &attr, Image::new(&attr, px0.clone(), w, h, c.gamma).map_err(e2s)?, &bg, &CloneAt::No)?;
        let mut r = Sm::new(c.seed as u64);
        for (src, cl) in &c.srcs {
            let what = format!("{src:?}, clone {cl:?}");
            let (mut rows_ok, mut unmodified) = (true, true);
            macro_rules! rust {
                ($im:expr) => {{
                    let o = finish(c, &attr, $im, &bg, cl).map_err(|e| format!("{what}: {e}"))?;
                    match (&base, &o) {
                        (Ok(a), Ok(b)) => ensure!(a == b, "{what}: {}", describe(a, b)),
                        (Err(a), Err(b)) => ensure!(a == b, "{what}: {a:?} vs {b:?}"),
                        (a, b) => return Err(format!("{what}: {:?} vs {:?}", a.as_ref().err(), b.as_ref().err())),
                    }
                }};
            }
            macro_rules! capi {
                ($im:expr) => {{
                    let o = unsafe { c_run(c, $im, &bg) }.map_err(|e| format!("{what}: {e}"))?;
                    match (&base, &o) {
                        (Ok(a), Ok(b)) => ensure!(a == b, "{what}: {}", describe(a, b)),
                        (Err(a), Err(b)) => ensure!(code(*a) == *b, "{what}: {a:?} vs {b:?}"),
                        (a, b) => return Err(format!("{what}: {:?} vs {:?}", a.as_ref().err(), b.as_ref().err())),
                    }
                }};
            }
            match src {
                Src::Owned if c.seed % 2 == 0 => rust!(Image::new(&attr, &px0[..], w, h, c.gamma).map_err(e2s)?),
                Src::Owned => rust!(attr.new_image(px0.clone(), w, h, c.gamma).map_err(e2s)?),
                Src::Borrowed => {
                    let p = px0.clone();
                    if c.seed % 2 == 0 {
                        rust!(Image::new_borrowed(&attr, &p, w, h, c.gamma).map_err(e2s)?);
                    } else {
                        rust!(attr.new_image_borrowed(&p, w, h, c.gamma).map_err(e2s)?);
                    }
                    unmodified = p == px0;
                }
                Src::Stride { pad, short_last, owned } => {
                    let stride = w + *pad as usize;
                    let mut p: Vec<RGBA> = (0..stride * h).map(|_| junk(&mut r)).collect();
                    for y in 0..h {
                        p[y * stride..y * stride + w].copy_from_slice(&px0[y * w..(y + 1) * w]);
                    }
                    if *short_last {
                        p.truncate(stride * (h - 1) + w);
                    } else {
                        p.extend((0..r.below(5)).map(|_| RGBA::new(9, 9, 9, 9)));
                    }
                    if *owned && c.seed % 2 == 0 {
                        rust!(Image::new_stride(&attr, &p[..], w, h, stride, c.gamma).map_err(e2s)?);
                    } else if *owned {
                        rust!(attr.new_image_stride(p, w, h, stride, c.gamma).map_err(e2s)?);
                    } else {
                        let q = p.clone();
                        rust!(Image::new_stride_borrowed(&attr, &p, w, h, stride, c.gamma).map_err(e2s)?);
                        unmodified = p == q;
                    }
                }
                Src::Callback => {
                    let s = Arc::new(Rows { px: px0.clone(), w, h, calls: AtomicU64::new(0), bad: AtomicU64::new(0) });
                    let s2 = Arc::clone(&s);
                    let f = move |row: &mut [MaybeUninit<RGBA>], y: usize| {
                        s2.calls.fetch_add(1, SeqCst);
                        if row.len() != s2.w || y >= s2.h {
                            s2.bad.fetch_add(1, SeqCst);
                            row.iter_mut().for_each(|p| { p.write(RGBA::new(0, 0, 0, 0)); });
                            return;
                        }
                        for (x, p) in row.iter_mut().enumerate() {
                            p.write(s2.px[y * s2.w + x]);
                        }
                    };
                    rust!(unsafe { Image::new_fn(&attr, f, w, h, c.gamma) }.map_err(e2s)?);
                    rows_ok = s.bad.load(SeqCst) == 0 && s.calls.load(SeqCst) > 0;
                }
                Src::CBitmap => {
                    let a = c_attr(&c.s);
                    let p = px0.clone();
                    capi!(liq_image_create_rgba(a.0, p.as_ptr().cast(), w as c_int, h as c_int, c.gamma));
                    unmodified = p == px0;
                }
                Src::CRows => {
                    let a = c_attr(&c.s);
                    let mut order: Vec<usize> = (0..h).collect();
                    r.shuffle(&mut order);
                    let stride = w + r.below(4);
                    let mut p: Vec<RGBA> = (0..stride * h).map(|_| junk(&mut r)).collect();
                    let mut ptrs = vec![std::ptr::null_mut::<c_void>(); h];
                    for (slot, &y) in order.iter().enumerate() {
                        p[slot * stride..slot * stride + w].copy_from_slice(&px0[y * w..(y + 1) * w]);
                    }
                    for (slot, &y) in order.iter().enumerate() {
                        ptrs[y] = p[slot * stride..].as_mut_ptr().cast();
                    }
                    let q = p.clone();
                    let qp = ptrs.clone();
                    capi!(liq_image_create_rgba_rows(a.0, ptrs.as_ptr(), w as c_int, h as c_int, c.gamma));
                    unmodified = p == q && ptrs == qp;
                }
                Src::CCustom => {
                    let a = c_attr(&c.s);
                    let s = Box::new(Rows { px: px0.clone(), w, h, calls: AtomicU64::new(0), bad: AtomicU64::new(0) });
                    capi!(liq_image_create_custom(a.0, row_cb, (&*s) as *const Rows as *mut c_void, w as c_int, h as c_int, c.gamma));
                    rows_ok = s.bad.load(SeqCst) == 0 && s.calls.load(SeqCst) > 0;
                }
            }
            ensure!(rows_ok, "{what}: the row callback was called with an impossible row or width (or never)");
            ensure!(unmodified, "{what}: input pixels were modified");
            st.label(format!("{}{}", format!("{src:?}").split(' ').next().unwrap(), if matches!(cl, CloneAt::No) { "" } else { "+clone" }));
        }
        if let Ok(b) = &base {
            st.nontrivial(!c.srcs.is_empty() && n >= 4 && b.pal.len() >= 2);
        }
        Ok(())
    }
}
