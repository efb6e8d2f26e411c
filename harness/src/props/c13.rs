//! Settings: ranges, getters, rejected calls, copies; Rust and C side by side.
use crate::capi::*;
use crate::common::*;
use imagequant::{Attributes, Error, Histogram, HistogramEntry, Image, RGBA};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::mem::MaybeUninit;
use std::os::raw::{c_int, c_void};

/// floats are kept as bits, so that NaN and infinities survive serialisation
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct F(u64);
impl F {
    fn v(self) -> f64 {
        f64::from_bits(self.0)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Speed(i32),
    MaxColors(i32),
    Posterize(i32),
    Quality(i32, i32),
    Last(bool),
    /// replace the objects by copies; the originals get other settings and are destroyed at once or at the end
    Copy(bool),
    Dither(F),
    Gamma(F),
    NewImage { w: u64, h: u64, stride: u64, len: u16, gamma: F },
    NewFn { w: u64, h: u64, gamma: F },
    AddColors { n: u8, gamma: F },
    Fixed { gamma: F },
    Importance { delta: i32, own: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
    img: Img,
}
pub struct P;

fn int(v: Vec<i32>, lo: i32, hi: i32) -> BoxedStrategy<i32> {
    prop_oneof![
        6 => lo..=hi,
        2 => prop::sample::select(v),
        1 => any::<i32>(),
        1 => (lo - 3..=hi + 3),
        1 => (prop::sample::select(vec![256i32, 512, 65536, 1 << 24, -256, i32::MIN]), lo..=hi).prop_map(|(a, b)| a.wrapping_add(b)),
    ]
    .boxed()
}
fn float() -> BoxedStrategy<F> {
    prop_oneof![
        6 => (0u32..=1000).prop_map(|x| x as f64 / 1000.),
        1 => Just(0.), 1 => Just(1.), 1 => Just(-0.0), 1 => Just(0.45455),
        1 => prop::sample::select(vec![f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1., 2., 1.0000001, 1.0 + f64::EPSILON, 0.9999999, -1e-300, 1e-300, f64::MAX, f64::MIN, 100., 0.999]),
        1 => any::<u64>().prop_map(f64::from_bits),
    ]
    .prop_map(|v| F(v.to_bits()))
    .boxed()
}
fn dim() -> BoxedStrategy<u64> {
    prop_oneof![8 => 1u64..=20, 2 => Just(0u64), 2 => prop::sample::select(vec![u64::MAX, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 4, (1 << 32) - 1, 1 << 59, 65536, 1 << 30, 1 << 63]), 1 => any::<u64>(), 1 => any::<u32>().prop_map(u64::from), 1 => 21u64..=1500, 1 => prop::sample::select(vec![16384u64, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100_000, 131_071, 1 << 20])].boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        4 => int(vec![0, 1, 10, 11, -1, i32::MAX], 1, 10).prop_map(Op::Speed),
        4 => int(vec![0, 1, 2, 256, 257, -1, i32::MAX, 258], 2, 256).prop_map(Op::MaxColors),
        4 => int(vec![0, 4, 5, 8, -1, 255, 256, 260], 0, 4).prop_map(Op::Posterize),
        5 => (int(vec![0, 100, 101, -1, 356], 0, 100), int(vec![0, 100, 101, -1, 356], 0, 100)).prop_map(|(a, b)| Op::Quality(a, b)),
        2 => (0i32..=100, 0i32..=100).prop_map(|(a, b)| Op::Quality(a.min(b), a.max(b))),
        1 => any::<bool>().prop_map(Op::Last),
        2 => any::<bool>().prop_map(Op::Copy),
        2 => float().prop_map(Op::Dither),
        2 => float().prop_map(Op::Gamma),
        2 => (dim(), dim(), prop_oneof![2 => 0u64..5, 1 => dim()], 0u16..500, float()).prop_map(|(w, h, s, len, gamma)| Op::NewImage { w, h, stride: if s < 5 { w.wrapping_add(s).wrapping_sub(1) } else { s }, len, gamma }),
        2 => (dim(), dim(), float()).prop_map(|(w, h, gamma)| Op::NewFn { w, h, gamma }),
        2 => (0u8..5, float()).prop_map(|(n, gamma)| Op::AddColors { n, gamma }),
        1 => float().prop_map(|gamma| Op::Fixed { gamma }),
        1 => (-4i32..4, 0u8..40).prop_map(|(delta, own)| Op::Importance { delta, own }),
    ]
    .boxed()
}

struct Model {
    speed: i32,
    max_colors: i32,
    post: i32,
    quality: Option<(i32, i32)>,
    last: bool,
    dither: f32,
    gamma: Option<f64>,
}
impl Model {
    fn fresh(&self) -> Attributes {
        let mut a = Attributes::new();
        if self.speed != 4 {
            a.set_speed(self.speed).unwrap();
        }
        a.set_max_colors(self.max_colors as u32).unwrap();
        a.set_min_posterization(self.post as u8).unwrap();
        if let Some((lo, hi)) = self.quality {
            a.set_quality(lo as u8, hi as u8).unwrap();
        }
        a.set_last_index_transparent(self.last);
        a
    }
}

fn getters(m: &Model, a: &Attributes, c: *mut attr, what: &str) -> R {
    let q = m.quality.unwrap_or((0, 100));
    ensure!(a.speed() as i32 == m.speed, "{what}: speed() is {}, expected {}", a.speed(), m.speed);
    ensure!(a.max_colors() as i32 == m.max_colors, "{what}: max_colors() is {}, expected {}", a.max_colors(), m.max_colors);
    ensure!(a.min_posterization() as i32 == m.post, "{what}: min_posterization() is {}, expected {}", a.min_posterization(), m.post);
    ensure!((a.quality().0 as i32, a.quality().1 as i32) == q, "{what}: quality() is {:?}, expected {q:?}", a.quality());
    let cg = unsafe { (liq_get_speed(c), liq_get_max_colors(c), liq_get_min_posterization(c), liq_get_min_quality(c), liq_get_max_quality(c)) };
    ensure!(cg == (m.speed, m.max_colors, m.post, q.0, q.1), "{what}: C getters return {cg:?}, expected {:?}", (m.speed, m.max_colors, m.post, q.0, q.1));
    Ok(())
}

/// error expected from one of several reasons to refuse
fn refused<T>(r: Result<T, Error>, why: &[Error], what: &str) -> R {
    match (r, why.is_empty()) {
        (Ok(_), true) => Ok(()),
        (Ok(_), false) => Err(format!("{what} was accepted, {:?} expected", why)),
        (Err(e), true) => Err(format!("{what} was refused with {e:?}")),
        (Err(e), false) => {
            ensure!(why.contains(&e), "{what} was refused with {e:?}, expected {why:?}");
            Ok(())
        }
    }
}

unsafe extern "C" fn row0(out: *mut color, _row: c_int, width: c_int, _u: *mut c_void) {
    for i in 0..width as usize {
        *out.add(i) = color { r: 1, g: 2, b: 3, a: 255 };
    }
}
unsafe extern "C" fn nofree(_: *mut c_void) {}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "sequence of setters, getters, constructors and copies, Rust and C; non-trivial: at least 3 calls accepted and at least 2 refused";
    fn strategy(_: &Opts) -> BoxedStrategy<Case> {
        (prop::collection::vec(op(), 1..14), img_of(small_dims())).prop_map(|(ops, img)| Case { ops, img }).boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let mut m = Model { speed: 4, max_colors: 256, post: 0, quality: None, last: false, dither: 1., gamma: None };
        let mut a = Attributes::new();
        let mut ca = CAttr(unsafe { liq_attr_create() });
        getters(&m, &a, ca.0, "new")?;
        let mut old: Vec<(Attributes, CAttr)> = vec![];
        // a result object made with default settings, its own settings are followed as well
        let d = Attributes::new();
        let mut img0 = new_image(&d, &c.img, 0.);
        let mut res = d.quantize(&mut img0).map_err(e2s)?;
        let fresh_res = res.clone();
        let cd = CAttr(unsafe { liq_attr_create() });
        let px0 = c.img.pixels();
        let cim = CImage(unsafe { liq_image_create_rgba(cd.0, px0.as_ptr().cast(), c.img.w as c_int, c.img.h as c_int, 0.) });
        let mut cres = std::ptr::null_mut();
        ensure!(unsafe { liq_image_quantize(cim.0, cd.0, &mut cres) } == OK, "C quantize");
        let cres = CResult(cres);
        let mut hist = Histogram::new(&d);
        let chist = CHist(unsafe { liq_histogram_create(cd.0) });
        let base_e = HistogramEntry { color: RGBA::new(200, 100, 50, 255), count: 5 };
        hist.add_colors(&[base_e], 0.).map_err(e2s)?;
        let ce = [hist_entry { color: ccolor([200, 100, 50, 255]), count: 5 }];
        unsafe { liq_histogram_add_colors(chist.0, cd.0, ce.as_ptr(), 1, 0.) };
        let mut hcolors: Vec<Px> = vec![[200, 100, 50, 255]];

        let (mut acc, mut rej) = (0, 0);
        for (step, op) in c.ops.iter().enumerate() {
            let what = format!("step {step} {op:?}");
            let one = |r: Result<(), Error>, e: c_int, ok: bool| -> R {
                ensure!(r == if ok { Ok(()) } else { Err(Error::ValueOutOfRange) }, "{what}: Rust returned {r:?}");
                ensure!(e == if ok { OK } else { VALUE_OUT_OF_RANGE }, "{what}: C returned {e}");
                Ok(())
            };
            let mut tally = |ok: bool| if ok { acc += 1 } else { rej += 1 };
            match op {
                Op::Speed(v) => {
                    let ok = (1..=10).contains(v);
                    one(a.set_speed(*v), unsafe { liq_set_speed(ca.0, *v) }, ok)?;
                    if ok { m.speed = *v; }
                    tally(ok);
                }
                Op::MaxColors(v) => {
                    let ok = (2..=256).contains(v);
                    one(a.set_max_colors(*v as u32), unsafe { liq_set_max_colors(ca.0, *v) }, ok)?;
                    if ok { m.max_colors = *v; }
                    tally(ok);
                }
                Op::Posterize(v) => {
                    let ok = (0..=4).contains(v);
                    let r = u8::try_from(*v).map_or(Err(Error::ValueOutOfRange), |v| a.set_min_posterization(v));
                    one(r, unsafe { liq_set_min_posterization(ca.0, *v) }, ok)?;
                    if ok { m.post = *v; }
                    tally(ok);
                }
                Op::Quality(lo, hi) => {
                    let ok = 0 <= *lo && lo <= hi && *hi <= 100;
                    let r = match (u8::try_from(*lo), u8::try_from(*hi)) {
                        (Ok(lo), Ok(hi)) => a.set_quality(lo, hi),
                        _ => Err(Error::ValueOutOfRange),
                    };
                    one(r, unsafe { liq_set_quality(ca.0, *lo, *hi) }, ok)?;
                    if ok { m.quality = Some((*lo, *hi)); }
                    tally(ok);
                }
                Op::Last(v) => {
                    a.set_last_index_transparent(*v);
                    unsafe { liq_set_last_index_transparent(ca.0, if *v { 1 + step as c_int } else { 0 }) };
                    m.last = *v;
                }
                Op::Copy(keep) => {
                    let na = a.clone();
                    let nc = CAttr(unsafe { liq_attr_copy(ca.0) });
                    ensure!(!nc.0.is_null(), "copy failed");
                    let mut oa = std::mem::replace(&mut a, na);
                    let oc = std::mem::replace(&mut ca, nc);
                    // changes of the original don't reach the copy
                    oa.set_speed(if m.speed == 10 { 2 } else { 10 }).unwrap();
                    oa.set_max_colors(if m.max_colors == 7 { 8 } else { 7 }).unwrap();
                    oa.set_quality(3, 9).unwrap();
                    oa.set_min_posterization(if m.post == 3 { 2 } else { 3 }).unwrap();
                    oa.set_last_index_transparent(!m.last);
                    unsafe {
                        liq_set_speed(oc.0, if m.speed == 10 { 2 } else { 10 });
                        liq_set_max_colors(oc.0, if m.max_colors == 7 { 8 } else { 7 });
                        liq_set_quality(oc.0, 3, 9);
                        liq_set_min_posterization(oc.0, if m.post == 3 { 2 } else { 3 });
                        liq_set_last_index_transparent(oc.0, !m.last as c_int);
                    }
                    if *keep { old.push((oa, oc)); }
                }
                Op::Dither(f) => {
                    let v = f.v() as f32;
                    let ok = v >= 0. && v <= 1.;
                    one(res.set_dithering_level(v), unsafe { liq_set_dithering_level(cres.0, v) }, ok)?;
                    if ok { m.dither = v; }
                    tally(ok);
                }
                Op::Gamma(f) => {
                    let v = f.v();
                    let ok = v > 0. && v < 1.;
                    one(res.set_output_gamma(v), unsafe { liq_set_output_gamma(cres.0, v) }, ok)?;
                    if ok { m.gamma = Some(v); }
                    let want = m.gamma.unwrap_or(0.45455);
                    ensure!(res.output_gamma() == want, "{what}: output_gamma() is {}, expected {want}", res.output_gamma());
                    let cg = unsafe { liq_get_output_gamma(cres.0) };
                    ensure!(cg == want, "{what}: C output gamma is {cg}, expected {want}");
                    tally(ok);
                }
                Op::NewImage { w, h, stride, len, gamma } => {
                    let buf = vec![RGBA::new(1, 2, 3, 255); *len as usize];
                    let g = gamma.v();
                    let mut why = vec![];
                    let u = u32::MAX as u64;
                    if *w == 0 || *h == 0 || stride < w || *w > u || *h > u || *stride > u || *w > i32::MAX as u64 || *h > i32::MAX as u64 || !(g >= 0. && g <= 1.) || (*w as u128 * *h as u128) > (isize::MAX as u128 / 16) {
                        why.push(Error::ValueOutOfRange);
                    }
                    if *h > 0 && *w > 0 && (*stride as u128 * (*h as u128 - 1) + *w as u128) > *len as u128 {
                        why.push(Error::BufferTooSmall);
                    }
                    refused(Image::new_stride_borrowed(&a, &buf, *w as usize, *h as usize, *stride as usize, g), &why, &what)?;
                    refused(a.new_image_stride(buf.clone(), *w as usize, *h as usize, *stride as usize, g), &why, &what)?;
                    if let Ok(im) = Image::new_stride_borrowed(&a, &buf, *w as usize, *h as usize, *stride as usize, g) {
                        ensure!((im.width() as u64, im.height() as u64) == (*w, *h), "{what}: dimensions");
                    }
                    tally(why.is_empty());
                }
                Op::NewFn { w, h, gamma } => {
                    let g = gamma.v();
                    let bad = *w == 0 || *h == 0 || *w > i32::MAX as u64 || *h > i32::MAX as u64 || !(g >= 0. && g <= 1.) || (*w as u128 * *h as u128) > (isize::MAX as u128 / 16);
                    let why = if bad { vec![Error::ValueOutOfRange] } else { vec![] };
                    let f = |row: &mut [MaybeUninit<RGBA>], _: usize| row.iter_mut().for_each(|p| { p.write(RGBA::new(1, 1, 1, 1)); });
                    refused(unsafe { Image::new_fn(&a, f, *w as usize, *h as usize, g) }, &why, &what)?;
                    if *w <= u32::MAX as u64 && *h <= u32::MAX as u64 {
                        // C takes ints
                        let (cw, ch) = (*w as u32 as c_int, *h as u32 as c_int);
                        let im = CImage(unsafe { liq_image_create_custom(ca.0, row0, std::ptr::null_mut(), cw, ch, g) });
                        ensure!(im.0.is_null() == bad, "{what}: C image {}created", if im.0.is_null() { "not " } else { "" });
                        if !bad {
                            ensure!(unsafe { (liq_image_get_width(im.0), liq_image_get_height(im.0)) } == (cw, ch), "{what}: C dimensions");
                        }
                        if bad || w.saturating_mul(*h) <= 1 << 20 {
                            // (zeroed pages are not touched)
                            let p: Vec<u32> = vec![0; w.saturating_mul(*h).clamp(500, 1 << 20) as usize];
                            if !bad {
                                let s: &[RGBA] = unsafe { std::slice::from_raw_parts(p.as_ptr().cast(), p.len()) };
                                let im = Image::new_borrowed(&a, s, *w as usize, *h as usize, g).map_err(|e| format!("{what}: borrowed image: {e:?}"))?;
                                ensure!((im.width() as u64, im.height() as u64) == (*w, *h), "{what}: dimensions");
                            }
                            let im = CImage(unsafe { liq_image_create_rgba(ca.0, p.as_ptr().cast(), cw, ch, g) });
                            ensure!(im.0.is_null() == bad, "{what}: C bitmap image {}created", if im.0.is_null() { "not " } else { "" });
                            {
                                let rows = vec![p.as_ptr() as *mut c_void; 1500];
                                // an impossible size must be refused before rows are read
                                if !(*h > 1500) {
                                    let im = CImage(unsafe { liq_image_create_rgba_rows(ca.0, rows.as_ptr(), cw, ch, g) });
                                    ensure!(im.0.is_null() == bad, "{what}: C rows image {}created", if im.0.is_null() { "not " } else { "" });
                                }
                            }
                        }
                    }
                    tally(!bad);
                }
                Op::AddColors { n, gamma } => {
                    let g = gamma.v();
                    let ok_g = g >= 0. && g < 1.;
                    let col: Vec<Px> = (0..*n).map(|i| [(step as u8).wrapping_mul(11).wrapping_add(i.wrapping_mul(60)), 255u8.wrapping_sub(i.wrapping_mul(40)), (step as u8).wrapping_mul(16), 255]).collect();
                    let e: Vec<_> = col.iter().map(|&p| HistogramEntry { color: rgba(p), count: 3 }).collect();
                    let ok = *n > 0 && ok_g;
                    // the first gamma given decides; keep it the default one
                    let g = if ok { 0. } else { g };
                    let r = hist.add_colors(&e, g);
                    ensure!(r == if ok { Ok(()) } else { Err(Error::ValueOutOfRange) }, "{what}: {r:?}");
                    let ce: Vec<_> = col.iter().map(|&p| hist_entry { color: ccolor(p), count: 3 }).collect();
                    let r = unsafe { liq_histogram_add_colors(chist.0, cd.0, ce.as_ptr(), ce.len() as c_int, g) };
                    let want = if *n == 0 || ok { OK } else { VALUE_OUT_OF_RANGE };
                    ensure!(r == want, "{what}: C returned {r}");
                    let r = unsafe { liq_histogram_add_colors(chist.0, cd.0, ce.as_ptr(), -1 - *n as c_int, 0.) };
                    ensure!(r == VALUE_OUT_OF_RANGE, "{what}: negative number of entries: C returned {r}");
                    if ok { hcolors.extend(col); }
                    tally(ok);
                }
                Op::Fixed { gamma } => {
                    let g = gamma.v();
                    let ok = g >= 0. && g <= 1.;
                    let g = if ok { 0. } else { g };
                    let col = [(step as u8).wrapping_mul(13), 77, 5, 255];
                    one(hist.add_fixed_color(rgba(col), g), unsafe { liq_histogram_add_fixed_color(chist.0, ccolor(col), g) }, ok)?;
                    if ok { hcolors.push(col); }
                    tally(ok);
                }
                Op::Importance { delta, own } => {
                    let n = c.img.n();
                    let len = (n as i64 + *delta as i64).max(0) as usize;
                    let mut im = new_image(&a, &c.img, 0.);
                    let r = im.set_importance_map(vec![1u8; len]);
                    ensure!(r == if len == n { Ok(()) } else { Err(Error::BufferTooSmall) }, "{what}: {r:?}");
                    // C takes the size of the buffer, which may be larger, and an ownership flag
                    let al = CAttr(unsafe { liq_attr_create_with_allocator(std::ptr::null_mut(), Some(nofree)) });
                    let im = CImage(unsafe { liq_image_create_rgba(al.0, px0.as_ptr().cast(), c.img.w as c_int, c.img.h as c_int, 0.) });
                    let mut map = vec![1u8; n.max(len) + 1];
                    let r = unsafe { liq_image_set_importance_map(im.0, map.as_mut_ptr(), len, *own as c_int) };
                    let want = if len == 0 { INVALID_POINTER } else if len < n { BUFFER_TOO_SMALL } else if *own as c_int == COPY_PIXELS || *own as c_int == OWN_PIXELS { OK } else { UNSUPPORTED };
                    ensure!(r == want, "{what}: C returned {r}, expected {want}");
                    // ownership flags
                    if *own as c_int & !(OWN_ROWS | OWN_PIXELS) != 0 || *own == 0 {
                        let r = unsafe { liq_image_set_memory_ownership(im.0, *own as c_int) };
                        ensure!(r == VALUE_OUT_OF_RANGE, "{what}: ownership flags {own}: C returned {r}");
                    }
                    tally(r == OK);
                }
            }
            getters(&m, &a, ca.0, &what)?;
        }
        // behaviour equals that of objects which got the final settings directly
        let f = m.fresh();
        let run = |a: &Attributes| a.quantize(&mut new_image(a, &c.img, 0.)).and_then(|mut r| r.remapped(&mut new_image(a, &c.img, 0.)));
        let (x, y) = (run(&a), run(&f));
        ensure!(x == y, "after the history, quantization gives {:?}, but with the same settings made directly {:?}", x.map(|x| x.0), y.map(|x| x.0));
        {
            let im = CImage(unsafe { liq_image_create_rgba(ca.0, px0.as_ptr().cast(), c.img.w as c_int, c.img.h as c_int, 0.) });
            let mut r = std::ptr::null_mut();
            let e = unsafe { liq_image_quantize(im.0, ca.0, &mut r) };
            match (&y, e) {
                (Err(e), c) => ensure!(code(*e) == c, "C quantization returned {c}, expected {e:?}"),
                (Ok((pal, idx)), OK) => {
                    let r = CResult(r);
                    let im = CImage(unsafe { liq_image_create_rgba(ca.0, px0.as_ptr().cast(), c.img.w as c_int, c.img.h as c_int, 0.) });
                    let mut buf = vec![0u8; idx.len()];
                    let e = unsafe { liq_write_remapped_image(r.0, im.0, buf.as_mut_ptr().cast(), buf.len()) };
                    ensure!(e == OK, "C remap {e}");
                    ensure!(unsafe { pal_px(r.0) } == pal.iter().map(|&p| px(p)).collect::<Vec<_>>() && &buf == idx, "result through C differs after the history");
                }
                (Ok(_), c) => return Err(format!("C quantization returned {c}")),
            }
        }
        let mut want = fresh_res;
        want.set_dithering_level(m.dither).map_err(e2s)?;
        if let Some(g) = m.gamma {
            want.set_output_gamma(g).map_err(e2s)?;
        }
        let x = res.remapped(&mut new_image(&d, &c.img, 0.)).map_err(e2s)?;
        let y = want.remapped(&mut new_image(&d, &c.img, 0.)).map_err(e2s)?;
        ensure!(x == y, "settings of the result: remapped palette {:?} vs {:?}", x.0, y.0);
        // histogram has exactly the accepted colors
        let got: Vec<Px> = { let mut p: Vec<Px> = hist.quantize(&d).map_err(e2s)?.palette_vec().iter().map(|&p| canon(px(p))).collect(); p.sort(); p };
        let mut w = hcolors.clone();
        w.sort();
        w.dedup();
        ensure!(got == w, "histogram has {got:?}, but {w:?} were accepted");
        let mut r = std::ptr::null_mut();
        ensure!(unsafe { liq_histogram_quantize(chist.0, cd.0, &mut r) } == OK, "C histogram");
        let r = CResult(r);
        let mut got = unsafe { pal_px(r.0) };
        got.sort();
        ensure!(got == w, "C histogram has {got:?}, but {w:?} were accepted");
        drop(old);
        st.label_n("accepted calls", acc);
        st.label_n("refused calls", rej);
        st.nontrivial(acc >= 3 && rej >= 2);
        Ok(())
    }
}
