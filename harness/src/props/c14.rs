//! Progress callbacks: values, abort at every report, no influence, repeatability.
use crate::capi::*;
use crate::common::*;
use imagequant::{Attributes, ControlFlow, Histogram, HistogramEntry, Image, QuantizationResult};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: Img,
    set: Settings,
    gamma: f64,
    dither: f32,
    /// 0 = image, 1 = histogram of the image, 2 = histogram of colors, 3 = both
    how: u8,
    /// further steps of a histogram: 0 the image, 1 the colors, 2 quantize, 3 another image
    more: Vec<u8>,
    /// remapped twice
    twice: bool,
    fixed: Vec<Px>,
    background: bool,
    capi: bool,
    /// value returned by C callbacks to go on
    go_on: i32,
    /// every report tried, not a sample
    all: bool,
    /// every report from the chosen one on says Break
    forever: bool,
    seed: u32,
}
pub struct P;

struct Ctl {
    n: AtomicU64,
    brk: AtomicU64,
    forever: bool,
    bad: Mutex<Option<f32>>,
    go_on: c_int,
}
impl Ctl {
    fn new(c: &Case) -> Self {
        Ctl { n: AtomicU64::new(0), brk: AtomicU64::new(u64::MAX), forever: c.forever, bad: Mutex::new(None), go_on: c.go_on }
    }
    fn hit(&self, v: f32) -> bool {
        let i = self.n.fetch_add(1, SeqCst);
        if !(0. ..=100.).contains(&v) {
            *self.bad.lock().unwrap() = Some(v);
        }
        let b = self.brk.load(SeqCst);
        b == i || (self.forever && i > b)
    }
    fn arm(&self, k: u64) {
        self.n.store(0, SeqCst);
        self.brk.store(k, SeqCst);
    }
    fn count(&self) -> u64 {
        self.n.load(SeqCst)
    }
}
unsafe extern "C" fn ccb(v: f32, u: *mut c_void) -> c_int {
    let c = &*(u as *const Ctl);
    if c.hit(v) { 0 } else { c.go_on }
}

impl Case {
    fn steps(&self) -> Vec<u8> {
        let mut v = match self.how % 4 { 0 => vec![], 1 => vec![0], 2 => vec![1], _ => vec![0, 1] };
        if self.how % 4 > 0 {
            v.extend(self.more.iter().map(|m| m % 4));
        } else if self.more.len() > 3 {
            v.push(2);
        }
        v.push(2);
        v
    }
    fn second(&self) -> Img {
        let mut i = self.img.clone();
        std::mem::swap(&mut i.w, &mut i.h);
        i.colors = i.colors.iter().map(|p| [p[1], p[2], p[0] ^ 9, p[3]]).collect();
        i
    }
    /// a second remap is not influenced by the first one
    fn remaps(&self) -> usize {
        if self.twice && !(self.dither > 0. && self.set.uses_dither_map()) { 2 } else { 1 }
    }
}

/// objects of one job, Rust or C
enum Q {
    R { a: Attributes, im: Image<'static>, h: Option<Histogram>, res: Option<QuantizationResult> },
    C { a: CAttr, im: CImage, h: Option<CHist>, res: Option<CResult>, px: Vec<imagequant::RGBA>, _bgpx: Vec<imagequant::RGBA> },
}
type Pal = (Vec<Px>, Option<u64>);
type Out = (Vec<Px>, Vec<u8>, Option<u64>);

fn bits(e: Option<f64>) -> Option<u64> {
    e.map(f64::to_bits)
}
fn bitsc(e: f64) -> Option<u64> {
    if e < 0. { None } else { Some(e.to_bits()) }
}

fn colors_of(c: &Case) -> Vec<HistogramEntry> {
    let mut r = Sm::new(c.seed as u64);
    c.img.colors.iter().map(|&p| HistogramEntry { color: rgba(p), count: 1 + r.below(500) as u32 }).collect()
}

impl Q {
    fn new(c: &Case, ctl: Option<&Arc<Ctl>>) -> Q {
        let bg: Vec<_> = c.img.pixels().iter().rev().copied().collect();
        let hist = c.how % 4 > 0;
        if c.capi {
            unsafe {
                let a = c_attr(&c.set);
                let px = c.img.pixels();
                let (w, h) = (c.img.w as c_int, c.img.h as c_int);
                let im = CImage(liq_image_create_rgba(a.0, px.as_ptr().cast(), w, h, c.gamma));
                for &f in &c.fixed {
                    liq_image_add_fixed_color(im.0, ccolor(f));
                }
                if c.background {
                    let b = liq_image_create_rgba(a.0, bg.as_ptr().cast(), w, h, c.gamma);
                    assert_eq!(OK, liq_image_set_background(im.0, b));
                }
                if let Some(ctl) = ctl {
                    liq_attr_set_progress_callback(a.0, Some(ccb), Arc::as_ptr(ctl) as *mut c_void);
                }
                let h = if hist { Some(CHist(liq_histogram_create(a.0))) } else { None };
                Q::C { a, im, h, res: None, px, _bgpx: bg }
            }
        } else {
            let mut a = c.set.attr();
            let mut im = new_image(&a, &c.img, c.gamma);
            for &f in &c.fixed {
                im.add_fixed_color(rgba(f)).unwrap();
            }
            if c.background {
                let b = Image::new(&a, bg, c.img.w as usize, c.img.h as usize, c.gamma).unwrap();
                im.set_background(b).unwrap();
            }
            if let Some(ctl) = ctl {
                let ctl = ctl.clone();
                a.set_progress_callback(|_| panic!("replaced callback called"));
                a.set_progress_callback(move |v| if ctl.hit(v) { ControlFlow::Break } else { ControlFlow::Continue });
            }
            let h = if hist { Some(Histogram::new(&a)) } else { None };
            Q::R { a, im, h, res: None }
        }
    }
    /// one step at a time, so that an interrupted one can be repeated
    fn step(&mut self, c: &Case, s: u8) -> Result<(), c_int> {
        match self {
            Q::R { a, im, h, res } => match s {
                0 => h.as_mut().unwrap().add_image(a, im).map_err(code),
                1 => h.as_mut().unwrap().add_colors(&colors_of(c), c.gamma.min(0.99)).map_err(code),
                3 => h.as_mut().unwrap().add_image(a, &mut new_image(a, &c.second(), c.gamma)).map_err(code),
                _ => {
                    *res = Some(if let Some(h) = h { h.quantize(a).map_err(code)? } else { a.quantize(im).map_err(code)? });
                    Ok(())
                }
            },
            Q::C { a, im, h, res, .. } => unsafe {
                let rc = match s {
                    0 => liq_histogram_add_image(h.as_ref().unwrap().0, a.0, im.0),
                    1 => {
                        let e: Vec<_> = colors_of(c).iter().map(|e| hist_entry { color: ccolor(px(e.color)), count: e.count }).collect();
                        liq_histogram_add_colors(h.as_ref().unwrap().0, a.0, e.as_ptr(), e.len() as c_int, c.gamma.min(0.99))
                    }
                    3 => {
                        let i = c.second();
                        let px = i.pixels();
                        let im = CImage(liq_image_create_rgba(a.0, px.as_ptr().cast(), i.w as c_int, i.h as c_int, c.gamma));
                        liq_histogram_add_image(h.as_ref().unwrap().0, a.0, im.0)
                    }
                    _ => {
                        let mut r = std::ptr::null_mut();
                        let rc = if let Some(h) = h { liq_histogram_quantize(h.0, a.0, &mut r) } else { liq_image_quantize(im.0, a.0, &mut r) };
                        if rc != OK && !r.is_null() {
                            return Err(-77);
                        }
                        *res = Some(CResult(r));
                        rc
                    }
                };
                if rc == OK { Ok(()) } else { Err(rc) }
            },
        }
    }
    /// steps from s on, until one fails; palettes of all quantizations
    fn steps(&mut self, c: &Case, s: &mut usize, pals: &mut Vec<Pal>) -> Result<(), c_int> {
        let st = c.steps();
        while *s < st.len() {
            self.step(c, st[*s])?;
            if st[*s] == 2 { pals.push(self.pal()); }
            *s += 1;
        }
        Ok(())
    }
    /// the palette from a copy, so that it is not rounded for the remap
    fn pal(&self) -> Pal {
        match self {
            Q::R { res, .. } => {
                let mut r = res.as_ref().unwrap().clone();
                (r.palette_vec().into_iter().map(px).collect(), bits(r.quantization_error()))
            }
            Q::C { res, .. } => unsafe {
                let r = res.as_ref().unwrap().0;
                (vec![], bitsc(liq_get_quantization_error(r)))
            },
        }
    }
    fn pal_now(&mut self) -> Vec<Px> {
        match self {
            Q::R { res, .. } => res.as_mut().unwrap().palette_vec().into_iter().map(px).collect(),
            Q::C { res, .. } => unsafe { pal_px(res.as_ref().unwrap().0) },
        }
    }
    fn prepare_remap(&mut self, c: &Case, ctl: Option<&Arc<Ctl>>) {
        match self {
            Q::R { res, .. } => {
                let r = res.as_mut().unwrap();
                r.set_dithering_level(c.dither).unwrap();
                if let Some(ctl) = ctl {
                    let ctl = ctl.clone();
                    r.set_progress_callback(move |v| if ctl.hit(v) { ControlFlow::Break } else { ControlFlow::Continue });
                }
            }
            Q::C { res, .. } => unsafe {
                let r = res.as_ref().unwrap().0;
                assert_eq!(OK, liq_set_dithering_level(r, c.dither));
                if let Some(ctl) = ctl {
                    liq_result_set_progress_callback(r, Some(ccb), Arc::as_ptr(ctl) as *mut c_void);
                }
            },
        }
    }
    fn fresh_image(&mut self, c: &Case) {
        let n = Q::new(c, None);
        match (self, n) {
            (Q::R { im, .. }, Q::R { im: i2, .. }) => *im = i2,
            (Q::C { im, px, _bgpx, .. }, Q::C { im: i2, px: p2, _bgpx: b2, .. }) => {
                *im = i2;
                *px = p2;
                *_bgpx = b2;
            }
            _ => unreachable!(),
        }
    }
    fn remap(&mut self, n: usize) -> Result<Out, c_int> {
        match self {
            Q::R { im, res, .. } => {
                let r = res.as_mut().unwrap();
                let (p, i) = r.remapped(im).map_err(code)?;
                Ok((p.into_iter().map(px).collect(), i, bits(r.remapping_error())))
            }
            Q::C { im, res, .. } => unsafe {
                let r = res.as_ref().unwrap().0;
                let mut buf = vec![0u8; n];
                let rc = liq_write_remapped_image(r, im.0, buf.as_mut_ptr().cast(), n);
                if rc != OK { return Err(rc); }
                Ok((pal_px(r), buf, bitsc(liq_get_remapping_error(r))))
            },
        }
    }
}

fn quantize(q: &mut Q, c: &Case) -> Result<Vec<Pal>, c_int> {
    let mut p = vec![];
    q.steps(c, &mut 0, &mut p)?;
    Ok(p)
}
fn remaps(q: &mut Q, c: &Case, o: &mut Vec<Out>) -> Result<(), c_int> {
    while o.len() < c.remaps() {
        o.push(q.remap(c.img.n())?);
    }
    Ok(())
}

fn picks(c: &Case, n: u64, max: u64) -> Vec<u64> {
    if c.all || n <= max {
        return (0..n).collect();
    }
    let mut r = Sm::new(c.seed as u64);
    let mut v = vec![0, n - 1, n - 2];
    while v.len() < max as usize {
        v.push(r.below(n as usize) as u64);
    }
    v.sort_unstable();
    v.dedup();
    v
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "one job (image, or histogram of several images and color lists quantized once or more, Rust/C) run without callback, with a counting callback, and once per chosen report with Break there followed by a repetition; non-trivial: at least 4 reports and a palette of 2 or more colors";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        // several threads: bands, and nothing that depends on the order of summation
        let mt = o.mode == "mt";
        let d = if mt { prop_oneof![9 => (1u32..=8, 129u32..=700), 1 => (1000u32..=1100, 500u32..=600)].boxed() } else { prop_oneof![4 => (1u32..=20, 1u32..=20), 1 => (1u32..=6, 120u32..=300)].boxed() };
        ((img_of(d), settings(), gamma(), dither(), any::<u8>(), prop::collection::vec(color(), 0..3)), (prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 1..5)], any::<bool>(), any::<bool>(), any::<bool>(), prop_oneof![3 => Just(1i32), 1 => Just(-1), 1 => Just(256), 1 => Just(i32::MIN), 1 => Just(2)], prop::bool::weighted(0.1), any::<bool>(), any::<u32>()))
            .prop_map(move |((mut img, mut set, gamma, mut dither, how, fixed), (more, twice, background, capi, go_on, all, forever, seed))| {
                if mt {
                    set = Settings { speed: set.speed.max(7), max_colors: 256, quality: None, posterize: 0, last_transparent: set.last_transparent };
                    img.colors.truncate(60);
                    if dither == 0. {
                        dither = 0.7;
                    }
                    if matches!(img.fill, Fill::Gradient | Fill::Noise | Fill::Noisy(_)) {
                        img.fill = if seed % 2 == 0 { Fill::Random } else { Fill::Runs };
                    }
                }
                Case { img, set, gamma, dither, how, more, twice, fixed, background, capi, go_on, all, forever, seed }
            })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        // without callbacks
        let mut base = Q::new(c, None);
        let bpal = quantize(&mut base, c);
        ensure!(bpal != Err(ABORTED), "aborted without a callback");
        let bmap = if bpal.is_ok() {
            base.prepare_remap(c, None);
            let mut o = vec![];
            let r = remaps(&mut base, c, &mut o);
            ensure!(r != Err(ABORTED), "remap aborted without a callback");
            Some(r.map(|()| o))
        } else {
            None
        };
        // counting
        let ctl = Arc::new(Ctl::new(c));
        let mut q = Q::new(c, Some(&ctl));
        ctl.arm(u64::MAX);
        let r = quantize(&mut q, c);
        ensure!(r == bpal, "with a progress callback that never aborts: {r:?}, without: {bpal:?}");
        let kq = ctl.count();
        let mut kr = 0;
        if r.is_ok() {
            ensure!(kq > 0, "no progress reported during quantization");
            q.prepare_remap(c, Some(&ctl));
            ctl.arm(u64::MAX);
            let mut o = vec![];
            let r = remaps(&mut q, c, &mut o).map(|()| o);
            ensure!(Some(&r) == bmap.as_ref(), "remapping with a progress callback that never aborts differs from the one without");
            kr = ctl.count();
            ensure!(kr > 0, "no progress reported during remapping");
        }
        let bad = *ctl.bad.lock().unwrap();
        ensure!(bad.is_none(), "progress of {bad:?} percent");
        drop(q);
        // Break during quantization
        for k in picks(c, kq, if c.img.n() > 200 { 6 } else { 10 }) {
            let ctl = Arc::new(Ctl::new(c));
            let mut q = Q::new(c, Some(&ctl));
            ctl.arm(k);
            let mut s = 0;
            let mut pals = vec![];
            let r = q.steps(c, &mut s, &mut pals);
            ensure!(r == Err(ABORTED), "Break at report {k} of {kq} during step {s} of {:?} gave {r:?}", c.steps());
            ensure!(ctl.count() == k + 1, "{} reports although report {k} said Break", ctl.count());
            ctl.arm(u64::MAX);
            let r = q.steps(c, &mut s, &mut pals).map(|()| pals);
            ensure!(r == bpal, "repeated after Break at report {k} of {kq}: {r:?}, expected {bpal:?}");
            if r.is_ok() {
                q.prepare_remap(c, None);
                let mut o = vec![];
                let r = remaps(&mut q, c, &mut o).map(|()| o);
                ensure!(Some(&r) == bmap.as_ref(), "remap after a repeated quantization differs (break at {k} of {kq})");
            }
            st.label("quantization aborted");
        }
        // Break during remapping
        for k in picks(c, kr, 6) {
            let ctl = Arc::new(Ctl::new(c));
            let mut q = Q::new(c, None);
            ensure!(quantize(&mut q, c).is_ok(), "quantize failed");
            let e0 = q.pal();
            q.prepare_remap(c, Some(&ctl));
            ctl.arm(k);
            let mut o = vec![];
            let r = remaps(&mut q, c, &mut o);
            ensure!(r == Err(ABORTED), "Break at report {k} of {kr} during remapping gave {r:?}");
            ensure!(ctl.count() == k + 1, "{} reports although report {k} of the remap said Break", ctl.count());
            let e0 = if let (Some(o), false) = (o.last(), c.capi) { (o.0.clone(), e0.1) } else { e0 };
            ensure!(q.pal() == e0, "palette changed by an aborted remap");
            ctl.arm(u64::MAX);
            // a dither map may have been made
            if c.dither > 0. && c.set.uses_dither_map() && k > 0 {
                let quantized_image = c.how % 4 != 2;
                q.fresh_image(c);
                if quantized_image {
                    // (edges found while quantizing are part of the image)
                    let r = match &mut q {
                        Q::R { a, im, .. } => a.quantize(im).map(|_| ()).map_err(code),
                        Q::C { a, im, .. } => unsafe {
                            let mut r = std::ptr::null_mut();
                            let rc = liq_image_quantize(im.0, a.0, &mut r);
                            drop(CResult(r));
                            if rc == OK { Ok(()) } else { Err(rc) }
                        },
                    };
                    let _ = r;
                }
            }
            let r = remaps(&mut q, c, &mut o).map(|()| o);
            ensure!(Some(&r) == bmap.as_ref(), "remap repeated after Break at report {k} of {kr} differs from an undisturbed one");
            if let Ok(o) = &r {
                ensure!(q.pal_now() == o[o.len() - 1].0, "palette after the repeated remap is not the one of that remap");
            }
            st.label("remap aborted");
        }
        st.label(if c.capi { "C" } else { "Rust" });
        st.nontrivial(kq >= 4 && bpal.as_ref().map_or(false, |p| p[0].0.len() >= 2 || c.capi));
        Ok(())
    }
}
