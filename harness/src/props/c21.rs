//! Result objects over histories of reads, remaps, setting changes and clones, against a fresh computation of every step.
use crate::common::*;
use imagequant::{Attributes, Error, Histogram, Image, QuantizationResult};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::mem::MaybeUninit;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// slot, image, through which call
    Remap(u8, u8, u8),
    SmallBuffer(u8, u8),
    Palette(u8),
    PaletteVec(u8),
    Len(u8),
    Errors(u8),
    Dither(u8, f32),
    BadDither(u8, u8),
    Gamma(u8, f64),
    BadGamma(u8, u8),
    Clone(u8),
    Drop(u8),
    Move(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    imgs: Vec<Img>,
    set: Settings,
    gamma: f64,
    hist: bool,
    fixed: Vec<Px>,
    importance: Option<u32>,
    background: bool,
    ops: Vec<Op>,
}
pub struct P;

/// what a remap gives
#[derive(Clone, PartialEq, Debug)]
struct Out {
    pal: Vec<Px>,
    idx: Vec<u8>,
    err: Option<u64>,
    qual: Option<u8>,
}

fn raw_image(c: &Case, a: &Attributes, k: usize) -> Image<'static> {
    let mut im = new_image(a, &c.imgs[k], c.gamma);
    if k == 0 {
        for &f in &c.fixed {
            im.add_fixed_color(rgba(f)).unwrap();
        }
        if let Some(s) = c.importance {
            let mut r = Sm::new(s as u64);
            im.set_importance_map((0..c.imgs[0].n()).map(|_| r.next() as u8 | 1).collect::<Vec<_>>()).unwrap();
        }
    }
    // some of the images
    if c.background && (c.imgs.len() == 1 || c.imgs[k].seed % 3 != 0) {
        let bg: Vec<_> = c.imgs[k].pixels().into_iter().rev().collect();
        im.set_background(Image::new(a, bg, c.imgs[k].w as usize, c.imgs[k].h as usize, c.gamma).unwrap()).unwrap();
    }
    im
}
/// quantizes from scratch; the first image has been used for it
fn fresh(c: &Case) -> (Attributes, Image<'static>, Result<QuantizationResult, Error>) {
    let a = c.set.attr();
    let mut im = raw_image(c, &a, 0);
    let r = if c.hist {
        let mut h = Histogram::new(&a);
        h.add_image(&a, &mut im).and_then(|()| h.quantize(&a))
    } else {
        a.quantize(&mut im)
    };
    (a, im, r)
}
fn pxs(v: &[imagequant::RGBA]) -> Vec<Px> {
    v.iter().map(|&p| px(p)).collect()
}

struct Slot {
    r: QuantizationResult,
    level: f32,
    /// None: not changed
    gamma: Option<f64>,
    last: Option<Out>,
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "up to 25 operations on one result object and its clones: reads of palette, length, errors; remaps of 1-3 images through several calls; valid and invalid setting changes; clones, drops, moves to other threads; every observation compared with a computation from scratch that makes no other call; non-trivial: at least 2 remaps with 2 or more colors, separated by a setting change, clone or palette read";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let s = any::<u8>;
        if o.mode == "big" {
            // a small image and one that is too large for dither maps at speeds 3-6, remapped in turns
            let large = prop_oneof![Just((2001u32, 2001u32)), Just((1000, 4010)), Just((4097, 1000))].boxed();
            let op = prop_oneof![
                5 => (s(), s(), s()).prop_map(|(a, b, c)| Op::Remap(a, b, c)),
                1 => (s(), dither()).prop_map(|(a, b)| Op::Dither(a, b)),
                1 => s().prop_map(Op::Errors),
                1 => s().prop_map(Op::Clone),
            ];
            return (img_of((5u32..=24, 5u32..=24).boxed()), img_of(large), settings(), 3u8..=7, gamma(), any::<bool>(), prop::collection::vec(op, 0..3))
                .prop_map(|(a, b, mut set, speed, gamma, hist, more)| {
                    set.quality = set.quality.map(|(_, t)| (0, t));
                    set.speed = speed;
                    set.max_colors = set.max_colors.min(40);
                    let mut ops = vec![Op::Remap(0, 0, 1), Op::Remap(0, 1, 1), Op::Errors(0)];
                    ops.extend(more);
                    Case { imgs: vec![a, b], set, gamma, hist, fixed: vec![], importance: None, background: false, ops }
                })
                .boxed();
        }
        let op = prop_oneof![
            6 => (s(), s(), s()).prop_map(|(a, b, c)| Op::Remap(a, b, c)),
            1 => (s(), s()).prop_map(|(a, b)| Op::SmallBuffer(a, b)),
            3 => s().prop_map(Op::Palette),
            2 => s().prop_map(Op::PaletteVec),
            1 => s().prop_map(Op::Len),
            2 => s().prop_map(Op::Errors),
            3 => (s(), dither()).prop_map(|(a, b)| Op::Dither(a, b)),
            1 => (s(), s()).prop_map(|(a, b)| Op::BadDither(a, b)),
            2 => (s(), (100u32..=990).prop_map(|x| x as f64 / 1000.)).prop_map(|(a, b)| Op::Gamma(a, b)),
            1 => (s(), s()).prop_map(|(a, b)| Op::BadGamma(a, b)),
            2 => s().prop_map(Op::Clone),
            1 => s().prop_map(Op::Drop),
            1 => s().prop_map(Op::Move),
        ];
        let d = prop_oneof![3 => (1u32..=10, 1u32..=10), 2 => (1u32..=24, 1u32..=24), 1 => (1u32..=3, 120u32..=150)].boxed();
        (prop::collection::vec(img_of(d), 1..4), settings(), gamma(), prop::bool::weighted(0.35), prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(color(), 1..5)], prop::option::weighted(0.25, any::<u32>()), prop::bool::weighted(0.25), prop::collection::vec(op, 2..25))
            .prop_map(|(imgs, mut set, gamma, hist, fixed, importance, background, ops)| {
                set.quality = set.quality.map(|(_, t)| (0, t));
                set.speed = set.speed.max(3);
                Case { imgs, set, gamma, hist, fixed, importance, background, ops }
            })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let (a, img0, r) = fresh(c);
        let r = match r {
            Ok(r) => r,
            Err(e) => return Err(format!("quantize: {e:?}")),
        };
        let (q_err, q_qual) = (r.quantization_error(), r.quantization_quality());
        let mut want_pal: HashMap<u64, Vec<Px>> = HashMap::new();
        let mut want_out: HashMap<(u32, u64, usize), Out> = HashMap::new();
        // palette of the quantization in a gamma
        let mut quantized = |g: Option<f64>| -> Vec<Px> {
            want_pal.entry(g.map_or(0, f64::to_bits)).or_insert_with(|| {
                let mut r = fresh(c).2.unwrap();
                if let Some(g) = g { r.set_output_gamma(g).unwrap(); }
                pxs(r.palette())
            }).clone()
        };
        let mut expected = |level: f32, g: Option<f64>, k: usize| -> Result<Out, String> {
            let key = (level.to_bits(), g.map_or(0, f64::to_bits), k);
            if let Some(o) = want_out.get(&key) {
                return Ok(o.clone());
            }
            let (a, im, r) = fresh(c);
            let mut im = if k == 0 { im } else { raw_image(c, &a, k) };
            let mut r = r.map_err(e2s)?;
            if let Some(g) = g { r.set_output_gamma(g).unwrap(); }
            r.set_dithering_level(level).unwrap();
            let (p, idx) = r.remapped(&mut im).map_err(e2s)?;
            let o = Out { pal: pxs(&p), idx, err: r.remapping_error().map(f64::to_bits), qual: r.remapping_quality() };
            want_out.insert(key, o.clone());
            Ok(o)
        };
        // images that live through the whole history, for undithered remaps
        let mut live: Vec<Image> = (0..c.imgs.len()).map(|k| if k == 0 { img0.clone() } else { raw_image(c, &a, k) }).collect();
        let mut slots = vec![Slot { r, level: 1., gamma: None, last: None }];
        let (mut remaps, mut between, mut nontrivial) = (0, false, false);
        for (step, op) in c.ops.iter().enumerate() {
            let n = slots.len();
            let what = format!("step {step} {op:?}");
            let now = |s: &Slot, quantized: &mut dyn FnMut(Option<f64>) -> Vec<Px>| s.last.as_ref().map_or_else(|| quantized(s.gamma), |o| o.pal.clone());
            match *op {
                Op::Remap(s, k, how) => {
                    let s = &mut slots[s as usize % n];
                    let k = k as usize % live.len();
                    let mut own;
                    let im = if s.level == 0. && how & 1 == 0 {
                        &mut live[k]
                    } else {
                        own = if k == 0 { img0.clone() } else { raw_image(c, &a, k) };
                        &mut own
                    };
                    let area = c.imgs[k].n();
                    let (pal, idx) = match how >> 1 & 3 {
                        0 => {
                            let (p, i) = s.r.remapped(im).map_err(|e| format!("{what}: {e:?}"))?;
                            (Some(pxs(&p)), i)
                        }
                        1 => {
                            let mut v = vec![7u8; how as usize];
                            let p = s.r.remap_into_vec(im, &mut v).map_err(|e| format!("{what}: {e:?}"))?;
                            (Some(pxs(&p)), v)
                        }
                        _ => {
                            let mut buf = vec![MaybeUninit::new(0xAAu8); area + (how >> 4) as usize];
                            s.r.remap_into(im, &mut buf).map_err(|e| format!("{what}: {e:?}"))?;
                            (None, buf[..area].iter().map(|b| unsafe { b.assume_init() }).collect())
                        }
                    };
                    let want = expected(s.level, s.gamma, k)?;
                    if let Some(p) = pal {
                        ensure!(p == want.pal, "{what}: returned palette {p:?}, from scratch {:?} (level {}, gamma {:?})", want.pal, s.level, s.gamma);
                    }
                    ensure!(idx == want.idx, "{what}: other indices than from scratch (level {}, gamma {:?}): {idx:?} instead of {:?}", s.level, s.gamma, want.idx);
                    ensure!(same_err(s.r.remapping_error(), want.err.map(f64::from_bits)) && s.r.remapping_quality() == want.qual, "{what}: error {:?} quality {:?}, from scratch {:?} {:?}", s.r.remapping_error(), s.r.remapping_quality(), want.err.map(f64::from_bits), want.qual);
                    if want.pal.len() > 1 {
                        nontrivial |= remaps > 0 && between;
                        remaps += 1;
                        between = false;
                    }
                    s.last = Some(want);
                    st.label(if s.level == 0. { "undithered remap" } else { "dithered remap" });
                }
                Op::SmallBuffer(s, k) => {
                    let s = &mut slots[s as usize % n];
                    let k = k as usize % live.len();
                    let mut im = live[k].clone();
                    let mut buf = vec![MaybeUninit::new(0u8); c.imgs[k].n() - 1];
                    ensure!(s.r.remap_into(&mut im, &mut buf) == Err(Error::BufferTooSmall), "{what}: too small buffer accepted");
                }
                Op::Palette(s) => {
                    let s = &mut slots[s as usize % n];
                    let want = now(s, &mut quantized);
                    let got = pxs(s.r.palette());
                    ensure!(got == want, "{what}: palette() is {got:?} instead of {want:?} (after remap: {})", s.last.is_some());
                    between = true;
                    st.label(if s.last.is_some() { "palette read after remap" } else { "quantized palette read" });
                }
                Op::PaletteVec(s) => {
                    let s = &mut slots[s as usize % n];
                    let want = now(s, &mut quantized);
                    let got = pxs(&s.r.palette_vec());
                    ensure!(got == want, "{what}: palette_vec() is {got:?} instead of {want:?} (after remap: {})", s.last.is_some());
                    between = true;
                }
                Op::Len(s) => {
                    let s = &mut slots[s as usize % n];
                    let want = now(s, &mut quantized).len();
                    ensure!(s.r.palette_len() == want, "{what}: palette_len() is {} instead of {want}", s.r.palette_len());
                }
                Op::Errors(s) => {
                    let s = &mut slots[s as usize % n];
                    let (err, qual) = s.last.as_ref().map_or((q_err.map(f64::to_bits), q_qual), |o| (o.err, o.qual));
                    ensure!(same_err(s.r.remapping_error(), err.map(f64::from_bits)) && s.r.remapping_quality() == qual, "{what}: remapping error {:?} and quality {:?} instead of {:?} and {qual:?}", s.r.remapping_error(), s.r.remapping_quality(), err.map(f64::from_bits));
                }
                Op::Dither(s, v) => {
                    let s = &mut slots[s as usize % n];
                    if v != s.level {
                        s.r.set_dithering_level(v).map_err(|e| format!("{what}: {e:?}"))?;
                        s.level = v;
                        s.last = None;
                        between = true;
                    }
                }
                Op::BadDither(s, v) => {
                    let v = [-0.1, 1.1, f32::NAN, f32::INFINITY, -1., 2.][v as usize % 6];
                    ensure!(slots[s as usize % n].r.set_dithering_level(v) == Err(Error::ValueOutOfRange), "{what}: level {v} accepted");
                }
                Op::Gamma(s, v) => {
                    let s = &mut slots[s as usize % n];
                    if v != s.r.output_gamma() {
                        s.r.set_output_gamma(v).map_err(|e| format!("{what}: {e:?}"))?;
                        s.gamma = Some(v);
                        s.last = None;
                        between = true;
                    }
                }
                Op::BadGamma(s, v) => {
                    let v = [-0.1, 1.1, f64::NAN, f64::INFINITY, 0., 1.][v as usize % 6];
                    ensure!(slots[s as usize % n].r.set_output_gamma(v) == Err(Error::ValueOutOfRange), "{what}: gamma {v} accepted");
                }
                Op::Clone(s) => {
                    let s = &slots[s as usize % n];
                    let t = Slot { r: s.r.clone(), level: s.level, gamma: s.gamma, last: s.last.clone() };
                    if n < 6 { slots.push(t); }
                    between = true;
                    st.label("clone");
                }
                Op::Drop(s) => {
                    if n > 1 {
                        slots.swap_remove(s as usize % n);
                    }
                }
                Op::Move(s) => {
                    // used on another thread and back
                    let i = s as usize % n;
                    let s = slots.swap_remove(i);
                    let s = std::thread::spawn(move || { let mut s = s; let _ = s.r.palette_len(); s }).join().unwrap();
                    slots.push(s);
                }
            }
            for s in &slots {
                ensure!(s.r.quantization_error().map(f64::to_bits) == q_err.map(f64::to_bits) && s.r.quantization_quality() == q_qual, "{what}: quantization error changed from {q_err:?} to {:?}", s.r.quantization_error());
                ensure!(s.gamma.map_or(true, |g| s.r.output_gamma() == g), "{what}: output gamma is {} instead of {:?}", s.r.output_gamma(), s.gamma);
            }
        }
        // in the end every object still gives what it should
        for (i, s) in slots.iter_mut().enumerate() {
            let want = s.last.as_ref().map_or_else(|| quantized(s.gamma), |o| o.pal.clone());
            let got = pxs(s.r.palette());
            ensure!(got == want, "at the end, object {i}: palette {got:?} instead of {want:?}");
        }
        st.label(if c.hist { "histogram" } else { "image" });
        st.nontrivial(nontrivial);
        Ok(())
    }
}
