//! Gamma: palettes in the requested output gamma over histories of setting and reading.
use crate::common::*;
use imagequant::{Histogram, HistogramEntry, QuantizationResult};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Gamma(f64),
    BadGamma(u8),
    Palette(bool),
    Len,
    Dither(f32),
    Remap(bool),
    Clone(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: Img,
    set: Settings,
    gamma: f64,
    /// 0 image, 1 histogram of the image, 2 histogram of colors, 3 colors then image, 4 fixed colors only
    how: u8,
    /// which of the additions leave the gamma at 0
    zero: u8,
    lossy: bool,
    ops: Vec<Op>,
}
pub struct P;

const SLACK: f64 = 0.06;

/// possible output values for a linear value within [lo, hi]^(…)
fn fits(out: u8, lo: f64, hi: f64) -> bool {
    let l = ((lo - SLACK).max(0.).floor() as i64).min(255);
    let h = ((hi + SLACK).floor() as i64).min(255);
    (l..=h).contains(&(out as i64))
}
/// output of an exactly known input color
fn exact_ok(c: Px, o: Px, ratio: f64) -> bool {
    if c[3] == 0 {
        return o[3] == 0;
    }
    c[3] == o[3] && (0..3).all(|k| { let v = 256. * (c[k] as f64 / 255.).powf(ratio); fits(o[k], v, v) })
}
/// output under another gamma of a color known as truncated value
fn interval_ok(c: Px, o: Px, ratio: f64) -> bool {
    if c[3] == 0 {
        return o[3] == 0;
    }
    // the slack grows where the curve is steep
    c[3] == o[3] && (0..3).all(|k| {
        let e = 0.02;
        let lo = 256. * ((c[k] as f64 - e).max(0.) / 256.).powf(ratio);
        let hi = if c[k] == 255 { 256. } else { 256. * ((c[k] as f64 + 1. + e) / 256.).powf(ratio) };
        fits(o[k], lo, hi)
    })
}

fn pal_of(r: &mut QuantizationResult) -> Vec<Px> {
    r.palette_vec().into_iter().map(px).map(canon).collect()
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "image or histogram job with an input gamma, then a history of setting output gammas, reading palettes, remapping and cloning; every palette read is compared with the closed formula; non-trivial: at least 2 palettes of 2 or more colors read under different output gammas";
    fn strategy(_: &Opts) -> BoxedStrategy<Case> {
        let og = || prop_oneof![4 => (50u32..=990).prop_map(|x| x as f64 / 1000.), 1 => Just(0.45455), 1 => Just(1. / 1.8), 1 => Just(0.99999)];
        let op = prop_oneof![
            4 => og().prop_map(Op::Gamma),
            1 => any::<u8>().prop_map(Op::BadGamma),
            4 => any::<bool>().prop_map(Op::Palette),
            1 => Just(Op::Len),
            1 => dither().prop_map(Op::Dither),
            3 => any::<bool>().prop_map(Op::Remap),
            1 => any::<bool>().prop_map(Op::Clone),
        ];
        (small_img(), plain_settings(), gamma(), any::<u8>(), any::<u8>(), prop::bool::weighted(0.4), prop::collection::vec(op, 1..14))
            .prop_map(|(mut img, mut set, gamma, how, zero, lossy, ops)| {
                if !lossy {
                    if matches!(img.fill, Fill::Gradient | Fill::Noisy(_) | Fill::Noise) { img.fill = Fill::Random; }
                    img.colors.truncate(40);
                    set.max_colors = set.max_colors.max(64);
                    set.speed = set.speed.min(7); // higher speeds ignore low bits
                }
                Case { img, set, gamma, how, zero, lossy, ops }
            })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let a = c.set.attr();
        let how = c.how % 5;
        let pixels = c.img.pixels();
        let mut im = new_image(&a, &c.img, c.gamma);
        let cg = if c.gamma >= 1. && how >= 2 && how != 4 { 0.999 } else { c.gamma };
        let mut want = eff_gamma(c.gamma);
        let zero = |k: u8| c.zero >> k & 1 == 1;
        let ent: Vec<HistogramEntry> = c.img.colors.iter().map(|&p| HistogramEntry { color: rgba(p), count: 3 }).collect();
        let mut known: Vec<Px> = match how {
            2 => c.img.colors.iter().map(|&p| canon(p)).collect(),
            3 => color_set(&pixels).into_iter().chain(c.img.colors.iter().map(|&p| canon(p))).collect(),
            4 => c.img.colors.iter().map(|&p| canon(p)).collect(),
            _ => color_set(&pixels).into_iter().collect(),
        };
        let r = match how {
            0 => a.quantize(&mut im),
            1 => {
                let mut h = Histogram::new(&a);
                h.add_image(&a, &mut im).map_err(e2s)?;
                h.quantize(&a)
            }
            2 => {
                // the gamma may come with any of the additions
                let mut h = Histogram::new(&a);
                let m = ent.len() / 2;
                let (g1, g2) = if zero(0) || m == 0 { (0., cg) } else if zero(1) { (cg, 0.) } else { (cg, cg) };
                if m > 0 { h.add_colors(&ent[..m], g1).map_err(e2s)?; }
                h.add_colors(&ent[m..], g2).map_err(e2s)?;
                want = eff_gamma(cg);
                h.quantize(&a)
            }
            3 => {
                let mut h = Histogram::new(&a);
                h.add_colors(&ent, if zero(0) || c.gamma >= 1. { 0. } else { cg }).map_err(e2s)?;
                h.add_image(&a, &mut im).map_err(e2s)?;
                if zero(2) { h.add_colors(&ent, 0.).map_err(e2s)?; }
                h.quantize(&a)
            }
            _ => {
                let mut h = Histogram::new(&a);
                for (k, &p) in c.img.colors.iter().take(c.set.max_colors as usize).enumerate() {
                    h.add_fixed_color(rgba(p), if k == 0 && zero(0) && c.img.colors.len() > 1 { 0. } else { c.gamma }).map_err(e2s)?;
                }
                h.quantize(&a)
            }
        };
        known.sort_unstable();
        known.dedup();
        let mut r = match r {
            Ok(r) => r,
            Err(e) => return Err(format!("quantize: {e:?}")),
        };
        ensure!(r.output_gamma() == want, "the default output gamma is {}, expected that of the input, {want}", r.output_gamma());
        let base = pal_of(&mut r.clone());
        let lossless = !c.lossy && known.len() <= c.set.max_colors as usize && (how != 4 || c.img.colors.len() <= c.set.max_colors as usize);
        if lossless {
            let mut b = base.clone();
            b.sort_unstable();
            b.dedup();
            ensure!(b == known, "palette under the default gamma is {b:?} for colors {known:?}");
        }
        // refined: palette of the latest remap, if it may have been adjusted to the image
        let mut cur = want;
        let mut reads = std::collections::BTreeSet::new();
        let mut refined: Option<Vec<Px>> = None;
        let mut level = 1.0f32;
        let check_pal = |p: &[Px], cur: f64, what: &str| -> R {
            let reference = &base;
            ensure!(p.len() == reference.len(), "{what}: {} colors instead of {}", p.len(), reference.len());
            for (i, (&o, &b)) in p.iter().zip(reference).enumerate() {
                let ok = if lossless { exact_ok(b, o, cur / want) } else { interval_ok(b, o, cur / want) };
                ensure!(ok, "{what}: entry {i} is {o:?} with output gamma {cur}, but {b:?} with the input gamma {want}");
                if cur == want && lossless { ensure!(o == b, "{what}: entry {i} is {o:?} instead of {b:?}"); }
            }
            Ok(())
        };
        for (k, op) in c.ops.iter().enumerate() {
            let what = format!("step {k} {op:?}");
            match op {
                Op::Gamma(g) => {
                    r.set_output_gamma(*g).map_err(e2s)?;
                    cur = *g;
                    refined = None;
                }
                Op::BadGamma(b) => {
                    let v = [0., -0.1, 1., 1.5, f64::NAN, f64::INFINITY][*b as usize % 6];
                    ensure!(r.set_output_gamma(v).is_err(), "output gamma {v} accepted");
                }
                Op::Palette(v) => {
                    let p: Vec<Px> = if *v { pal_of(&mut r) } else { r.palette().iter().map(|&c| canon(px(c))).collect() };
                    match &refined {
                        Some(q) => ensure!(&p == q, "{what}: palette differs from that of the latest remap"),
                        None => check_pal(&p, cur, &what)?,
                    }
                    if p.len() > 1 { reads.insert(cur.to_bits()); }
                }
                Op::Len => ensure!(r.palette_len() == base.len(), "{what}: length {}", r.palette_len()),
                Op::Dither(d) => {
                    r.set_dithering_level(*d).map_err(e2s)?;
                    level = *d;
                    refined = None;
                }
                Op::Remap(same) => {
                    let mut j = new_image(&a, &c.img, if *same { c.gamma } else { 0.6 });
                    let (p, _) = r.remapped(&mut j).map_err(e2s)?;
                    let p: Vec<Px> = p.into_iter().map(px).map(canon).collect();
                    ensure!(pal_of(&mut r) == p, "{what}: the palette read afterwards differs from the one returned");
                    if level > 0. && how == 0 && !(lossless && *same) {
                        // the palette may have been adjusted to the image
                        refined = Some(p);
                        st.label("palette of a remap, adjusted");
                        continue;
                    }
                    check_pal(&p, cur, &what)?;
                    refined = None;
                    if p.len() > 1 { reads.insert(cur.to_bits()); }
                    st.label("palette of a remap");
                }
                Op::Clone(keep) => {
                    let cl = r.clone();
                    if *keep { r = cl; } else {
                        let mut cl = cl;
                        cl.set_output_gamma(0.123).map_err(e2s)?;
                        let p = pal_of(&mut cl);
                        check_pal(&p, 0.123, &what)?;
                    }
                }
            }
            ensure!(r.output_gamma() == cur, "{what}: output_gamma() is {} instead of {cur}", r.output_gamma());
        }
        st.label(if lossless { "lossless" } else { "lossy" });
        st.label(["image", "histogram", "colors", "colors and image", "fixed colors"][how as usize]);
        st.nontrivial(reads.len() >= 2);
        Ok(())
    }
}
