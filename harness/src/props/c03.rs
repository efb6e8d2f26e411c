//! Undithered remap = brute-force nearest; true error.
use crate::common::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pal {
    Frozen { colors: Vec<Px> },
    FrozenGen { seed: u32, n: u16, style: u8 },
    Quantized { s: Settings, fixed: Vec<Px> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pal: Pal,
    img: Img,
    /// pixels derived from the palette: jitter amplitude (0: none)
    near: u8,
    pal_gamma: f64,
    img_gamma: f64,
    imp: Option<u32>,
    speed: u8,
}
pub struct P;

pub fn jitter(pal: &[Px], n: usize, amp: u8, seed: u32) -> Vec<imagequant::RGBA> {
    let mut r = Sm::new(seed as u64 ^ 0x9999);
    let mut hold = 0;
    let mut cur = pal[0];
    (0..n)
        .map(|_| {
            if hold == 0 {
                hold = 1 + r.below(4);
                cur = pal[r.below(pal.len())];
                if r.below(6) == 0 {
                    // between two palette entries
                    let o = pal[r.below(pal.len())];
                    for k in 0..4 {
                        cur[k] = ((cur[k] as u16 + o[k] as u16) / 2) as u8;
                    }
                }
            }
            hold -= 1;
            let mut c = cur;
            for k in 0..4 {
                if k == 3 && c[3] == 255 && r.below(8) != 0 {
                    continue;
                }
                let d = r.below(2 * amp as usize + 1) as i32 - amp as i32;
                c[k] = (c[k] as i32 + d).clamp(0, 255) as u8;
            }
            rgba(c)
        })
        .collect()
}

pub fn check_nearest(pixels: &[imagequant::RGBA], img_gamma: f64, pal: &[imagequant::RGBA], pal_gamma: f64, idx: &[u8], reported: Option<f64>) -> R {
    let pv = pal_vecs(pal, pal_gamma);
    let l = lut(img_gamma);
    let mut sum = 0.;
    let mut sum_min = 0.;
    let mut memo: std::collections::HashMap<u32, (V, usize, f64)> = std::collections::HashMap::new();
    for (i, &p) in pixels.iter().enumerate() {
        let k = u32::from_le_bytes(px(p));
        let (v, best, bd) = *memo.entry(k).or_insert_with(|| {
            let v = vec_of(&l, canon(px(p)));
            let (b, d) = nearest(&pv, &v);
            (v, b, d)
        });
        let got = diff(&pv[idx[i] as usize], &v);
        if got.sqrt() > bd.sqrt() + 1e-5 {
            return Err(format!("pixel {i} {:?} got entry {} {:?} at distance {:.6}, but entry {} {:?} is at {:.6}", px(p), idx[i], px(pal[idx[i] as usize]), got.sqrt(), best, px(pal[best]), bd.sqrt()));
        }
        sum += got;
        sum_min += bd;
    }
    if let Some(e) = reported {
        let want = std_mse(sum / pixels.len() as f64);
        ensure!((e - want).abs() <= want * 1e-3 + 1e-6, "reported remapping error {e}, true mean error {want} (minimum {})", std_mse(sum_min / pixels.len() as f64));
    } else {
        return Err("no remapping error after an undithered remap".into());
    }
    Ok(())
}

/// more than 2^32 pixels, all rows alike
fn huge(c: &Case, st: &mut Stats) -> R {
    let (w, h) = (c.img.w as usize, c.img.h as usize);
    let Pal::Frozen { colors } = &c.pal else { return Err("bad case".into()) };
    let mut a = imagequant::new();
    a.set_speed(10).map_err(e2s)?;
    let mut res = frozen_palette(&a, colors, 0.).map_err(e2s)?;
    res.set_dithering_level(0.).map_err(e2s)?;
    let row: Vec<_> = (0..w).map(|x| rgba(c.img.colors[x % c.img.colors.len()])).collect();
    let r2 = row.clone();
    let mut im = unsafe { imagequant::Image::new_fn(&a, move |o: &mut [std::mem::MaybeUninit<imagequant::RGBA>], _| { for (o, p) in o.iter_mut().zip(&r2) { o.write(*p); } }, w, h, 0.) }.map_err(e2s)?;
    let (pal, idx) = match res.remapped(&mut im) {
        Err(imagequant::Error::OutOfMemory) => return Ok(()), // this machine is too small
        r => r.map_err(e2s)?,
    };
    ensure!(idx.len() == w * h, "{} indices for {} pixels", idx.len(), w * h);
    let first = &idx[..w];
    check_indices(&pal, first, w, 256)?;
    for (y, r) in idx.chunks_exact(w).enumerate() {
        ensure!(r == first, "row {y} differs from row 0 although the pixels are the same");
    }
    check_nearest(&row, eff_gamma(0.), &pal, eff_gamma(0.), first, res.remapping_error())?;
    st.label("more than 2^32 pixels");
    st.nontrivial(true);
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "palette (frozen arbitrary colors, or quantized) x image; non-trivial: at least 4 palette entries and a non-zero remapping error";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let mode = o.mode.clone();
        if mode == "huge" {
            let d = prop_oneof![Just((65536u32, 65537u32)), Just((66000, 65100)), Just((32769, 131072)), Just((92700, 46400))];
            return (d, colors(1..5), colors(1..4), any::<u32>()).prop_map(|((w, h), colors, pal, seed)| Case { pal: Pal::Frozen { colors: pal }, img: Img { w, h, fill: Fill::Stripes(1), colors, seed }, near: 0, pal_gamma: 0., img_gamma: 0., imp: None, speed: 10 }).boxed();
        }
        let (d, big) = mode_dims(&mode);
        let im = img_of(d);
        let pal = prop_oneof![
            3 => colors(1..12).prop_map(|colors| Pal::Frozen { colors }),
            3 => colors(2..120).prop_map(|colors| Pal::Frozen { colors }),
            5 => (any::<u32>(), 2u16..=256, 0u8..6).prop_map(|(seed, n, style)| Pal::FrozenGen { seed, n, style }),
            2 => (settings(), prop_oneof![2 => Just(vec![]), 1 => colors(1..4)]).prop_map(|(s, fixed)| Pal::Quantized { s, fixed }),
        ];
        (pal, im, prop_oneof![1 => Just(0u8), 1 => 1u8..8, 1 => 1u8..80], gamma(), gamma(), any::<bool>(), prop::option::weighted(0.15, any::<u32>()), speed())
            .prop_map(move |(mut pal, img, near, pal_gamma, g2, same, imp, mut speed)| {
                if big {
                    speed = speed.max(7);
                    if let Pal::Quantized { s, .. } = &mut pal {
                        s.speed = s.speed.max(7);
                    }
                }
                Case { pal, img, near, pal_gamma, img_gamma: if same { pal_gamma } else { g2 }, imp, speed }
            })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let (w, h) = (c.img.w as usize, c.img.h as usize);
        let n = w * h;
        if n > 1 << 30 {
            return huge(c, st);
        }
        let mut gamma = c.pal_gamma;
        let mut img_gamma = c.img_gamma;
        let mut pixels = c.img.pixels();
        let mut res = match &c.pal {
            Pal::Quantized { s, fixed } => {
                let mut s = s.clone();
                if let Some(q) = s.quality {
                    s.quality = Some((0, q.1));
                }
                let a = s.attr();
                img_gamma = gamma;
                let mut im = imagequant::Image::new_borrowed(&a, &pixels, w, h, gamma).map_err(e2s)?;
                for &f in fixed {
                    im.add_fixed_color(rgba(f)).map_err(e2s)?;
                }
                a.quantize(&mut im).map_err(e2s)?
            }
            p => {
                let cols = match p {
                    Pal::Frozen { colors } => colors.clone(),
                    Pal::FrozenGen { seed, n, style } => expand_colors(*seed, *n as usize, *style),
                    _ => unreachable!(),
                };
                if gamma >= 1. {
                    gamma = 0.99;
                }
                if c.near > 0 {
                    pixels = jitter(&cols, n, c.near, c.img.seed);
                }
                let mut a = imagequant::new();
                a.set_speed(c.speed as i32).map_err(e2s)?;
                frozen_palette(&a, &cols, gamma).map_err(e2s)?
            }
        };
        res.set_dithering_level(0.).map_err(e2s)?;
        let a = imagequant::new();
        let mut im = imagequant::Image::new_borrowed(&a, &pixels, w, h, img_gamma).map_err(e2s)?;
        if let Some(s) = c.imp {
            let mut r = Sm::new(s as u64);
            im.set_importance_map((0..n).map(|_| r.below(256) as u8).collect::<Vec<_>>()).map_err(e2s)?;
        }
        let (pal, idx) = res.remapped(&mut im).map_err(e2s)?;
        check_indices(&pal, &idx, n, 256)?;
        let e = res.remapping_error();
        check_nearest(&pixels, eff_gamma(img_gamma), &pal, eff_gamma(gamma), &idx, e)?;
        let q = res.remapping_quality();
        ensure!(q.is_some(), "no remapping quality");
        ensure!(e.unwrap() > 0. || q == Some(100), "zero error but quality {q:?}");
        st.label(match c.pal { Pal::Quantized { .. } => "quantized palette", _ => "frozen palette" });
        if pal.len() > 7 { st.label("tree search (palette > 7)"); }
        if n > 1 << 22 { st.label("streamed image"); }
        st.nontrivial(pal.len() >= 4 && e.unwrap() > 0.);
        Ok(())
    }
}
