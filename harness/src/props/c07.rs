//! Output posterization.
use crate::common::*;
use imagequant::{Error, Histogram, HistogramEntry};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: Img,
    s: Settings,
    fixed: Vec<Px>,
    /// 0 image, 1 histogram of images, 2 histogram of colors, 3 fixed colors only
    via: u8,
    gamma: f64,
    out_gamma: Option<f64>,
    dithers: Vec<f32>,
    read_first: bool,
    /// few colors: lossless path
    few: bool,
}
pub struct P;

fn all_posterized(pal: &[imagequant::RGBA], bits: u8, what: &str) -> R {
    for &p in pal {
        ensure!(posterize_ok(px(p), bits), "{what}: entry {:?} is not posterized to {bits} ignored bits", px(p));
    }
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "image/histogram x posterization bits 0-4 x output gamma x remaps; non-trivial: bits > 0 and a palette of at least 3 entries, at least one of which is not fully transparent, or bits = 0 with an exact palette";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let crowd = o.mode == "crowd";
        (
            (if crowd { crowd_img() } else { small_img() }, settings(), prop_oneof![3 => 1u8..=4, 1 => Just(0u8)]),
            prop_oneof![2 => Just(vec![]), 1 => colors(1..6), 1 => colors(2..30)],
            prop_oneof![3 => Just(0u8), 1 => Just(1), 1 => Just(2), 1 => Just(3)],
            gamma(),
            prop::option::weighted(0.3, (100u32..999).prop_map(|g| g as f64 / 1000.)),
            prop::collection::vec(dither(), 0..3),
            any::<bool>(),
            any::<bool>(),
        )
            .prop_map(move |((mut img, mut s, bits), fixed, via, mut gamma, out_gamma, dithers, read_first, few)| {
                let few = few && !crowd;
                if crowd {
                    s.speed = 10;
                }
                s.posterize = bits;
                if let Some((_, max)) = s.quality {
                    s.quality = Some((0, max));
                }
                if few {
                    if matches!(img.fill, Fill::Gradient | Fill::Noise | Fill::Noisy(_)) {
                        img.fill = Fill::Random;
                    }
                    s.max_colors = 256;
                    s.quality = None;
                }
                if via >= 2 && gamma >= 1. {
                    gamma = 0.6;
                }
                Case { img, s, fixed, via, gamma, out_gamma, dithers, read_first, few }
            })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let attr = c.s.attr();
        ensure!(attr.min_posterization() == c.s.posterize, "getter");
        let g = c.gamma;
        let mut img = new_image(&attr, &c.img, g);
        let mut h = Histogram::new(&attr);
        let fixed = if c.via == 3 && c.fixed.is_empty() { c.img.colors.clone() } else { c.fixed.clone() };
        let fixed = &fixed[..fixed.len().min(256)];
        let r = match c.via {
            0 => {
                for &f in fixed { img.add_fixed_color(rgba(f)).map_err(e2s)?; }
                attr.quantize(&mut img)
            }
            1 => {
                h.add_image(&attr, &mut img).map_err(e2s)?;
                for &f in fixed { h.add_fixed_color(rgba(f), g).map_err(e2s)?; }
                h.quantize(&attr)
            }
            2 => {
                let e: Vec<_> = c.img.pixels().iter().map(|&color| HistogramEntry { color, count: 3 }).collect();
                h.add_colors(&e, g).map_err(e2s)?;
                for &f in fixed { h.add_fixed_color(rgba(f), g).map_err(e2s)?; }
                h.quantize(&attr)
            }
            _ => {
                for &f in fixed { h.add_fixed_color(rgba(f), g).map_err(e2s)?; }
                h.quantize(&attr)
            }
        };
        let mut res = match r {
            Ok(r) => r,
            Err(Error::QualityTooLow) => return Ok(()),
            Err(e) => return Err(format!("quantize: {e:?}")),
        };
        let bits = c.s.posterize;
        let mut seen = 0;
        let mut any_visible = false;
        if let Some(og) = c.out_gamma {
            res.set_output_gamma(og).map_err(e2s)?;
        }
        if c.read_first || c.dithers.is_empty() {
            all_posterized(res.palette(), bits, "quantized palette")?;
            seen = res.palette().len();
            any_visible |= res.palette().iter().any(|p| p.a > 0);
        }
        for &d in &c.dithers {
            res.set_dithering_level(d).map_err(e2s)?;
            let mut img = new_image(&attr, &c.img, g);
            let (pal, _) = res.remapped(&mut img).map_err(e2s)?;
            all_posterized(&pal, bits, "remapped palette")?;
            all_posterized(res.palette(), bits, "palette() after remapping")?;
            any_visible |= pal.iter().any(|p| p.a > 0);
            seen = seen.max(pal.len());
        }
        // no precision is removed without posterization
        if bits == 0 && c.out_gamma.is_none() {
            let key = |c: Px| if attr.speed() >= 8 { c.map(|v| v & 254) } else { c };
            let mut cols = color_set(&c.img.pixels());
            let fset: std::collections::BTreeSet<Px> = fixed.iter().map(|&f| canon(f)).collect();
            cols.extend(fset.iter().copied());
            let keys: std::collections::BTreeSet<Px> = cols.iter().map(|&c| key(c)).collect();
            let total = if c.via == 3 { fixed.len() } else { cols.len() + fixed.len() };
            if fset.len() == fixed.len() && total <= c.s.max_colors as usize && keys.len() == cols.len() && c.s.quality.is_none() {
                let mut want: std::collections::BTreeSet<Px> = fixed.iter().map(|&f| canon(f)).collect();
                if c.via != 3 {
                    want.extend(cols);
                }
                let got = color_set(res.palette());
                ensure!(want.is_subset(&got), "no posterization was requested, but {:?} is not in the palette", want.difference(&got).next());
                st.label("exact palette without posterization");
                st.nontrivial(want.len() >= 3);
            }
        }
        st.label(format!("bits {bits}"));
        if c.out_gamma.is_some() { st.label("output gamma"); }
        st.nontrivial(bits > 0 && seen >= 3 && any_visible);
        Ok(())
    }
}
