//! Fixed colors are always in the palette.
use crate::common::*;
use imagequant::{Error, Histogram, HistogramEntry, Image};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Via {
    /// fixed colors on the image, image quantized
    Image,
    /// fixed colors on the histogram; the image added before/after them
    Hist { image_first: bool },
    /// fixed colors on the image, added to a histogram
    HistImage,
    /// some on the image, some on the histogram
    Both,
    HistColors,
    /// histogram without any other color
    Only,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: Img,
    s: Settings,
    fixed: Vec<Px>,
    via: Via,
    gamma: f64,
    dither: f32,
    remaps: u8,
    /// fill up the fixed colors to the limit and beyond
    overflow: Option<u32>,
    out_gamma: Option<f64>,
}
pub struct P;

pub fn contains_fixed(pal: &[imagequant::RGBA], fixed: &[Px], bits: u8, what: &str) -> R {
    let set = color_set(pal);
    for &f in fixed {
        let f = canon(f);
        let want = canon([posterized(f[0], bits), posterized(f[1], bits), posterized(f[2], bits), posterized(f[3], bits)]);
        ensure!(set.contains(&want), "{what}: fixed color {f:?} (as {want:?}) is not in the palette of {} colors", pal.len());
    }
    Ok(())
}

fn filler(seed: u32, n: usize) -> Vec<Px> {
    let mut r = Sm::new(seed as u64);
    (0..n).map(|_| [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, 255]).collect()
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "image/histogram x list of fixed colors x settings; non-trivial: at least 2 distinct fixed colors, of which one is not a color of the image";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let fixed = prop_oneof![
            4 => colors(1..6),
            3 => colors(2..40),
            1 => colors(40..256),
            1 => (any::<u32>(), 2usize..=256, 0u8..6).prop_map(|(s, n, st)| expand_colors(s, n, st)),
            1 => colors(1..6).prop_map(|mut v| { v.push([9, 9, 9, 0]); v }),
        ];
        let via = prop_oneof![
            4 => Just(Via::Image), 2 => any::<bool>().prop_map(|image_first| Via::Hist { image_first }), 2 => Just(Via::HistImage),
            1 => Just(Via::Both), 1 => Just(Via::HistColors), 1 => Just(Via::Only),
        ];
        let crowd = o.mode == "crowd";
        (if crowd { crowd_img() } else { small_img() }, settings(), fixed, via, gamma(), dither(), 1u8..3, prop::option::weighted(0.07, any::<u32>()),
            // take a few colors of the image as fixed
            prop::option::weighted(0.4, 0usize..4), any::<bool>())
            .prop_map(move |(img, mut s, mut fixed, via, mut gamma, dither, remaps, overflow, from_img, few)| {
                if let Some((min, max)) = s.quality {
                    s.quality = Some((min / 8, max));
                }
                if let Some(n) = from_img {
                    for i in 0..n {
                        fixed.push(img.colors[i % img.colors.len()]);
                    }
                }
                fixed.truncate(256);
                if crowd {
                    s.speed = 10;
                }
                if matches!(via, Via::HistColors) && gamma >= 1. {
                    gamma = 0.45455;
                }
                if few && s.max_colors < fixed.len() as u16 {
                    s.max_colors = 256;
                }
                Case { img, s, fixed, via, gamma, dither, remaps, overflow, out_gamma: None }
            })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let attr = c.s.attr();
        let mut fixed = c.fixed.clone();
        if let Some(seed) = c.overflow {
            fixed.extend(filler(seed, 256 - fixed.len()));
        }
        let g = c.gamma;
        let mut img = new_image(&attr, &c.img, g);
        let on_image = matches!(c.via, Via::Image | Via::HistImage);
        let mut split = fixed.len();
        let mut hist = Histogram::new(&attr);
        let add_img = |h: &mut Histogram, img: &mut Image| h.add_image(&attr, img).map_err(e2s);
        match c.via {
            Via::Image | Via::HistImage => {}
            Via::Both => split = fixed.len() / 2,
            _ => split = 0,
        }
        if let Via::Hist { image_first: true } = c.via {
            add_img(&mut hist, &mut img)?;
        }
        for &f in &fixed[..split] {
            img.add_fixed_color(rgba(f)).map_err(|e| format!("fixed color refused: {e:?}"))?;
        }
        for &f in &fixed[split..] {
            hist.add_fixed_color(rgba(f), g).map_err(|e| format!("fixed color refused: {e:?}"))?;
        }
        if c.overflow.is_some() {
            st.label("more than 256 fixed colors");
            let extra = rgba([1, 2, 3, 4]);
            if on_image {
                ensure!(img.add_fixed_color(extra) == Err(Error::Unsupported), "a 257th fixed color was not refused");
            } else if split == 0 {
                ensure!(hist.add_fixed_color(extra, g) == Err(Error::Unsupported), "a 257th fixed color was not refused");
                // an image with one more distinct fixed color doesn't fit either
                let mut im2 = new_image(&attr, &c.img, g);
                im2.add_fixed_color(rgba([1, 2, 3, 5])).map_err(e2s)?;
                ensure!(hist.add_image(&attr, &mut im2) == Err(Error::BufferTooSmall), "image with the 257th fixed color was not refused");
            }
        }
        let r = match c.via {
            Via::Image => attr.quantize(&mut img),
            Via::Hist { image_first: true } | Via::Only => hist.quantize(&attr),
            Via::Hist { .. } | Via::HistImage | Via::Both => {
                // the second half may be stored under the same number as the first
                add_img(&mut hist, &mut img)?;
                hist.quantize(&attr)
            }
            Via::HistColors => {
                let e: Vec<_> = c.img.pixels().iter().map(|&color| HistogramEntry { color, count: 3 }).collect();
                hist.add_colors(&e, g).map_err(e2s)?;
                hist.quantize(&attr)
            }
        };
        let mut res = match r {
            Ok(r) => r,
            Err(Error::QualityTooLow) if c.s.quality.is_some_and(|q| q.0 > 0) => {
                st.label("quality too low");
                return Ok(());
            }
            Err(e) => return Err(format!("quantize: {e:?}")),
        };
        let max = c.s.max_colors as usize;
        let expect: Vec<Px> = if fixed.len() > max {
            st.label("more fixed than max_colors");
            if matches!(c.via, Via::Both) {
                vec![] // which of them are first is not defined across two lists
            } else {
                fixed[..max].to_vec()
            }
        } else {
            fixed.clone()
        };
        let len = res.palette_len();
        ensure!(len <= max && len > 0, "palette of {len} colors, limit {max}");
        if c.img.seed % 2 == 0 {
            let pal = res.palette_vec();
            contains_fixed(&pal, &expect, c.s.posterize, "quantized palette")?;
        }
        res.set_dithering_level(c.dither).map_err(e2s)?;
        for i in 0..c.remaps {
            let mut other = new_image(&attr, &c.img, g);
            let (pal, idx) = res.remapped(if i % 2 == 0 { &mut img } else { &mut other }).map_err(e2s)?;
            check_indices(&pal, &idx, c.img.n(), max)?;
            contains_fixed(&pal, &expect, c.s.posterize, "palette after remapping")?;
            contains_fixed(res.palette(), &expect, c.s.posterize, "palette() after remapping")?;
        }
        let colors = color_set(&c.img.pixels());
        let distinct: std::collections::BTreeSet<Px> = fixed.iter().map(|&f| canon(f)).collect();
        if c.dither > 0. { st.label("dithered"); }
        if fixed.iter().any(|f| f[3] == 0) { st.label("transparent fixed color"); }
        if c.s.posterize > 0 { st.label("posterized"); }
        st.label(match c.via { Via::Image => "image", Via::Hist { .. } => "histogram fixed + image", Via::HistImage => "histogram, fixed on image", Via::Both => "both lists", Via::HistColors => "histogram colors", Via::Only => "only fixed colors" });
        st.nontrivial(distinct.len() >= 2 && distinct.iter().any(|f| !colors.contains(f)));
        Ok(())
    }
}
