//! Lossless conversion of images that fit in the palette.
use crate::common::*;
use imagequant::{Histogram, HistogramEntry};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Via {
    Image,
    HistImages(u8),
    HistColors,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    w: u32,
    h: u32,
    colors: Vec<Px>,
    layout: u8,
    seed: u32,
    fixed: Vec<Px>,
    speed: u8,
    slack: u16,
    dither: f32,
    gamma: f64,
    via: Via,
    last: bool,
    q100: Option<u8>,
    remaps: u8,
}
pub struct P;

fn key(c: Px, speed: u8) -> Px {
    let c = canon(c);
    if speed >= 8 { [c[0] & 254, c[1] & 254, c[2] & 254, c[3] & 254] } else { c }
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "distinct color set (<= max_colors) laid out over an image; non-trivial: at least 3 distinct colors and more pixels than colors";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let (d, big) = mode_dims(&o.mode);
        let cols = prop_oneof![
            3 => colors(1..8),
            3 => colors(2..64),
            1 => colors(200..256),
            2 => (any::<u32>(), 2usize..=256, 0u8..6).prop_map(|(s, n, st)| expand_colors(s, n, st)),
            1 => (any::<u32>(), prop_oneof![Just(255usize), Just(256)], 0u8..6).prop_map(|(s, n, st)| expand_colors(s, n, st)),
        ];
        (
            (d, cols, any::<u8>(), any::<u32>()),
            prop_oneof![3 => Just(vec![]), 1 => colors(1..5)],
            speed(),
            prop_oneof![2 => Just(0u16), 2 => 1u16..4, 1 => 0u16..255],
            dither(),
            gamma(),
            prop_oneof![4 => Just(Via::Image), 2 => (1u8..4).prop_map(Via::HistImages), 1 => Just(Via::HistColors)],
            any::<bool>(),
            prop::option::of(0u8..=100),
            1u8..3,
        )
            .prop_map(move |((( w, h), mut colors, layout, seed), mut fixed, speed, slack, dither, gamma, via, last, q100, remaps)| {
                let speed = if big { speed.max(5) } else { speed };
                let mut seen = HashSet::new();
                colors.retain(|&c| seen.insert(key(c, speed)));
                // fixed colors: distinct from each other and from the image's colors, except for exact equality
                let have: HashSet<Px> = colors.iter().map(|&c| canon(c)).collect();
                fixed.retain(|&c| have.contains(&canon(c)) || seen.insert(key(c, speed)));
                let mut f2 = HashSet::new();
                fixed.retain(|&c| f2.insert(key(c, speed)));
                colors.truncate(256 - fixed.len());
                Case { w, h, colors, layout, seed, fixed, speed, slack, dither, gamma, via, last, q100, remaps }
            })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let n = c.w as usize * c.h as usize;
        let im = Img {
            w: c.w, h: c.h, colors: c.colors.clone(), seed: c.seed,
            fill: match c.layout % 5 { 0 => Fill::Random, 1 => Fill::Runs, 2 => Fill::Stripes(1 + c.layout / 40), 3 => Fill::Blocks(1 + c.layout / 40), _ => Fill::Rare },
        };
        let mut pixels = im.pixels();
        // every color gets used if there is room
        let mut r = Sm::new(c.seed as u64 ^ 77);
        if n >= 2 * c.colors.len() {
            for (i, &p) in c.colors.iter().enumerate() {
                let at = i * (n / c.colors.len()) + r.below(n / c.colors.len());
                pixels[at] = rgba(p);
            }
        }
        let mut want: std::collections::BTreeSet<Px> = pixels.iter().map(|&p| canon(px(p))).collect();
        let used = want.len();
        let image_colors: Vec<Px> = want.iter().copied().collect();
        // at speeds that ignore low bits a fixed color may be counted twice
        let budget = if c.speed >= 8 { used + c.fixed.len() } else {
            let mut u = want.clone();
            u.extend(c.fixed.iter().map(|&f| canon(f)));
            u.len()
        };
        want.extend(c.fixed.iter().map(|&f| canon(f)));
        if budget > 256 {
            return Ok(());
        }
        let mut attr = imagequant::new();
        attr.set_speed(c.speed as i32).map_err(e2s)?;
        attr.set_max_colors((budget as u32 + c.slack as u32).clamp(2, 256)).map_err(e2s)?;
        if let Some(q) = c.q100 {
            attr.set_quality(q, 100).map_err(e2s)?;
        }
        attr.set_last_index_transparent(c.last);
        let (w, h) = (c.w as usize, c.h as usize);
        let mut img = imagequant::Image::new_borrowed(&attr, &pixels, w, h, c.gamma).map_err(e2s)?;
        let mut res = match &c.via {
            Via::Image => {
                for &f in &c.fixed {
                    img.add_fixed_color(rgba(f)).map_err(e2s)?;
                }
                attr.quantize(&mut img)
            }
            Via::HistImages(parts) => {
                let mut hist = Histogram::new(&attr);
                let parts = (*parts as usize).min(h);
                for i in 0..parts {
                    let (a, b) = (h * i / parts, h * (i + 1) / parts);
                    let mut p = imagequant::Image::new_borrowed(&attr, &pixels[a * w..b * w], w, b - a, c.gamma).map_err(e2s)?;
                    hist.add_image(&attr, &mut p).map_err(e2s)?;
                }
                for &f in &c.fixed {
                    hist.add_fixed_color(rgba(f), c.gamma).map_err(e2s)?;
                }
                hist.quantize(&attr)
            }
            Via::HistColors => {
                let mut hist = Histogram::new(&attr);
                for &f in &c.fixed {
                    hist.add_fixed_color(rgba(f), c.gamma).map_err(e2s)?;
                }
                let g = if c.gamma >= 1. { 0.9999 } else { c.gamma };
                let mut e: Vec<_> = image_colors.iter().map(|&p| HistogramEntry { color: rgba(p), count: 1 + r.below(1000) as u32 }).collect();
                r.shuffle(&mut e);
                hist.add_colors(&e, g).map_err(e2s)?;
                hist.quantize(&attr)
            }
        }
        .map_err(|e| format!("quantize: {e:?}"))?;
        ensure!(res.quantization_quality() == Some(100) && res.quantization_error() == Some(0.), "lossless image has quality {:?} error {:?}", res.quantization_quality(), res.quantization_error());
        let pal0 = res.palette_vec();
        ensure!(color_set(&pal0) == want, "palette before remapping differs from the colors of the image: missing {:?}, extra {:?}", want.difference(&color_set(&pal0)).next(), color_set(&pal0).difference(&want).next());
        ensure!(pal0.len() <= attr.max_colors() as usize, "palette larger than max_colors");
        if c.speed < 8 {
            ensure!(pal0.len() == want.len(), "palette has duplicates: {} entries for {} colors", pal0.len(), want.len());
        }
        // gamma 1.0 can't be given to add_colors, so the palette is in a slightly different gamma
        if matches!(c.via, Via::HistColors) && c.gamma >= 1. {
            return Ok(());
        }
        res.set_dithering_level(c.dither).map_err(e2s)?;
        for pass in 0..c.remaps {
            let (pal, idx) = res.remapped(&mut img).map_err(e2s)?;
            check_indices(&pal, &idx, n, attr.max_colors() as usize)?;
            ensure!(color_set(&pal) == want, "palette after remap {pass} differs from the colors of the image");
            for i in 0..n {
                let got = canon(px(pal[idx[i] as usize]));
                if got != canon(px(pixels[i])) {
                    return Err(format!("remap {pass}: pixel {i} is {:?}, got {:?} (dither {})", pixels[i], got, c.dither));
                }
            }
            let e = res.remapping_error().unwrap_or(0.);
            ensure!(e.abs() < 1e-6, "remapping error {e} for a lossless image");
            ensure!(res.remapping_quality() == Some(100), "remapping quality {:?} for a lossless image", res.remapping_quality());
        }
        if c.dither > 0. { st.label("dithered"); }
        if used == attr.max_colors() as usize { st.label("exactly max_colors"); }
        if c.speed >= 8 { st.label("speed>=8"); }
        if !c.fixed.is_empty() { st.label("fixed colors"); }
        if want.iter().any(|p| p[3] == 0) { st.label("transparent"); }
        if want.iter().any(|p| p[3] > 0 && p[3] < 255) { st.label("translucent"); }
        st.nontrivial(want.len() >= 3 && n > used);
        Ok(())
    }
}
