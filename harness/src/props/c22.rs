//! The large_palettes build: exact large palettes, refused remapping, and the same behavior as the normal build otherwise.
use super::c15::{ask_peer, run_job, Job};
use crate::common::*;
use imagequant::{Attributes, Error, Histogram, Image, QuantizationResult};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::mem::MaybeUninit;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Source {
    /// fixed colors of a histogram
    HistFixed,
    /// fixed colors of an image of one of the colors
    ImageFixed,
    /// half of the colors fixed in an image, half in the histogram
    BothFixed,
    /// an image having the colors
    Pixels,
    /// histogram entries
    Entries,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Large {
    n: u16,
    style: u8,
    seed: u32,
    source: Source,
    speed: u8,
    /// how many too many colors to try
    excess: u8,
    limit: Option<u16>,
    img: Img,
    dither: f32,
    background: bool,
    gamma: Option<f64>,
    via: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Large(Large),
    Same(Job),
}
pub struct P;

fn large_strategy() -> BoxedStrategy<Large> {
    let n = prop_oneof![2 => 1u16..=256, 2 => 250u16..=262, 4 => 257u16..=2048, 1 => 2040u16..=2048, 1 => Just(512), 1 => Just(257), 1 => Just(256)];
    let source = prop_oneof![4 => Just(Source::HistFixed), 2 => Just(Source::ImageFixed), 1 => Just(Source::BothFixed), 3 => Just(Source::Pixels), 2 => Just(Source::Entries)];
    (
        (n, prop_oneof![Just(0u8), Just(1), Just(3)], any::<u32>(), source, 1u8..=10, prop_oneof![4 => Just(0u8), 1 => 1u8..5]),
        (prop_oneof![4 => Just(None), 1 => max_colors().prop_map(Some)], small_img(), dither(), prop::bool::weighted(0.3), prop::option::weighted(0.3, (200u32..1000).prop_map(|g| g as f64 / 1000.)), 0u8..3),
    )
        .prop_map(|((n, style, seed, source, speed, excess), (limit, img, dither, background, gamma, via))| Large { n, style, seed, source, speed, excess, limit, img, dither, background, gamma, via })
        .boxed()
}

fn remap(r: &mut QuantizationResult, im: &mut Image<'_>, via: u8) -> Result<(Vec<Px>, Vec<u8>), Error> {
    match via {
        0 => r.remapped(im).map(|(p, i)| (p.into_iter().map(px).collect(), i)),
        1 => {
            let mut v = vec![7; 3];
            let p = r.remap_into_vec(im, &mut v)?;
            Ok((p.into_iter().map(px).collect(), v))
        }
        _ => {
            let mut b = vec![MaybeUninit::new(0u8); im.width() * im.height()];
            r.remap_into(im, &mut b)?;
            Ok((r.palette().iter().map(|&c| px(c)).collect(), b.into_iter().map(|b| unsafe { b.assume_init() }).collect()))
        }
    }
}
fn target(a: &Attributes, c: &Large) -> Image<'static> {
    let mut im = new_image(a, &c.img, 0.);
    if c.background {
        let bg: Vec<_> = c.img.pixels().into_iter().rev().collect();
        im.set_background(Image::new(a, bg, c.img.w as usize, c.img.h as usize, 0.).unwrap()).unwrap();
    }
    im
}

fn check_large(c: &Large, st: &mut Stats) -> R {
    let n = c.n as usize;
    let mut a = Attributes::new();
    a.set_speed(c.speed as i32).unwrap();
    if let Some(l) = c.limit {
        a.set_max_colors(l as u32).unwrap();
    }
    let limit = c.limit.map_or(2048, usize::from);
    let list = expand_colors(c.seed, n, c.style);
    let fixed = matches!(c.source, Source::HistFixed | Source::ImageFixed | Source::BothFixed);
    let one = |v: &[Px]| Image::new(&a, v.iter().map(|&p| rgba(p)).collect::<Vec<_>>(), v.len(), 1, 0.).unwrap();
    let extra = expand_colors(c.seed ^ 77, n + 2048 + c.excess as usize, c.style);
    let mut extra = extra.into_iter().filter(|x| !list.contains(x));
    let r = match c.source {
        Source::HistFixed => {
            let mut h = Histogram::new(&a);
            for &p in &list {
                h.add_fixed_color(rgba(p), 0.).map_err(|e| format!("fixed color refused: {e:?}"))?;
            }
            if c.excess > 0 && n == 2048 {
                ensure!(h.add_fixed_color(rgba(extra.next().unwrap()), 0.).is_err(), "2049 fixed colors accepted");
                st.label("2049th fixed color");
            }
            h.quantize(&a)
        }
        Source::ImageFixed => {
            let mut im = one(&list[..1]);
            for &p in &list {
                im.add_fixed_color(rgba(p)).map_err(|e| format!("fixed color refused: {e:?}"))?;
            }
            if c.excess > 0 && n == 2048 {
                ensure!(im.add_fixed_color(rgba(extra.next().unwrap())).is_err(), "2049 fixed colors accepted");
                st.label("2049th fixed color");
            }
            a.quantize(&mut im)
        }
        Source::BothFixed => {
            let mut h = Histogram::new(&a);
            let k = n / 2;
            for &p in &list[..k] {
                h.add_fixed_color(rgba(p), 0.).map_err(|e| format!("fixed color refused: {e:?}"))?;
            }
            let mut im = one(&list[..1]);
            for &p in &list[k..] {
                im.add_fixed_color(rgba(p)).map_err(|e| format!("fixed color refused: {e:?}"))?;
            }
            if c.excess > 0 {
                // one color more than there can be
                let mut im2 = one(&list[..1]);
                for &p in &list[k..] {
                    im2.add_fixed_color(rgba(p)).unwrap();
                }
                let mut m = n;
                while m <= 2048 && im2.add_fixed_color(rgba(extra.next().unwrap())).is_ok() {
                    m += 1;
                }
                if m > 2048 {
                    ensure!(h.add_image(&a, &mut im2).is_err(), "a histogram of {k} fixed colors accepts an image having {} others", m - k);
                    st.label("2049 fixed colors in two parts");
                }
            }
            h.add_image(&a, &mut im).map_err(|e| format!("image with {} fixed colors refused: {e:?}", n - k))?;
            h.quantize(&a)
        }
        Source::Pixels => a.quantize(&mut one(&list)),
        Source::Entries => {
            let mut h = Histogram::new(&a);
            let v: Vec<_> = list.iter().enumerate().map(|(i, &p)| imagequant::HistogramEntry { color: rgba(p), count: 1 + i as u32 % 5 }).collect();
            h.add_colors(&v, 0.).unwrap();
            h.quantize(&a)
        }
    };
    let mut r = r.map_err(|e| format!("quantization of {n} colors failed: {e:?}"))?;
    let pal: Vec<Px> = r.palette().iter().map(|&p| px(p)).collect();
    let set: BTreeSet<Px> = pal.iter().map(|&p| canon(p)).collect();
    let want: BTreeSet<Px> = list.iter().copied().collect();
    ensure!(pal.len() <= limit, "{} palette entries, limit {limit}", pal.len());
    ensure!(r.palette_len() == pal.len(), "palette_len() is {}, but the palette has {} entries", r.palette_len(), pal.len());
    ensure!(r.palette_vec().into_iter().map(px).collect::<Vec<_>>() == pal, "palette_vec() and palette() differ");
    // speeds 8 and above reduce precision of colors other than fixed ones
    if n <= limit && (fixed || c.speed <= 7) {
        ensure!(set == want && pal.len() == n, "palette of {n} colors at speed {} has {} entries, {} different; missing {:?}, not asked for {:?}", c.speed, pal.len(), set.len(), want.difference(&set).take(3).collect::<Vec<_>>(), set.difference(&want).take(3).collect::<Vec<_>>());
        st.label(format!("exact {}", if n > 256 { "over 256" } else { "up to 256" }));
    } else if fixed {
        ensure!(set.is_subset(&want) && pal.len() == limit, "{limit} of {n} fixed colors expected, {} entries, {:?} not asked for", pal.len(), set.difference(&want).take(3).collect::<Vec<_>>());
        st.label("fixed cut to the limit");
    }
    st.nontrivial(n > 2);

    r.set_dithering_level(c.dither).unwrap();
    if let Some(g) = c.gamma {
        r.set_output_gamma(g).unwrap();
    }
    let pal: Vec<Px> = r.palette().iter().map(|&p| px(p)).collect();
    let errs = (r.quantization_error().map(f64::to_bits), r.quantization_quality());
    let mut im = target(&a, c);
    let res = remap(&mut r, &mut im, c.via);
    if pal.len() > 256 {
        match res {
            Err(Error::Unsupported) => {}
            other => return Err(format!("remapping to {} colors at speed {}, dithering {}, gives {}", pal.len(), c.speed, c.dither, match other { Ok((p, _)) => format!("a palette of {}", p.len()), Err(e) => format!("{e:?}") })),
        }
        st.label(if c.dither > 0. { "refused dithered" } else { "refused undithered" });
        ensure!(r.palette().iter().map(|&p| px(p)).eq(pal.iter().copied()), "the refused remap changed the palette");
        ensure!((r.quantization_error().map(f64::to_bits), r.quantization_quality()) == errs, "the refused remap changed the errors");
        ensure!(matches!(remap(&mut r, &mut im, 0), Err(Error::Unsupported)), "second remap to {} colors is not refused", pal.len());
        // the image is still good
        let mut small = frozen_palette(&a, &list[..c.excess as usize * 40 + 3], 0.).map_err(e2s)?;
        small.set_dithering_level(0.).unwrap();
        let used = remap(&mut small, &mut im, 0).map_err(e2s)?;
        let fresh = remap(&mut small, &mut target(&a, c), 0).map_err(e2s)?;
        ensure!(used == fresh, "after a refused remap the image is remapped to {used:?} instead of {fresh:?}");
    } else {
        let (p, idx) = res.map_err(|e| format!("remapping to {} colors failed: {e:?}", pal.len()))?;
        ensure!(idx.len() == c.img.n(), "{} indices of {} pixels", idx.len(), c.img.n());
        ensure!(idx.iter().all(|&i| (i as usize) < p.len()), "index out of the palette of {} entries", p.len());
        ensure!(p.len() == pal.len(), "palette had {} entries, remapped has {}", pal.len(), p.len());
        st.label("remapped");
    }
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "large_palettes build: 1 to 2048 colors through 5 sources and their remapping, and jobs with at most 256 colors compared with a process of the normal build; non-trivial: 3 or more colors";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        if o.mode == "same" {
            let d = prop_oneof![3 => (1u32..=24, 1u32..=24), 1 => (1u32..=60, 1u32..=60), 1 => (1u32..=8, 120u32..=300)].boxed();
            return (img_of(d), settings(), gamma(), dither(), any::<bool>(), prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(color(), 1..4), 1 => (any::<u32>(), 1usize..=256).prop_map(|(s, n)| expand_colors(s, n, 0))], prop::option::weighted(0.3, any::<u32>()), prop::bool::weighted(0.25), any::<bool>())
                .prop_map(|(img, mut set, gamma, dither, hist, fixed, importance, background, early_palette)| {
                    // how strict the quality limits are depends on the build when there are more colors than that
                    if color_set(&img.pixels()).len() + fixed.len() > 256 {
                        set.quality = set.quality.map(|(_, max)| (0, max));
                    }
                    Case::Same(Job { img, set, gamma, dither, hist, fixed, importance, background, early_palette })
                })
                .boxed();
        }
        large_strategy().prop_map(Case::Large).boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        match c {
            Case::Large(l) => check_large(l, st),
            Case::Same(j) => {
                let a = run_job(&j.set.attr(), j, false);
                let b = ask_peer(std::slice::from_ref(j))?;
                st.nontrivial(a.pal.len() > 2);
                st.label(if a.err.is_some() { "both failed" } else if j.dither > 0. { "same dithered" } else { "same undithered" });
                ensure!(a == b[0], "the normal build gives {:?}, this one {a:?}", b[0]);
                Ok(())
            }
        }
    }
}
