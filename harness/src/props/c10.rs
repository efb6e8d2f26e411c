//! Background images.
use crate::common::*;
use imagequant::{Error, Image, QuantizationResult, RGBA};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PalKind {
    Frozen { colors: Vec<Px>, transparent: bool },
    Quantized { s: Settings, transparent: bool },
    /// all colors of the image, and a transparent one
    Exact,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: Img,
    pal: PalKind,
    /// how the background differs from the image: 0 identical, 1 some pixels jittered, 2 blocks, 3 unrelated
    bg: u8,
    amp: u8,
    seed: u32,
    gamma: f64,
    bg_gamma_same: bool,
    dither: f32,
    imp: Option<u32>,
    speed: u8,
}
pub struct P;

fn background(c: &Case, px0: &[RGBA]) -> Vec<RGBA> {
    let mut r = Sm::new(c.seed as u64 ^ 0xB6);
    let w = c.img.w as usize;
    let amp = c.amp as usize;
    let jit = |r: &mut Sm, p: RGBA| {
        let mut f = |v: u8, r: &mut Sm| (v as i32 + r.below(2 * amp + 1) as i32 - amp as i32).clamp(0, 255) as u8;
        RGBA::new(f(p.r, r), f(p.g, r), f(p.b, r), p.a)
    };
    px0.iter()
        .enumerate()
        .map(|(i, &p)| match c.bg % 4 {
            0 => p,
            1 => if r.below(2) == 0 { jit(&mut r, p) } else { p },
            2 => {
                let (x, y) = (i % w / 3, i / w / 3);
                if (x + y) % 2 == 0 { p } else { jit(&mut r, RGBA::new(255 - p.r, p.g, p.b, p.a)) }
            }
            _ => { let v = r.next(); RGBA::new(v as u8, (v >> 8) as u8, (v >> 16) as u8, if r.below(5) == 0 { (v >> 24) as u8 } else { 255 }) }
        })
        .collect()
}

fn make(c: &Case, px0: &[RGBA]) -> Result<QuantizationResult, String> {
    match &c.pal {
        PalKind::Frozen { colors, transparent } => {
            let mut a = imagequant::new();
            a.set_speed(c.speed as i32).map_err(e2s)?;
            let mut cols = colors.clone();
            if *transparent {
                cols.push([0, 0, 0, 0]);
            }
            cols.truncate(256);
            let g = if c.gamma >= 1. { 0.999 } else { c.gamma };
            frozen_palette(&a, &cols, g).map_err(e2s)
        }
        PalKind::Exact => {
            let mut a = imagequant::new();
            a.set_speed(c.speed as i32).map_err(e2s)?;
            let mut cols: Vec<Px> = vec![[0, 0, 0, 0]];
            cols.extend(color_set(px0).into_iter().filter(|c| c[3] != 0).take(255));
            frozen_palette(&a, &cols, c.gamma).map_err(e2s)
        }
        PalKind::Quantized { s, transparent } => {
            let a = s.attr();
            let mut im = Image::new_borrowed(&a, px0, c.img.w as usize, c.img.h as usize, c.gamma).map_err(e2s)?;
            if *transparent {
                im.add_fixed_color(RGBA::new(0, 0, 0, 0)).map_err(e2s)?;
            }
            a.quantize(&mut im).map_err(e2s)
        }
    }
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "foreground/background pairs x palettes; non-trivial: some but not all pixels were made transparent by the background, or a palette without transparent entry, or an identical background with dithering";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let (d, big) = mode_dims(&o.mode);
        let pal = prop_oneof![
            4 => (prop_oneof![3 => colors(1..12), 1 => colors(10..200)], prop::bool::weighted(0.75)).prop_map(|(colors, transparent)| PalKind::Frozen { colors, transparent }),
            2 => Just(PalKind::Exact),
            3 => (settings(), prop::bool::weighted(0.75)).prop_map(|(s, transparent)| PalKind::Quantized { s, transparent }),
        ];
        (img_of(d), pal, 0u8..4, prop_oneof![1u8..6, 1u8..90], any::<u32>(), gamma(), prop::bool::weighted(0.8), dither(), prop::option::weighted(0.2, any::<u32>()), speed())
            .prop_map(move |(mut img, mut pal, bg, amp, seed, mut gamma, bg_gamma_same, dither, imp, mut speed)| {
                if let PalKind::Quantized { s, .. } = &mut pal {
                    if let Some((_, max)) = s.quality {
                        s.quality = Some((0, max));
                    }
                    if big {
                        s.speed = s.speed.max(7);
                    }
                }
                if big {
                    speed = speed.max(7);
                }
                if matches!(pal, PalKind::Exact) {
                    if gamma >= 1. { gamma = 0.999; }
                    if color_set(&img.pixels()).len() > 255 {
                        img.colors.truncate(255);
                        img.fill = Fill::Runs;
                    }
                }
                // mostly opaque foregrounds
                if seed % 3 != 0 {
                    for c in img.colors.iter_mut() {
                        c[3] = 255;
                    }
                }
                Case { img, pal, bg, amp, seed, gamma, bg_gamma_same, dither, imp, speed }
            })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let (w, h) = (c.img.w as usize, c.img.h as usize);
        let n = w * h;
        let px0 = c.img.pixels();
        let bgp = background(c, &px0);
        let bg_gamma = if c.bg_gamma_same || c.bg % 4 == 0 { c.gamma } else { 0.6 };
        let attr = imagequant::new();
        let mk = |with: bool| -> Result<Image, String> {
            let mut im = Image::new_borrowed(&attr, &px0, w, h, c.gamma).map_err(e2s)?;
            if let Some(s) = c.imp {
                let mut r = Sm::new(s as u64);
                im.set_importance_map((0..n).map(|_| r.below(256) as u8).collect::<Vec<_>>()).map_err(e2s)?;
            }
            // earlier work and an other background have no influence
            if c.seed % 7 == 1 && c.dither == 0. {
                attr.quantize(&mut im).map_err(e2s)?;
            }
            if with {
                if c.seed % 5 == 1 {
                    let other: Vec<RGBA> = if c.seed % 2 == 0 { px0.clone() } else { px0.iter().map(|p| RGBA::new(p.g, 255 - p.r, p.b ^ 0x3C, 255)).collect() };
                    im.set_background(Image::new(&attr, other, w, h, c.gamma).map_err(e2s)?).map_err(|e| format!("background refused: {e:?}"))?;
                    if c.seed % 3 == 0 && c.dither == 0. {
                        make(c, &px0)?.remapped(&mut im).map_err(e2s)?;
                    }
                }
                let b = Image::new_borrowed(&attr, &bgp, w, h, bg_gamma).map_err(e2s)?;
                im.set_background(b).map_err(|e| format!("background refused: {e:?}"))?;
                // refused ones leave it alone
                if c.seed % 8 == 0 {
                    let small = Image::new(&attr, vec![RGBA::new(1, 2, 3, 4); (w + 1) * h], w + 1, h, 0.).map_err(e2s)?;
                    ensure_e(im.set_background(small), Error::BufferTooSmall, "background of another width")?;
                    let small = Image::new(&attr, vec![RGBA::new(1, 2, 3, 4); w * (h + 1)], w, h + 1, 0.).map_err(e2s)?;
                    ensure_e(im.set_background(small), Error::BufferTooSmall, "background of another height")?;
                    // the same number of pixels in another shape, and sizes scaled by the same factor
                    for (bw, bh) in [(h, w), (n, 1), (1, n), (2 * w, 2 * h), (w.div_ceil(2), h.div_ceil(2))] {
                        if (bw, bh) != (w, h) {
                            let other = Image::new(&attr, vec![RGBA::new(1, 2, 3, 4); bw * bh], bw, bh, 0.).map_err(e2s)?;
                            ensure_e(im.set_background(other), Error::BufferTooSmall, "background of another shape")?;
                        }
                    }
                    let mut nested = Image::new(&attr, px0.clone(), w, h, 0.).map_err(e2s)?;
                    nested.set_background(Image::new(&attr, px0.clone(), w, h, 0.).map_err(e2s)?).map_err(e2s)?;
                    ensure_e(im.set_background(nested), Error::Unsupported, "background with a background")?;
                }
            }
            Ok(im)
        };
        let mut res = make(c, &px0)?;
        res.set_dithering_level(c.dither).map_err(e2s)?;
        let (pal, idx) = res.clone().remapped(&mut mk(true)?).map_err(e2s)?;
        check_indices(&pal, &idx, n, 256)?;
        let pal_gamma = eff_gamma(res.output_gamma());
        let pv = pal_vecs(&pal, pal_gamma);
        let transparent = pal.iter().any(|p| p.a == 0);
        if !transparent {
            let (pal2, idx2) = res.clone().remapped(&mut mk(false)?).map_err(e2s)?;
            ensure!(pal == pal2, "background changed the palette although there's no transparent entry");
            if let Some(p) = (0..n).find(|&i| idx[i] != idx2[i]) {
                return Err(format!("background changed pixel {p} ({} instead of {}) although there's no transparent entry", idx[p], idx2[p]));
            }
            st.label("no transparent entry");
            st.nontrivial(n > 4);
            return Ok(());
        }
        if c.bg % 4 == 0 {
            if let Some(p) = (0..n).find(|&i| pal[idx[i] as usize].a != 0) {
                return Err(format!("identical background, but pixel {p} is {:?} (dither {})", px(pal[idx[p] as usize]), c.dither));
            }
            st.label("identical background");
            st.nontrivial(c.dither > 0. && n > 4);
        }
        if c.dither > 0. {
            // nothing to diffuse if every color is available
            let colors = color_set(&px0);
            if matches!(c.pal, PalKind::Exact) && colors.iter().all(|c| pal.iter().any(|&p| canon(px(p)) == *c)) {
                let (lf, lb) = (lut(eff_gamma(c.gamma)), lut(eff_gamma(bg_gamma)));
                let (mut t, mut o) = (0, 0);
                for i in 0..n {
                    let (p, b) = (canon(px(px0[i])), canon(px(bgp[i])));
                    let got = canon(px(pal[idx[i] as usize]));
                    let bs = diff(&vec_of(&lf, p), &vec_of(&lb, b)).sqrt();
                    let same = p == b && eff_gamma(c.gamma) == eff_gamma(bg_gamma);
                    ensure!(!same || got[3] == 0, "pixel {i} {p:?} equals the background, but it got {got:?} (dither {}, all colors in the palette)", c.dither);
                    let near = got == p || diff(&vec_of(&lf, got), &vec_of(&lf, p)) < 1e-10;
                    ensure!(bs <= 1e-5 || near, "pixel {i} {p:?}: background {b:?} is at {bs:.5}, its color is in the palette, but it got {got:?} (dither {})", c.dither);
                    if got[3] == 0 { t += 1 } else { o += 1 }
                }
                st.label("dithered, exact palette");
                st.nontrivial(t > 0 && o > 0);
                return Ok(());
            }
            st.label("dithered");
            return Ok(());
        }
        let lf = lut(eff_gamma(c.gamma));
        let lb = lut(eff_gamma(bg_gamma));
        let (mut t, mut o) = (0, 0);
        let mut sum = 0.;
        for i in 0..n {
            let p = vec_of(&lf, canon(px(px0[i])));
            let b = vec_of(&lb, canon(px(bgp[i])));
            let (best, d) = nearest(&pv, &p);
            let bd = diff(&b, &p);
            let got = pal[idx[i] as usize];
            let (ds, bs) = (d.sqrt(), bd.sqrt());
            if bs < ds - 1e-5 || (bd == 0.) {
                ensure!(got.a == 0, "pixel {i} {:?}: background {:?} is at {bs:.5}, closer than any entry ({ds:.5}), but it got {:?}", px(px0[i]), px(bgp[i]), px(got));
            }
            if bs > ds + 1e-5 {
                let gd = diff(&pv[idx[i] as usize], &p).sqrt();
                ensure!(gd <= ds + 1e-5, "pixel {i} {:?}: entry {best} is at {ds:.5}, background at {bs:.5}, but it got {:?} at {gd:.5}", px(px0[i]), px(got));
            }
            if got.a == 0 && pal[best].a != 0 { t += 1 }
            if got.a != 0 { o += 1 }
            // composited over the background, never further than without it
            // (a pixel that is itself nearest to the transparent entry stays transparent, and then shows the background)
            let gd = diff(&pv[idx[i] as usize], &p).sqrt();
            let shown = if got.a == 0 && pal[best].a != 0 && gd > ds + 1e-5 { bs } else { diff(&pv[idx[i] as usize], &p).sqrt() };
            ensure!(shown <= ds + 1e-5, "pixel {i}: composited color is at {shown:.5}, the nearest entry at {ds:.5}");
            sum += bd.min(d);
        }
        // error reported for the composited image
        let mut r2 = res.clone();
        let _ = r2.remapped(&mut mk(true)?).map_err(e2s)?;
        let e = r2.remapping_error().unwrap_or(-1.);
        let want = std_mse(sum / n as f64);
        ensure!((e - want).abs() <= want * 2e-3 + 1e-4, "remapping error {e}, expected {want}");
        st.label("undithered");
        st.nontrivial(t > 0 && o > 0);
        Ok(())
    }
}

fn ensure_e(r: Result<(), Error>, want: Error, what: &str) -> R {
    ensure!(r == Err(want), "{what}: {r:?} instead of {want:?}");
    Ok(())
}
