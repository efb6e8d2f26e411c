//! Quality limits and reported errors.
use crate::common::*;
use imagequant::{Error, Histogram, HistogramEntry, Image, QuantizationResult, RGBA};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: Img,
    /// exponents of the counts
    spread: u8,
    seed: u32,
    speed: u8,
    max_colors: u16,
    min: u8,
    target: u8,
    gamma: f64,
    /// 0: add_colors, 1: image with uniform importance, 2: image
    via: u8,
    last_transparent: bool,
}
pub struct P;

pub fn quality_to_mse(q: u32) -> f64 {
    if q == 0 {
        return 1e20;
    }
    if q >= 100 {
        return 0.;
    }
    let q = q as f64;
    let fudge = (0.016 / (0.001 + q) - 0.001).max(0.);
    0.45 * (fudge + 2.5 / (210. + q).powf(1.2) * (100.1 - q) / 100.)
}
pub fn mse_to_quality(mse: f64) -> u8 {
    (1..=100u32).rev().find(|&q| mse <= quality_to_mse(q) + 0.000001).unwrap_or(0) as u8
}

/// distinct colors (also at speeds that ignore the lowest bit) with counts
fn entries(c: &Case) -> Vec<(Px, u32)> {
    let mut m: std::collections::BTreeMap<Px, u32> = Default::default();
    for p in c.img.pixels() {
        let mut p = canon(px(p));
        for k in 0..3 { p[k] &= 254; }
        p[3] = if p[3] >= 254 { 255 } else { p[3] & 254 };
        *m.entry(canon(p)).or_insert(0) += 1;
    }
    let mut r = Sm::new(c.seed as u64);
    m.into_iter().map(|(p, n)| (p, (n as f64 * 2f64.powf(r.f() * c.spread as f64)).max(1.) as u32)).collect()
}

fn run(c: &Case, e: &[(Px, u32)], q: Option<(u8, u8)>) -> Result<QuantizationResult, Error> {
    let attr = Settings { speed: c.speed, max_colors: c.max_colors, quality: q, posterize: 0, last_transparent: c.last_transparent }.attr();
    match c.via {
        0 => {
            let g = if c.gamma >= 1. { 0.999 } else { c.gamma };
            let mut h = Histogram::new(&attr);
            let v: Vec<_> = e.iter().map(|&(p, n)| HistogramEntry { color: rgba(p), count: n }).collect();
            for part in v.chunks(1 + c.seed as usize % 400) {
                h.add_colors(part, g)?;
            }
            h.quantize(&attr)
        }
        _ => {
            let mut p: Vec<RGBA> = e.iter().flat_map(|&(p, n)| std::iter::repeat(rgba(p)).take(n.min(60) as usize)).collect();
            Sm::new(c.seed as u64).shuffle(&mut p);
            let n = p.len();
            let w = (n as f64).sqrt() as usize;
            let (w, h) = if n % w.max(1) == 0 { (w, n / w) } else { (n, 1) };
            let mut im = Image::new(&attr, p, w, h, c.gamma)?;
            if c.via == 1 {
                im.set_importance_map(vec![255u8; n])?;
            }
            attr.quantize(&mut im)
        }
    }
}

/// weighted error of a palette against the entries, on the internal scale
fn error_of(c: &Case, e: &[(Px, u32)], pal: &[RGBA]) -> f64 {
    let g = if c.via == 0 && c.gamma >= 1. { 0.999 } else { eff_gamma(c.gamma) };
    let pv = pal_vecs(pal, g);
    let l = lut(g);
    let n: Vec<f64> = e.iter().map(|x| if c.via == 0 { x.1 as f64 } else { x.1.min(60) as f64 }).collect();
    let total: f64 = n.iter().sum();
    let (mut s, mut w) = (0., 0.);
    for (i, (p, _)) in e.iter().enumerate() {
        let wt = n[i].min(total * 0.1);
        s += wt * nearest(&pv, &vec_of(&l, *p)).1;
        w += wt;
    }
    s / w
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "color statistics x speed x color limit x quality range; non-trivial: more colors than the limit, so that the reported error is not zero";
    fn strategy(_: &Opts) -> BoxedStrategy<Case> {
        (img_of(prop_oneof![2 => (1u32..=12, 1u32..=12), 3 => (8u32..=48, 8u32..=48)].boxed()), 0u8..12, any::<u32>(), speed(), prop_oneof![3 => 2u16..=16, 3 => 2u16..=256, 1 => Just(256u16)], (0u8..=100, 0u8..=100), gamma(), prop_oneof![4 => Just(0u8), 2 => Just(1), 1 => Just(2)], any::<bool>())
            .prop_map(|(img, spread, seed, speed, max_colors, (a, b), gamma, via, last_transparent)| Case { img, spread, seed, speed, max_colors, min: a.min(b), target: a.max(b), gamma, via, last_transparent })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let e = entries(c);
        let few = e.len() <= 256;
        let exact_weights = c.via != 2 || c.speed > 8;
        let cal = std::env::var("CAL").is_ok();
        // the best this limit allows
        let mut best = run(c, &e, Some((0, 100))).map_err(|x| format!("quality 0-100 failed: {x:?}"))?;
        let best_err = best.quantization_error().ok_or("no error reported although quality was set")?;
        let best_int = best_err * 6. * 0.45 / 65536.;
        let best_pal = best.palette_vec();
        let checks = |name: &str, res: &mut QuantizationResult, pal: &[RGBA]| -> R {
            let err = res.quantization_error();
            let q = res.quantization_quality();
            ensure!(err.is_some() == q.is_some(), "{name}: error {err:?} but quality {q:?}");
            let (Some(err), Some(q)) = (err, q) else { return Ok(()) };
            ensure!(err.is_finite() && err >= 0. && q <= 100, "{name}: error {err} quality {q}");
            let int = err * 6. * 0.45 / 65536.;
            let (qa, qb) = (mse_to_quality(int * 1.0001 + 1e-9), mse_to_quality(int * 0.9999 - 1e-9));
            ensure!(q >= qa && q <= qb, "{name}: error {err} means quality {qa}..{qb}, reported {q}");
            ensure!(!pal.is_empty() && pal.len() <= c.max_colors as usize, "{name}: {} colors, limit {}", pal.len(), c.max_colors);
            if exact_weights {
                let real = error_of(c, &e, pal);
                // reported is the error before the last refinement step, which may change palettes of few colors a lot
                let (real, rep) = (real.sqrt(), int.sqrt());
                if e.len() >= 100 {
                    if cal { eprintln!("CAL up {:.4} real={real:.5} rep={rep:.5} sp{} n={} pal={} via{} q={name}", (real - 0.004) / rep.max(1e-9), c.speed, e.len(), pal.len(), c.via); }
                    if cal { eprintln!("CAL down {:.4} real={real:.5} rep={rep:.5} sp{} n={} pal={} via{} q={name}", (rep - 0.004) / real.max(1e-9), c.speed, e.len(), pal.len(), c.via); }
                    ensure!(real <= rep * 1.1 + 0.006, "{name}: the palette's root mean square error is {real:.5}, reported was {rep:.5} ({} colors to {})", e.len(), pal.len());
                    let slack = if c.speed <= 6 { 1.2 } else if pal.len() >= 16 { 1.4 } else { 2.2 };
                    ensure!(rep <= real * slack + 0.006, "{name}: the palette's root mean square error is only {real:.5}, reported was {rep:.5} ({} colors to {})", e.len(), pal.len());
                } else if c.speed >= 5 && e.len() >= 12 {
                    if cal { eprintln!("CAL few {:.4} real={real:.5} rep={rep:.5} sp{} n={} pal={} via{} q={name}", (real - 0.004) / rep.max(1e-9), c.speed, e.len(), pal.len(), c.via); }
                    ensure!(real <= rep * 1.6 + 0.01, "{name}: the palette's root mean square error is {real:.5}, reported was {rep:.5} ({} colors to {})", e.len(), pal.len());
                }
            }
            Ok(())
        };
        checks("(0,100)", &mut best, &best_pal)?;
        match run(c, &e, None) {
            Ok(mut r) => {
                ensure!(r.quantization_error().is_some() || c.speed > 7, "no error reported at speed {}", c.speed);
                let p = r.palette_vec();
                checks("none", &mut r, &p)?;
            }
            Err(x) => return Err(format!("quantization without quality limits failed: {x:?}")),
        }
        let max_mse = quality_to_mse(c.min as u32) * if few { 0.33 } else { 1. };
        match run(c, &e, Some((c.min, c.target))) {
            Ok(mut r) => {
                let q = r.quantization_quality().ok_or("no quality reported although quality was set")?;
                ensure!(q >= c.min, "quality {q} reported, minimum {}", c.min);
                let p = r.palette_vec();
                checks("set", &mut r, &p)?;
                let err = r.quantization_error().unwrap() * 6. * 0.45 / 65536.;
                let target = quality_to_mse(c.target as u32);
                if p.len() < (c.max_colors as usize).min(e.len()) {
                    // (which palette is good enough is decided by an estimate)
                    ensure!(e.len() < 50 || err <= target * 2. + 0.00001, "error {err:.6} is above the target {target:.6} although only {} of {} colors are used", p.len(), c.max_colors);
                    st.label("fewer colors for a lower target");
                    if cal { eprintln!("CAL tgt {:.4} err={:.6} target={:.6} sp{} n={} pal={} max={} q={},{}", (err / target.max(1e-9)).min(1e9), err, target, c.speed, e.len(), p.len(), c.max_colors, c.min, c.target); }
                }
                st.label("succeeded");
            }
            Err(Error::QualityTooLow) => {
                ensure!(c.min > 0, "failed although no minimum quality was required");
                ensure!(best_int > max_mse * 0.8, "quality too low reported for minimum {} (error limit {max_mse:.6}), although the best palette of {} colors for {} colors has an error of {best_int:.6}", c.min, best_pal.len(), e.len());
                if cal { eprintln!("CAL fail {:.4} best={:.6} max={:.6} sp{} n={} pal={} q={},{}", best_int / max_mse, best_int, max_mse, c.speed, e.len(), c.max_colors, c.min, c.target); }
                st.label("quality too low");
            }
            Err(x) => return Err(format!("unexpected {x:?}")),
        }
        st.nontrivial(e.len() > c.max_colors as usize);
        Ok(())
    }
}
