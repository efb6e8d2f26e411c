//! Error diffusion keeps local averages.
use crate::common::*;
use imagequant::Image;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// How the channels of palette and image vary. The image lies exactly in the hull of the palette.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Space {
    /// independent levels in the channels of the mask, the others are constant
    Grid(u8),
    /// the channels of the mask vary together
    Tied(u8),
    /// constant color, varying opacity
    Alpha,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Shape {
    Flat,
    /// different directions per channel
    Linear,
    /// a big flat area within another one
    Frame,
    /// slow wave
    Wave(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    w: u32,
    h: u32,
    space: Space,
    shape: Shape,
    base: [u8; 3],
    lo: u8,
    /// half of the diagonal of a palette cell, 1/10000 of the working space
    spacing: u16,
    seed: u32,
    speed: u8,
    level: f32,
    gamma: f64,
}
pub struct P;

/// levels of one channel spaced about s in the working space
fn levels(l: &[f64; 256], weight: f64, lo: u8, s: f64, max: usize) -> Vec<u8> {
    let mut v = vec![lo];
    while v.len() < max {
        let last = *v.last().unwrap();
        let Some(n) = (last as usize + 1..256).find(|&x| (l[x] - l[last as usize]) * weight >= s) else { break };
        v.push(n as u8);
    }
    v
}
const WT: [f64; 3] = [0.5, 1., 0.45];

fn palette(c: &Case, l: &[f64; 256]) -> Vec<Px> {
    let e = c.spacing as f64 / 10000.;
    match c.space {
        Space::Grid(m) => {
            let ch: Vec<usize> = (0..3).filter(|k| m >> k & 1 == 1).collect();
            let s = 2. * e / (ch.len() as f64).sqrt();
            let max = [0, 40, 15, 6][ch.len()];
            let mut out = vec![[c.base[0], c.base[1], c.base[2], 255]];
            for k in ch {
                let lv = levels(l, WT[k], c.lo, s, max);
                out = out.iter().flat_map(|p| lv.iter().map(move |&v| { let mut p = *p; p[k] = v; p })).collect();
            }
            out
        }
        Space::Tied(m) => {
            let w = (0..3).filter(|k| m >> k & 1 == 1).map(|k| WT[k] * WT[k]).sum::<f64>().sqrt();
            levels(l, w, c.lo, 2. * e, 60).into_iter().map(|v| { let mut p = [c.base[0], c.base[1], c.base[2], 255]; (0..3).filter(|k| m >> k & 1 == 1).for_each(|k| p[k] = v); p }).collect()
        }
        Space::Alpha => {
            let v = vec_of(l, [c.base[0], c.base[1], c.base[2], 255]);
            let w = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            let mut out = vec![];
            let mut a = c.lo.max(1) as f64;
            while a < 256. {
                out.push([c.base[0], c.base[1], c.base[2], a as u8]);
                a = (a + 1.).max(a + 2. * e / w * 255.);
            }
            out
        }
    }
}

fn pixels(c: &Case, pal: &[Px]) -> Vec<Px> {
    let mut r = Sm::new(c.seed as u64);
    let mut lo = [255u8; 4];
    let mut hi = [0u8; 4];
    for p in pal {
        for k in 0..4 { lo[k] = lo[k].min(p[k]); hi[k] = hi[k].max(p[k]); }
    }
    // per channel: value at 0, slopes
    let mut par = [[0f64; 4]; 4];
    for p in &mut par {
        *p = [r.f(), (r.f() - 0.5) * 1.6, (r.f() - 0.5) * 1.6, r.f()];
    }
    if !matches!(c.space, Space::Grid(_)) {
        par = [par[0]; 4];
    }
    let mut out = Vec::with_capacity((c.w * c.h) as usize);
    for y in 0..c.h {
        for x in 0..c.w {
            let fx = x as f64 / c.w as f64;
            let fy = y as f64 / c.h as f64;
            let mut p = [0u8; 4];
            for k in 0..4 {
                let [v, sx, sy, o] = par[k];
                let t = match c.shape {
                    Shape::Flat => v,
                    Shape::Linear => v + sx * fx + sy * fy,
                    Shape::Frame => if (0.25..0.75).contains(&fx) && (0.2..0.8).contains(&fy) { o } else { v },
                    Shape::Wave(n) => 0.5 + 0.5 * (v * 6. + (sx * fx + sy * fy) * n as f64).sin(),
                }
                .clamp(0., 1.);
                p[k] = (lo[k] as f64 + t * (hi[k] - lo[k]) as f64).round() as u8;
            }
            out.push(p);
        }
    }
    out
}

fn norm(v: &V) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn dist(x: &V, y: &V) -> f64 {
    norm(&[x[0] - y[0], x[1] - y[1], x[2] - y[2], x[3] - y[3]])
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "palette grid/line/opacity ramp of fine spacing x smooth image inside its hull x speed, level, gamma, size; averages over 16x16 blocks and row strips; non-trivial: level 1 and the undithered average of some area is off by more than 0.01";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let dims = match o.mode.as_str() {
            "big" => big_dims(),
            "mt" => (16u32..=120, 129u32..=700).boxed(),
            _ => prop_oneof![3 => (16u32..=96, 16u32..=96), 2 => (16u32..=60, 129u32..=330), 1 => (100u32..=300, 16u32..=40), 1 => (1u32..=15, 64u32..=200), 1=> (64u32..200, 1u32..=15)].boxed(),
        };
        let coarse = o.mode == "coarse";
        let space = prop_oneof![4 => (1u8..=7).prop_map(Space::Grid), 2 => (3u8..=7).prop_map(Space::Tied), 2 => Just(Space::Alpha)];
        let shape = prop_oneof![2 => Just(Shape::Flat), 4 => Just(Shape::Linear), 1 => Just(Shape::Frame), 1 => (1u8..4).prop_map(Shape::Wave)];
        (dims, space, shape, any::<[u8; 3]>(), prop_oneof![Just(0u8), 0u8..200], if coarse { 291u16..=4500 } else { 120u16..=290 }, any::<u32>(), (1u8..=10, prop_oneof![5 => Just(1f32), 1 => Just(0f32), 3 => (0u8..=100).prop_map(|x| x as f32 / 100.), 1 => Just(0.02f32)], gamma()))
            .prop_map(|((w, h), space, shape, base, lo, spacing, seed, (speed, level, gamma))| Case { w, h, space, shape, base, lo, spacing, seed, speed, level, gamma })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let g = eff_gamma(c.gamma);
        let l = lut(g);
        let mut cols = palette(c, &l);
        cols.sort();
        cols.dedup();
        if cols.len() < 2 || cols.len() > 256 {
            return Ok(());
        }
        let (w, h) = (c.w as usize, c.h as usize);
        let mut attr = imagequant::new();
        attr.set_speed(c.speed as i32).map_err(e2s)?;
        let mut res = frozen_palette(&attr, &cols, c.gamma).map_err(e2s)?;
        res.set_dithering_level(c.level).map_err(e2s)?;
        let inp = pixels(c, &cols);
        let px8: Vec<_> = inp.iter().map(|&p| rgba(p)).collect();
        let mut im = Image::new(&attr, px8, w, h, c.gamma).map_err(e2s)?;
        let (pal, idx) = res.remapped(&mut im).map_err(e2s)?;
        check_indices(&pal, &idx, w * h, 256)?;
        let pv = pal_vecs(&pal, g);
        // half of the largest cell diagonal
        let mut e: f64 = 0.;
        {
            for k in 0..4 {
                let mut v: Vec<u8> = cols.iter().map(|p| p[k]).collect();
                v.sort();
                v.dedup();
                let mut m: f64 = 0.;
                for p in v.windows(2) {
                    let mut a = cols[0];
                    let mut b = cols[0];
                    match c.space {
                        Space::Alpha => { a[3] = p[0]; b[3] = p[1]; }
                        _ => { a[k] = p[0]; b[k] = p[1]; }
                    }
                    m = m.max(dist(&vec_of(&l, a), &vec_of(&l, b)));
                }
                e += m * m;
            }
            e = e.sqrt() / 2.;
        }
        let mut cache = std::collections::HashMap::new();
        let iv: Vec<V> = inp.iter().map(|p| *cache.entry(*p).or_insert_with(|| vec_of(&l, *p))).collect();
        let ov = |i: usize| &pv[idx[i] as usize];
        // effective share of the error that is passed on
        let f = (1. - (1. - c.level as f64) * (1. - c.level as f64)) * 15. / 16.;
        let map = c.speed <= 6 && w >= 4 && h >= 4;
        // every pixel stays near its input
        let mut far: f64 = 0.;
        for i in 0..w * h {
            far = far.max(dist(ov(i), &iv[i]));
        }
        // big errors are deliberately not passed on in full
        let coarse = c.spacing > 290;
        let far_bound = if coarse { 2.1 } else { FAR_BOUND } * e + 0.003;
        ensure!(far <= far_bound, "a pixel is {far:.4} away from its input, palette cell half diagonal {e:.4}");
        // integral images of the difference and of the undithered difference
        let mut near_cache = std::collections::HashMap::new();
        let mut sum = vec![[0f64; 4]; (w + 1) * (h + 1)];
        let mut und = vec![[0f64; 4]; (w + 1) * (h + 1)];
        for y in 0..h {
            for x in 0..w {
                let i = y * w + x;
                let q = *near_cache.entry(inp[i]).or_insert_with(|| nearest(&pv, &iv[i]).0);
                for k in 0..4 {
                    let at = |s: &Vec<[f64; 4]>, v: f64| s[y * (w + 1) + x + 1][k] + s[(y + 1) * (w + 1) + x][k] - s[y * (w + 1) + x][k] + v;
                    sum[(y + 1) * (w + 1) + x + 1][k] = at(&sum, ov(i)[k] - iv[i][k]);
                    und[(y + 1) * (w + 1) + x + 1][k] = at(&und, pv[q][k] - iv[i][k]);
                }
            }
        }
        let area = |s: &Vec<[f64; 4]>, x0: usize, y0: usize, x1: usize, y1: usize| {
            let mut d = [0.; 4];
            for k in 0..4 {
                d[k] = (s[y1 * (w + 1) + x1][k] - s[y0 * (w + 1) + x1][k] - s[y1 * (w + 1) + x0][k] + s[y0 * (w + 1) + x0][k]) / ((x1 - x0) * (y1 - y0)) as f64;
            }
            norm(&d)
        };
        // strong enough level: every area of enough pixels keeps its average
        let mut areas = vec![];
        for (bw, bh) in [(16usize, 16usize), (w, 8), (8, h), (32, 32), (w, h)] {
            if bw > w || bh > h || bw * bh < 256 { continue; }
            let mut y = 0;
            while y + bh <= h {
                let mut x = 0;
                while x + bw <= w {
                    areas.push((x, y, x + bw, y + bh));
                    x += (bw / 2).max(1);
                }
                y += (bh / 2).max(1);
            }
        }
        let mut worst_und: f64 = 0.;
        let (mut improved, mut tested) = (0f64, 0f64);
        for &(x0, y0, x1, y1) in &areas {
            let d = area(&sum, x0, y0, x1, y1);
            let du = area(&und, x0, y0, x1, y1);
            worst_und = worst_und.max(du);
            if w < 16 || h < 16 { continue; }
            // f: part of the error passed on; errors up to 0.0055 are deliberately not diffused.
            // At speeds 1-6 the level is reduced further near edges and small details.
            let bound = match (f > 0.9, map) {
                _ if coarse => if f > 0.9 { e * 0.55 + 0.005 } else { e * 1.2 },
                (true, false) => if du > 0.0145 { if e <= 0.031 { 0.0053 } else { 0.0065 } } else if du > 0.011 { 0.0066 } else { 0.0072 },
                // steep gradients
                (true, true) if matches!(c.shape, Shape::Linear | Shape::Wave(_)) && w.min(h) < 48 => (du * 1.35).max(0.014),
                (true, true) => if du > 0.0155 { if e <= 0.031 && matches!(c.shape, Shape::Flat) { 0.0056 } else { (du * 0.5).max(0.008) } } else if du > 0.011 { 0.0065 } else { 0.011 },
                (false, false) => (1. - f) * e * 1.2 + 0.0075,
                (false, true) => ((1. - f * 0.7) * e * 1.3 + 0.0085).max(du * 1.1),
            };
            if std::env::var("CAL").is_ok() { if d / bound > 0.75 { eprintln!("CAL b {:.3} d={d:.4} du={du:.4} f={f:.3} {map} e={e:.4} {:?} {w}x{h} coarse {coarse}", d / bound, c.shape); } }
            ensure!(d <= bound, "average of the area {:?} is off by {d:.4} (undithered {du:.4}, allowed {bound:.4}; level {}, speed {}, palette cell half diagonal {e:.4})", (x0, y0, x1, y1), c.level, c.speed);
            if du > 0.011 && c.level == 1. && bound < du && !coarse {
                tested += 1.;
                improved += d / du;
            }
        }
        if tested > 0. {
            st.label_n("areas with visible undithered error", tested as u64);
            ensure!(improved / tested < 0.6, "dithering improves the averages of {tested} areas only to {:.2} of the undithered error", improved / tested);
        }
        if c.level == 0. {
            for i in 0..w * h {
                let q = near_cache[&inp[i]];
                ensure!((diff(ov(i), &iv[i]) - diff(&pv[q], &iv[i])).abs() < 1e-5, "level 0: pixel {:?} became {:?}, not the nearest color {:?}", inp[i], px(pal[idx[i] as usize]), px(pal[q]));
            }
        }
        if c.level > 0. && c.level <= 0.02 && !coarse {
            let same = (0..w * h).filter(|&i| idx[i] as usize == near_cache[&inp[i]] || (diff(ov(i), &iv[i]) - diff(&pv[near_cache[&inp[i]]], &iv[i])).abs() < 1e-5).count();
            ensure!(same * 10 >= w * h * 9, "level {}: only {same} of {} pixels are the nearest color", c.level, w * h);
            st.label("very low level");
        }
        if coarse { st.label("coarse palette"); }
        st.label(format!("{:?}", c.space).split('(').next().unwrap().to_string());
        st.nontrivial(c.level == 1. && worst_und > 0.01);
        Ok(())
    }
}
const FAR_BOUND: f64 = 2.3;
