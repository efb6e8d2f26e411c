//! Histograms.
use crate::common::*;
use imagequant::{Attributes, Error, Histogram, HistogramEntry, Image, RGBA};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Add {
    /// colors of the pool as an image
    Img { from: u8, n: u8, w: u8, map: bool },
    /// as color list with counts
    Cols { from: u8, n: u8, count: u32, split: u8 },
    /// counts of zero
    Zero { from: u8, n: u8 },
    Fixed { from: u8 },
    /// quantizes in between; must not matter
    Quantize,
    /// calls that fail
    Refused(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    Exact,
    /// two close colors share an entry of a 2-color palette, its place is decided by the counts
    Share { a: Px, d: [i8; 3], ca: u32, cb: u32, far: u32, parts: u8, repost: u8 },
    /// more colors than the palette has
    Lossy { images: Vec<Img>, ditherings: Vec<f32> },
    /// a color list longer than 16 bits can count, with colors that occur only in one place
    Many { len: u32 },
    /// more colors than the histogram keeps exactly, and single colors far away from all others
    Crowd { single: u8, images: u8, max_colors: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pool: Vec<Px>,
    adds: Vec<Add>,
    seed: u32,
    speed: u8,
    slack: u8,
    gamma: f64,
    kind: Kind,
}
pub struct P;

fn part(pool: &[Px], from: u8, n: u8) -> Vec<Px> {
    (0..(n as usize).max(1)).map(|i| pool[(from as usize + i) % pool.len()]).collect()
}

fn apply(a: &Attributes, h: &mut Histogram, pool: &[Px], gamma: f64, add: &Add) -> Result<Vec<Px>, String> {
    Ok(match add {
        Add::Img { from, n, w, map } => {
            let p = part(pool, *from, *n);
            let w = (*w as usize % 9) + 1;
            let hh = (p.len() + w - 1) / w;
            let pixels: Vec<RGBA> = (0..w * hh).map(|i| rgba(p[i % p.len()])).collect();
            let mut im = Image::new(a, pixels, w, hh, gamma).map_err(e2s)?;
            if *map {
                im.set_importance_map(vec![1u8; w * hh]).map_err(e2s)?;
            }
            h.add_image(a, &mut im).map_err(|e| format!("add_image: {e:?}"))?;
            p
        }
        Add::Cols { from, n, count, split } => {
            let p = part(pool, *from, *n);
            let e: Vec<_> = p.iter().map(|&c| HistogramEntry { color: rgba(c), count: (*count).max(1) }).collect();
            for part in e.chunks((*split as usize).max(1)) {
                h.add_colors(part, gamma).map_err(|e| format!("add_colors: {e:?}"))?;
            }
            p
        }
        Add::Zero { from, n } => {
            let e: Vec<_> = (0..=*n).map(|i| HistogramEntry { color: RGBA::new(from.wrapping_add(i), i, 7, 255), count: 0 }).collect();
            h.add_colors(&e, gamma).map_err(|e| format!("add_colors: {e:?}"))?;
            vec![]
        }
        Add::Fixed { from } => {
            let p = part(pool, *from, 1);
            h.add_fixed_color(rgba(p[0]), gamma).map_err(|e| format!("add_fixed_color: {e:?}"))?;
            p
        }
        Add::Quantize => {
            let _ = h.quantize(a);
            vec![]
        }
        Add::Refused(k) => {
            let c = RGBA::new(201, 3, 99, 255);
            match k % 4 {
                0 => ensure!(h.add_colors(&[], gamma) == Err(Error::ValueOutOfRange), "empty list accepted"),
                1 => ensure!(h.add_colors(&[HistogramEntry { color: c, count: 5 }], -1.) == Err(Error::ValueOutOfRange), "negative gamma accepted"),
                2 => ensure!(h.add_fixed_color(c, f64::NAN) == Err(Error::ValueOutOfRange), "NaN gamma accepted"),
                _ => {
                    let mut im = Image::new(a, vec![c; 4], 2, 2, gamma).map_err(e2s)?;
                    for i in 0..255u8 { im.add_fixed_color(RGBA::new(i, 1, 2, 255)).map_err(e2s)?; }
                    im.add_fixed_color(RGBA::new(1, 1, 3, 255)).map_err(e2s)?;
                    let r = h.add_image(a, &mut im);
                    if r.is_ok() {
                        return Err("skip".into());
                    }
                }
            }
            vec![]
        }
    })
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "sequences of image/color-list/fixed-color additions in two orders and groupings; count-weighted position of shared entries; remaps of several images with one palette; non-trivial: at least 2 additions of overlapping or different colors, or counts differing by a factor of 2, or at least 2 remaps with a palette of 3 colors";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let add = prop_oneof![
            4 => (any::<u8>(), 1u8..40, any::<u8>(), any::<bool>()).prop_map(|(from, n, w, map)| Add::Img { from, n, w, map }),
            4 => (any::<u8>(), 1u8..40, prop_oneof![Just(1u32), 1u32..1000, any::<u32>(), Just(u32::MAX)], 1u8..10).prop_map(|(from, n, count, split)| Add::Cols { from, n, count, split }),
            1 => (any::<u8>(), 0u8..30).prop_map(|(from, n)| Add::Zero { from, n }),
            2 => any::<u8>().prop_map(|from| Add::Fixed { from }),
            1 => Just(Add::Quantize),
            1 => any::<u8>().prop_map(Add::Refused),
        ];
        let big = prop_oneof![1u32..2000, any::<u32>(), Just(u32::MAX), Just(1u32 << 31)];
        let kind = prop_oneof![
            4 => Just(Kind::Exact),
            4 => (prop::array::uniform3(30u8..=85), prop::array::uniform3(-14i8..=14), big.clone(), big, (0u8..=30).prop_map(|x| 1u32 << x), 1u8..5, 0u8..5)
                .prop_map(|(a, d, ca, cb, far, parts, repost)| Kind::Share { a: [a[0], a[1], a[2], 255], d, ca: ca.max(1), cb: cb.max(1), far, parts, repost }),
            3 => (prop::collection::vec(small_img(), 1..4), prop::collection::vec(dither(), 1..5)).prop_map(|(images, ditherings)| Kind::Lossy { images, ditherings }),
        ];
        let kind = if o.mode == "long" {
            prop_oneof![
                1 => (65530u32..=200_000).prop_map(|len| Kind::Many { len }),
                1 => (1u8..=7, 1u8..=3, 48u16..=256).prop_map(|(single, images, max_colors)| Kind::Crowd { single, images, max_colors }),
            ].boxed()
        } else {
            kind.boxed()
        };
        (prop_oneof![colors(1..60), colors(1..250)], prop::collection::vec(add, 1..7), any::<u32>(), 1u8..=10, 0u8..20, prop_oneof![3 => Just(0f64), 1 => (200u32..=990).prop_map(|x| x as f64 / 1000.)], kind)
            .prop_map(|(pool, adds, seed, speed, slack, gamma, kind)| Case { pool, adds, seed, speed, slack, gamma, kind })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let mut attr = Attributes::new();
        attr.set_speed(c.speed as i32).map_err(e2s)?;
        match &c.kind {
            Kind::Exact => {
                // colors that stay distinct
                let mut seen = std::collections::HashSet::new();
                let pool: Vec<Px> = c.pool.iter().map(|&p| canon(p)).filter(|p| seen.insert(if c.speed >= 8 && p[3] > 0 { p.map(|v| v & 254) } else { *p })).collect();
                let union = |adds: &[Add]| -> Result<(std::collections::BTreeSet<Px>, Option<Result<_, Error>>, bool), String> {
                    let mut h = Histogram::new(&attr);
                    let mut set = std::collections::BTreeSet::new();
                    let mut fixed = vec![];
                    let mut skip = false;
                    for a in adds {
                        if let Add::Fixed { from } = a {
                            // the same fixed color twice takes two places
                            let p = part(&pool, *from, 1)[0];
                            if fixed.contains(&p) { continue; }
                            fixed.push(p);
                        }
                        match apply(&attr, &mut h, &pool, c.gamma, a) {
                            Ok(p) => set.extend(p),
                            Err(e) if e == "skip" => { skip = true; break; }
                            Err(e) => return Err(e),
                        }
                    }
                    let mut attr = attr.clone();
                    attr.set_max_colors((set.len() as u32 + c.slack as u32).clamp(2, 256)).map_err(e2s)?;
                    let r = h.quantize(&attr).map(|mut r| (r.palette_vec(), r.quantization_error()));
                    let again = h.quantize(&attr).map(|mut r| (r.palette_vec(), r.quantization_error()));
                    if !skip {
                        ensure!(r == again, "quantizing the same histogram again gives another result");
                    }
                    Ok((set, Some(r), skip))
                };
                let (set, r, skip) = union(&c.adds)?;
                if skip { return Ok(()); }
                let r = r.unwrap();
                if set.is_empty() {
                    ensure!(matches!(r, Err(Error::Unsupported)), "an empty histogram gave {r:?}");
                    st.label("empty");
                    return Ok(());
                }
                let (pal, err) = r.map_err(|e| format!("quantize: {e:?}"))?;
                ensure!(color_set(&pal) == set && pal.len() == set.len(), "palette {:?} is not the union {:?}", color_set(&pal), set);
                ensure!(err == Some(0.), "reported error {err:?}");
                // another order, other grouping, zero counts added
                let mut other: Vec<Add> = vec![];
                for a in &c.adds {
                    match a {
                        Add::Img { from, n, w, map } if n % 2 == 0 => {
                            other.push(Add::Img { from: *from, n: n / 2, w: w.wrapping_add(3), map: !map });
                            let rest = part(&pool, *from, *n)[(*n / 2) as usize..].to_vec();
                            let f = pool.iter().position(|p| *p == rest[0]).unwrap() as u8;
                            other.push(Add::Cols { from: f, n: rest.len() as u8, count: 3, split: 2 });
                        }
                        Add::Cols { from, n, count, split } => {
                            other.push(Add::Cols { from: *from, n: *n, count: count / 2, split: split + 1 });
                            other.push(Add::Cols { from: *from, n: *n, count: *count, split: 1 });
                        }
                        a => other.push(a.clone()),
                    }
                }
                other.push(Add::Zero { from: 3, n: 9 });
                Sm::new(c.seed as u64).shuffle(&mut other);
                let (set2, r2, skip) = union(&other)?;
                if skip || set2 != set { return Ok(()); }
                let (pal2, err2) = r2.unwrap().map_err(|e| format!("quantize: {e:?}"))?;
                ensure!(color_set(&pal2) == set && pal2.len() == set.len() && err2 == Some(0.), "another order or grouping of additions: palette {:?} is not the union {:?}", color_set(&pal2), set);
                st.label("exact union");
                st.nontrivial(set.len() > 1 && c.adds.len() > 1);
            }
            Kind::Share { a, d, ca, cb, far, parts, repost } => {
                let b = [(a[0] as i16 + d[0] as i16) as u8, (a[1] as i16 + d[1] as i16) as u8, (a[2] as i16 + d[2] as i16) as u8, 255];
                let g = eff_gamma(c.gamma);
                let l = lut(g);
                let (va, vb) = (vec_of(&l, *a), vec_of(&l, b));
                let dist = diff(&va, &vb);
                if dist < 2e-4 { return Ok(()); }
                attr.set_speed(c.speed.max(5) as i32).map_err(e2s)?;
                attr.set_max_colors(2).map_err(e2s)?;
                attr.set_quality(0, 100).map_err(e2s)?;
                // the far group always has more weight than the pair
                let fc = (*far).clamp(ca.saturating_add(*cb) / 6, ca.saturating_add(*cb)).max(1);
                let mut list: Vec<(Px, u64)> = (0..30).map(|i| ([225 + (i % 6) as u8 * 2, 231 + (i / 6) as u8 * 2, 229, 255], fc as u64)).collect();
                let nf = list.len();
                list.push((*a, *ca as u64));
                list.push((b, *cb as u64));
                // every count in parts that add up to it, or to more than fits
                let over = c.seed % 3 == 0;
                let mut adds: Vec<(Px, u32)> = vec![];
                for &(p, n) in &list {
                    let k = *parts as u64;
                    for i in 0..k {
                        adds.push((p, (n / k + if i == 0 { n % k } else { 0 }) as u32));
                    }
                    if over && n == u32::MAX as u64 {
                        adds.push((p, 5));
                        adds.push((p, u32::MAX));
                    }
                    if c.seed % 5 == 0 { adds.push((p, 0)); }
                }
                Sm::new(c.seed as u64).shuffle(&mut adds);
                let e: Vec<_> = adds.iter().map(|&(p, n)| HistogramEntry { color: rgba(p), count: n }).collect();
                let mut h = Histogram::new(&attr);
                for x in e.chunks(1 + c.seed as usize % 37) {
                    h.add_colors(x, c.gamma).map_err(e2s)?;
                }
                let mut extra = 0.;
                if *repost > 0 {
                    // the image is added with posterization on: entries are merged, their counts added up
                    let mut ap = attr.clone();
                    ap.set_min_posterization((*repost - 1).min(2)).map_err(e2s)?;
                    let mut im = Image::new(&ap, vec![rgba(list[0].0); 3], 3, 1, c.gamma).map_err(e2s)?;
                    im.set_importance_map(vec![1u8; 3]).map_err(e2s)?;
                    h.add_image(&ap, &mut im).map_err(e2s)?;
                    extra = 3.;
                    st.label("merged entries");
                }
                let mut res = h.quantize(&attr).map_err(e2s)?;
                let pal = res.palette_vec();
                ensure!(pal.len() == 2, "2 colors expected, got {:?}", pal);
                // with posterization several colors of the far group become one
                let bits = if *repost > 0 { (*repost - 1).min(2).max(if attr.speed() >= 8 { 1 } else { 0 }) } else if attr.speed() >= 8 { 1 } else { 0 };
                let key = |p: &Px| p.map(|v| v >> bits);
                if key(a) == key(&b) { return Ok(()); }
                let total: f64 = list.iter().map(|x| x.1 as f64).sum::<f64>() + extra;
                let _ = nf;
                let (wa, wb) = ((*ca as f64).min(total * 0.1), (*cb as f64).min(total * 0.1));
                let mut x = [0.; 4];
                for k in 0..4 { x[k] = (va[k] * wa + vb[k] * wb) / (wa + wb); }
                let got = pal_vecs(&pal, g).iter().map(|p| diff(p, &x)).fold(f64::INFINITY, f64::min).sqrt();
                let tol = if attr.speed() >= 7 { 0.006 } else { 0.006 + 0.1 * dist.sqrt() };
                ensure!(got <= tol, "colors {a:?} x{ca} and {b:?} x{cb} share an entry at distance {got:.4} from their weighted average (distance of the two {:.4}); palette {:?}", dist.sqrt(), pal);
                st.label("shared entry");
                st.nontrivial((wa / wb).ln().abs() > 0.7);
            }
            Kind::Many { len } => {
                let mut seen = std::collections::HashSet::new();
                let pool: Vec<Px> = c.pool.iter().map(|&p| canon(p)).filter(|p| seen.insert(if c.speed >= 8 && p[3] > 0 { p.map(|v| v & 254) } else { *p })).collect();
                let mut r = Sm::new(c.seed as u64);
                let common = 1 + r.below(pool.len());
                let mut list: Vec<HistogramEntry> = (0..*len).map(|_| HistogramEntry { color: rgba(pool[r.below(common)]), count: 1 + r.below(5) as u32 }).collect();
                let mut set: std::collections::BTreeSet<Px> = Default::default();
                for &p in &pool[common..] {
                    let at = if r.below(3) == 0 { list.len() - 1 - r.below(300) } else { r.below(list.len()) };
                    list[at].color = rgba(p);
                }
                set.extend(list.iter().map(|e| px(e.color)));
                attr.set_max_colors((set.len() as u32 + c.slack as u32).clamp(2, 256)).map_err(e2s)?;
                let mut h = Histogram::new(&attr);
                h.add_colors(&list, c.gamma).map_err(e2s)?;
                let mut res = h.quantize(&attr).map_err(|e| format!("quantize: {e:?}"))?;
                let pal = res.palette_vec();
                ensure!(color_set(&pal) == set && pal.len() == set.len(), "list of {len} entries: palette {:?} is not the set of its colors {:?}", color_set(&pal), set);
                st.label("long list");
                st.nontrivial(set.len() > 2);
            }
            Kind::Crowd { single, images, max_colors } => {
                attr.set_speed(10).map_err(e2s)?;
                attr.set_max_colors(*max_colors as u32).map_err(e2s)?;
                let mut r = Sm::new(c.seed as u64);
                // every octant has either noise or one color only
                let noisy = r.below(8);
                let mut rest: Vec<usize> = (0..8).filter(|&o| o != noisy).collect();
                r.shuffle(&mut rest);
                let at = |o: usize, k: usize| if o >> k & 1 == 1 { 128u8 } else { 0 };
                let singles: Vec<Px> = rest.iter().take(*single as usize)
                    .map(|&o| { let mut p = [0, 0, 0, 255]; for k in 0..3 { p[k] = at(o, k) + 44 + r.below(40) as u8; } p }).collect();
                let (w, hh) = (560 + r.below(40), 500);
                let mut h = Histogram::new(&attr);
                for i in 0..*images as usize {
                    let mut pixels: Vec<RGBA> = (0..w * hh).map(|_| { let v = r.next(); RGBA::new(at(noisy, 0) | v as u8 & 127, at(noisy, 1) | (v >> 8) as u8 & 127, at(noisy, 2) | (v >> 16) as u8 & 127, 255) }).collect();
                    for (j, &s) in singles.iter().enumerate() {
                        if j % *images as usize == i {
                            let len = pixels.len() / 20;
                            let start = 2 * j * len + r.below(len);
                            pixels[start..start + len].fill(rgba(s));
                        }
                    }
                    let mut im = Image::new(&attr, pixels, w, hh, c.gamma).map_err(e2s)?;
                    h.add_image(&attr, &mut im).map_err(|e| format!("add_image: {e:?}"))?;
                }
                let mut res = h.quantize(&attr).map_err(|e| format!("quantize: {e:?}"))?;
                let pal = res.palette_vec();
                ensure!(pal.len() <= *max_colors as usize, "{} colors", pal.len());
                let l = lut(eff_gamma(c.gamma));
                let pv = pal_vecs(&pal, eff_gamma(c.gamma));
                for &s in &singles {
                    let v = vec_of(&l, s);
                    let d = pv.iter().map(|p| diff(p, &v)).fold(f64::INFINITY, f64::min).sqrt();
                    if std::env::var("CAL").is_ok() { eprintln!("CAL {d:.4}"); }
                    ensure!(d < 0.06, "{s:?} has 1/20 of the pixels of an image, but the nearest entry of {max_colors} is {d:.3} away");
                }
                st.label("more colors than kept");
                st.nontrivial(true);
            }
            Kind::Lossy { images, ditherings } => {
                attr.set_max_colors(2 + (c.seed % 30)).map_err(e2s)?;
                let pool: Vec<Px> = c.pool.iter().map(|&p| canon(p)).collect();
                let mut h = Histogram::new(&attr);
                let mut n = 0;
                for a in &c.adds {
                    match a {
                        // (an image with 256 fixed colors may be accepted)
                        Add::Refused(k) if k % 4 == 3 => continue,
                        a => n += apply(&attr, &mut h, &pool, c.gamma, a)?.len(),
                    }
                }
                for im in images {
                    h.add_image(&attr, &mut new_image(&attr, im, c.gamma)).map_err(|e| format!("add_image: {e:?}"))?;
                }
                let _ = n;
                let mut res = h.quantize(&attr).map_err(|e| format!("quantize: {e:?}"))?;
                let mut res2 = h.quantize(&attr).map_err(|e| format!("quantize again: {e:?}"))?;
                let pal = if c.seed % 2 == 0 { res.palette_vec() } else { res.clone().palette_vec() };
                ensure!(res2.palette_vec() == pal && same_err(res.quantization_error(), res2.quantization_error()), "quantizing the same histogram again gives another palette: {:?} vs {:?}", pal, res2.palette_vec());
                let mut r = Sm::new(c.seed as u64);
                for (i, &d) in ditherings.iter().enumerate() {
                    let im = &images[i % images.len()];
                    res.set_dithering_level(d).map_err(e2s)?;
                    let mut image = new_image(&attr, im, c.gamma);
                    if r.below(3) == 0 {
                        image.set_importance_map((0..im.n()).map(|_| r.next() as u8).collect::<Vec<_>>()).map_err(e2s)?;
                    }
                    if r.below(3) == 0 {
                        let bg = new_image(&attr, im, c.gamma);
                        image.set_background(bg).map_err(e2s)?;
                    }
                    let (p, idx) = res.remapped(&mut image).map_err(|e| format!("remap: {e:?}"))?;
                    ensure!(p == pal, "remapping {i} (dither {d}) changed the shared palette: {:?} vs {:?}", p, pal);
                    check_indices(&p, &idx, im.n(), attr.max_colors() as usize)?;
                    ensure!(res.palette_vec() == pal, "palette differs after remapping {i}");
                }
                st.label("shared palette");
                st.nontrivial(ditherings.len() > 1 && pal.len() > 2);
            }
        }
        Ok(())
    }
}
