//! Importance map.
use crate::common::*;
use imagequant::{Error, Histogram, Image, RGBA};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    /// replace colors of zero-importance pixels
    Zero { maps: u8, replace: u8 },
    /// two close colors share an entry; where it lands is decided by their importance
    Share { a: Px, d: [i8; 3], na: u8, nb: u8, ia: u8, ib: u8 },
    NoneImportant,
    BadSize { delta: i32, keep: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: Img,
    s: Settings,
    seed: u32,
    gamma: f64,
    dither: f32,
    kind: Kind,
    hist: bool,
}
pub struct P;

fn map(n: usize, seed: u32, style: u8) -> Vec<u8> {
    let mut r = Sm::new(seed as u64 ^ 0x1234);
    let mut v: Vec<u8> = (0..n)
        .map(|i| match style % 4 {
            0 => [0u8, 255][r.below(2)],
            1 => if r.below(3) == 0 { 0 } else { 1 + r.below(255) as u8 },
            2 => if i % 2 == 0 { 0 } else { 1 },
            _ => if r.below(10) == 0 { 200 } else { 0 },
        })
        .collect();
    v[r.below(n)] = 1 + r.below(255) as u8;
    v
}

fn quantize(attr: &imagequant::Attributes, im: &mut Image, hist: bool) -> Result<imagequant::QuantizationResult, Error> {
    if hist {
        let mut h = Histogram::new(attr);
        h.add_image(attr, im)?;
        h.quantize(attr)
    } else {
        attr.quantize(im)
    }
}

struct Outcome {
    pal: Vec<RGBA>,
    err: Option<f64>,
    pal2: Vec<RGBA>,
    again: Vec<RGBA>,
    important: Vec<RGBA>,
}

fn outcome(c: &Case, pixels: &[RGBA], m: &[u8], earlier: u8) -> Result<Option<Outcome>, String> {
    let attr = c.s.attr();
    let mut im = Image::new(&attr, pixels, c.img.w as usize, c.img.h as usize, c.gamma).map_err(e2s)?;
    // what the image went through before it got this map
    if earlier & 1 != 0 {
        im.set_importance_map(map(m.len(), c.seed ^ 77, earlier)).map_err(|e| format!("map refused: {e:?}"))?;
    }
    if earlier & 2 != 0 {
        let _ = quantize(&attr, &mut im, c.hist);
    }
    im.set_importance_map(m).map_err(|e| format!("map refused: {e:?}"))?;
    let mut res = match quantize(&attr, &mut im, c.hist) {
        Ok(r) => r,
        Err(Error::QualityTooLow) => return Ok(None),
        Err(e) => return Err(format!("quantize: {e:?}")),
    };
    // the map stays for a later quantization of the same image
    let again = match quantize(&attr, &mut im, c.hist) {
        Ok(mut r) => r.palette_vec(),
        Err(e) => return Err(format!("second quantization: {e:?}")),
    };
    let pal = res.palette_vec();
    let err = res.quantization_error();
    res.set_dithering_level(c.dither).map_err(e2s)?;
    let (pal2, idx) = res.remapped(&mut im).map_err(e2s)?;
    let _ = idx;
    // remapping of the same image once more, e.g. with another palette made by another job
    let mut res2 = res.clone();
    res2.set_dithering_level(0.).map_err(e2s)?;
    let (_, idx2) = res2.remapped(&mut im).map_err(e2s)?;
    let important = (0..m.len()).filter(|&i| m[i] > 0).map(|i| pal[idx2[i] as usize]).collect();
    Ok(Some(Outcome { pal, err, pal2, again, important }))
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "image x importance map x replacement of zero-importance pixels, and pairs of close colors of different importance; non-trivial: zero-importance pixels were given other colors and the palette has at least 3 colors, or the shared entry's position was decided by importance";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let long = o.mode == "long";
        let im = if long { img_of(long_dims()) } else { small_img() };
        let kind = prop_oneof![
            6 => (any::<u8>(), any::<u8>()).prop_map(|(maps, replace)| Kind::Zero { maps, replace }),
            5 => (prop::array::uniform3(30u8..=85), prop::array::uniform3(-14i8..=14), 1u8..6, 1u8..6, any::<u8>(), any::<u8>())
                .prop_map(|(a, d, na, nb, ia, ib)| Kind::Share { a: [a[0], a[1], a[2], 255], d, na, nb, ia: ia.max(1), ib: ib.max(1) }),
            1 => Just(Kind::NoneImportant),
            1 => (prop_oneof![Just(-1i32), Just(1), -50i32..50], any::<bool>()).prop_map(|(delta, keep)| Kind::BadSize { delta, keep }),
        ];
        (im, settings(), any::<u32>(), gamma(), dither(), kind, any::<bool>())
            .prop_map(move |(img, mut s, seed, gamma, dither, mut kind, hist)| {
                if long {
                    s.speed = s.speed.max(5);
                    kind = Kind::Zero { maps: seed as u8, replace: (seed >> 8) as u8 };
                }
                if let Some((_, max)) = s.quality {
                    s.quality = Some((0, max));
                }
                Case { img, s, seed, gamma, dither, kind, hist }
            })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let attr = c.s.attr();
        let n = c.img.n();
        match &c.kind {
            Kind::Zero { maps, replace } => {
                let m = map(n, c.seed, *maps);
                let p1 = c.img.pixels();
                let mut p2 = p1.clone();
                let mut r = Sm::new(c.seed as u64);
                let mut changed = 0;
                for i in 0..n {
                    if m[i] == 0 && (*replace >= 128 || r.below(128) <= *replace as usize) {
                        let v = r.next();
                        let q = match replace % 4 {
                            0 => RGBA::new(255, 0, 255, 255),
                            1 => RGBA::new(v as u8, (v >> 8) as u8, (v >> 16) as u8, 255),
                            2 => RGBA::new(v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8),
                            _ => RGBA::new(0, 0, 0, 0),
                        };
                        if q != p2[i] {
                            changed += 1;
                            p2[i] = q;
                        }
                    }
                }
                let (a, b) = (outcome(c, &p1, &m, (c.seed >> 9) as u8)?, outcome(c, &p2, &m, 0)?);
                let (a, b) = match (a, b) {
                    (Some(a), Some(b)) => (a, b),
                    (None, None) => return Ok(()),
                    _ => return Err("zero-importance pixels decide whether the quality is sufficient".into()),
                };
                ensure!(a.pal == b.pal, "zero-importance pixels changed the palette: {:?} vs {:?}", a.pal, b.pal);
                ensure!(same_err(a.err, b.err), "zero-importance pixels changed the quantization error: {:?} vs {:?}", a.err, b.err);
                ensure!(a.again == b.again, "zero-importance pixels changed the palette of a second quantization");
                ensure!(a.again == a.pal, "second quantization of the same image differs: {:?} vs {:?}", a.again, a.pal);
                ensure!(a.pal2 == b.pal2, "zero-importance pixels changed the palette refined during remapping (dither {}): {:?} vs {:?}", c.dither, a.pal2, b.pal2);
                // (ties between entries at the same distance may be resolved differently)
                let l = lut(eff_gamma(c.gamma));
                let imp: Vec<RGBA> = p1.iter().zip(&m).filter(|(_, &w)| w > 0).map(|(&p, _)| p).collect();
                for (i, p) in imp.iter().enumerate() {
                    let v = vec_of(&l, canon(px(*p)));
                    let (da, db) = (diff(&vec_of(&l, canon(px(a.important[i]))), &v).sqrt(), diff(&vec_of(&l, canon(px(b.important[i]))), &v).sqrt());
                    ensure!((da - db).abs() < 0.012, "important pixel {:?} was remapped to {:?} or {:?} depending on pixels without importance", px(*p), px(a.important[i]), px(b.important[i]));
                }
                st.label("zero importance");
                if c.dither > 0. && c.s.speed <= 6 && !c.hist { st.label("refined during remapping"); }
                st.nontrivial(changed > 0 && a.pal.len() >= 3);
            }
            Kind::Share { a, d, na, nb, ia, ib } => {
                let b = [(a[0] as i16 + d[0] as i16) as u8, (a[1] as i16 + d[1] as i16) as u8, (a[2] as i16 + d[2] as i16) as u8, 255];
                let l = lut(eff_gamma(c.gamma));
                let (va, vb) = (vec_of(&l, *a), vec_of(&l, b));
                let mut attr = imagequant::new();
                attr.set_max_colors(2).map_err(e2s)?;
                attr.set_speed(c.s.speed.max(5) as i32).map_err(e2s)?;
                attr.set_quality(0, 100).map_err(e2s)?;
                let dist = diff(&va, &vb);
                if dist < 1e-4 {
                    return Ok(());
                }
                // a far away group with most of the weight
                let far: Vec<Px> = (0..30).map(|i| [225 + (i % 6) as u8 * 2, 231 + (i / 6) as u8 * 2, 229, 255]).collect();
                let mut pixels = Vec::new();
                let mut m = Vec::new();
                for _ in 0..*na { pixels.push(rgba(*a)); m.push(*ia); }
                for _ in 0..*nb { pixels.push(rgba(b)); m.push(*ib); }
                for (i, &f) in far.iter().enumerate() {
                    for _ in 0..2 + (c.seed as usize + i) % 3 { pixels.push(rgba(f)); m.push(255); }
                }
                let mut o: Vec<usize> = (0..pixels.len()).collect();
                Sm::new(c.seed as u64).shuffle(&mut o);
                let pixels: Vec<RGBA> = o.iter().map(|&i| pixels[i]).collect();
                let m: Vec<u8> = o.iter().map(|&i| m[i]).collect();
                let mut im = Image::new(&attr, &pixels[..], pixels.len(), 1, c.gamma).map_err(e2s)?;
                im.set_importance_map(&m[..]).map_err(e2s)?;
                let mut res = quantize(&attr, &mut im, c.hist).map_err(e2s)?;
                let pal = res.palette_vec();
                ensure!(pal.len() == 2, "2 colors expected, got {:?}", pal);
                let pv = pal_vecs(&pal, eff_gamma(c.gamma));
                // expected position: average weighted by importance, each color's weight limited to a tenth of the total
                let total: f64 = m.iter().map(|&x| x as f64).sum();
                let wa = (*na as f64 * *ia as f64).min(total * 0.1);
                let wb = (*nb as f64 * *ib as f64).min(total * 0.1);
                let mut e = [0.; 4];
                for k in 0..4 { e[k] = (va[k] * wa + vb[k] * wb) / (wa + wb); }
                let (near, got) = pv.iter().map(|p| diff(p, &e)).enumerate().min_by(|a, b| a.1.total_cmp(&b.1)).unwrap();
                let got = got.sqrt();
                // colors are rounded to 8 bits
                let next = pal[near];
                let step = diff(&pv[near], &vec_of(&l, [next.r.saturating_add(1), next.g.saturating_add(1), next.b.saturating_add(1), 255])).sqrt();
                let tol = if attr.speed() >= 7 { 0.001 + step } else { 0.001 + step + 0.1 * dist.sqrt() };
                if std::env::var("CAL").is_ok() { eprintln!("CAL {:.3} {}", (got - step) / (tol - step), attr.speed()); }
                ensure!(got <= tol, "colors {a:?} x{na} importance {ia} and {b:?} x{nb} importance {ib} share an entry at distance {got:.4} from their weighted average; palette {:?}", pal);
                st.label("shared entry");
                st.nontrivial((wa / wb).ln().abs() > 0.7);
            }
            Kind::NoneImportant => {
                let mut im = new_image(&attr, &c.img, c.gamma);
                im.set_importance_map(vec![0u8; n]).map_err(e2s)?;
                let r = quantize(&attr, &mut im, c.hist);
                ensure!(matches!(r, Err(Error::Unsupported)), "an image without important pixels gave {:?}", r.map(|mut r| r.palette_vec()));
                // and it can be made important again
                im.set_importance_map(vec![1u8; n]).map_err(e2s)?;
                ensure!(!matches!(quantize(&attr, &mut im, c.hist), Err(Error::Unsupported)), "image unusable after failed quantization");
                st.label("nothing important");
            }
            Kind::BadSize { delta, keep } => {
                let mut im = new_image(&attr, &c.img, c.gamma);
                let m = map(n, c.seed, 1);
                if *keep {
                    im.set_importance_map(&m[..]).map_err(e2s)?;
                }
                let bad = (n as i64 + if *delta == 0 { 3 } else { *delta as i64 }).max(0) as usize;
                let bad = if bad == n { n + 1 } else { bad };
                ensure!(im.set_importance_map(vec![0u8; bad]) == Err(Error::BufferTooSmall), "map of {bad} bytes accepted for {n} pixels");
                let mut im2 = new_image(&attr, &c.img, c.gamma);
                if *keep {
                    im2.set_importance_map(&m[..]).map_err(e2s)?;
                }
                let a = quantize(&attr, &mut im, c.hist).map(|mut r| r.palette_vec());
                let b = quantize(&attr, &mut im2, c.hist).map(|mut r| r.palette_vec());
                ensure!(a == b, "a refused importance map changed the result");
                st.label("wrong size");
            }
        }
        Ok(())
    }
}
