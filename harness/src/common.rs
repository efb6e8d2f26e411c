//! Shared generators (serialisable case parts), reference metric, statistics.
use imagequant::{Attributes, Histogram, Image, QuantizationResult, RGBA};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub type Px = [u8; 4]; // r, g, b, a

pub fn rgba(p: Px) -> RGBA {
    RGBA::new(p[0], p[1], p[2], p[3])
}
pub fn px(c: RGBA) -> Px {
    [c.r, c.g, c.b, c.a]
}
/// All fully transparent colors are one color.
pub fn canon(p: Px) -> Px {
    if p[3] == 0 { [0, 0, 0, 0] } else { p }
}

// ---------------------------------------------------------------- statistics
#[derive(Default)]
pub struct Stats {
    pub counting: bool,
    pub evaluations: u64,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial_hashes: HashSet<u64>,
    pub cur_nontrivial: bool,
    pub samples: Vec<serde_json::Value>,
}
impl Stats {
    pub fn label(&mut self, s: impl Into<String>) {
        if self.counting {
            *self.labels.entry(s.into()).or_insert(0) += 1;
        }
    }
    pub fn label_n(&mut self, s: impl Into<String>, n: u64) {
        if self.counting {
            *self.labels.entry(s.into()).or_insert(0) += n;
        }
    }
    pub fn nontrivial(&mut self, b: bool) {
        if b {
            self.cur_nontrivial = true;
        }
    }
}

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

pub trait Prop {
    type Case: Serialize + serde::de::DeserializeOwned + std::fmt::Debug + Clone + 'static;
    const RULE: &'static str;
    fn strategy(o: &Opts) -> BoxedStrategy<Self::Case>;
    fn check(c: &Self::Case, st: &mut Stats) -> R;
}

#[derive(Clone, Debug, Default)]
pub struct Opts {
    /// sub-mode of a property (e.g. "big", "mt")
    pub mode: String,
    pub thorough: bool,
}

// ---------------------------------------------------------------- PRNG (pure expansion of generated seeds)
#[derive(Clone)]
pub struct Sm(pub u64);
impl Sm {
    pub fn new(s: u64) -> Self {
        Sm(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n.max(1)
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

// ---------------------------------------------------------------- colors
pub fn color() -> BoxedStrategy<Px> {
    prop_oneof![
        5 => any::<[u8; 3]>().prop_map(|c| [c[0], c[1], c[2], 255]),
        3 => any::<[u8; 4]>(),
        2 => (any::<u8>(), prop_oneof![Just(255u8), any::<u8>()]).prop_map(|(g, a)| [g, g, g, a]),
        1 => any::<[u8; 3]>().prop_map(|c| [c[0], c[1], c[2], 0]),
        1 => prop::array::uniform4(prop_oneof![Just(0u8), Just(1), Just(127), Just(128), Just(254), Just(255)]),
        1 => (any::<[u8; 3]>(), prop_oneof![1u8..4, 250u8..=255]).prop_map(|(c, a)| [c[0], c[1], c[2], a]),
    ]
    .boxed()
}
pub fn opaque_color() -> BoxedStrategy<Px> {
    prop_oneof![
        4 => any::<[u8; 3]>().prop_map(|c| [c[0], c[1], c[2], 255]),
        1 => any::<u8>().prop_map(|g| [g, g, g, 255]),
    ]
    .boxed()
}

/// A list of colors, some of them near-duplicates of earlier ones.
pub fn colors(n: impl Into<prop::collection::SizeRange>) -> BoxedStrategy<Vec<Px>> {
    (prop::collection::vec(color(), n), any::<u32>(), prop_oneof![3 => Just(0u8), 1 => 1u8..=255])
        .prop_map(|(mut v, seed, near)| {
            if near > 0 {
                let mut r = Sm::new(seed as u64);
                for i in 1..v.len() {
                    if r.below(256) < near as usize {
                        let mut c = v[r.below(i)];
                        let k = r.below(4);
                        let d = [1i16, -1, 2, -2, 3][r.below(5)];
                        c[k] = (c[k] as i16 + d).clamp(0, 255) as u8;
                        v[i] = c;
                    }
                }
            }
            v
        })
        .boxed()
}

/// deterministic distinct colors for big palettes
pub fn expand_colors(seed: u32, n: usize, style: u8) -> Vec<Px> {
    let mut r = Sm::new(seed as u64 ^ 0x5151);
    let mut seen = HashSet::new();
    let mut out = Vec::new();
    let base = [r.below(200) as u8, r.below(200) as u8, r.below(200) as u8, 255u8];
    while out.len() < n {
        let c = match style % 6 {
            0 => [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, 255],
            1 => [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, r.below(256) as u8],
            2 => [base[0].saturating_add(r.below(12) as u8), base[1].saturating_add(r.below(12) as u8), base[2].saturating_add(r.below(12) as u8), 255],
            3 => {
                let a = [255u8, 255, 128, 1, 254, 30][r.below(6)];
                [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, a]
            }
            4 => {
                let t = r.below(256) as u8;
                [t, t.saturating_add(r.below(4) as u8), t, 255]
            }
            _ => [(r.below(8) * 36) as u8, (r.below(8) * 36) as u8, (r.below(8) * 36) as u8, if r.below(4) == 0 { r.below(256) as u8 } else { 255 }],
        };
        let c = canon(c);
        if seen.insert(c) {
            out.push(c);
        }
    }
    out
}

// ---------------------------------------------------------------- images
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fill {
    /// every pixel picks one of the colors at random
    Random,
    /// runs of random length
    Runs,
    /// vertical stripes of given width
    Stripes(u8),
    /// square blocks of given size
    Blocks(u8),
    /// bilinear gradient between the first four colors
    Gradient,
    /// gradient plus noise of given amplitude
    Noisy(u8),
    /// mostly the first color, rare other pixels
    Rare,
    /// unstructured random RGBA (alpha as in the first color)
    Noise,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Img {
    pub w: u32,
    pub h: u32,
    pub fill: Fill,
    pub colors: Vec<Px>,
    pub seed: u32,
}

impl Img {
    pub fn n(&self) -> usize {
        self.w as usize * self.h as usize
    }
    pub fn pixels(&self) -> Vec<RGBA> {
        let (w, h) = (self.w as usize, self.h as usize);
        let mut r = Sm::new(self.seed as u64);
        let c = &self.colors;
        let n = c.len();
        let mut out = Vec::with_capacity(w * h);
        let mut run = 0usize;
        let mut cur = 0usize;
        let rep = match self.fill {
            Fill::Blocks(_) => Some((0..1024).map(|_| r.below(n)).collect::<Vec<_>>()),
            _ => None,
        };
        for y in 0..h {
            for x in 0..w {
                let p = match &self.fill {
                    Fill::Random => c[r.below(n)],
                    Fill::Runs => {
                        if run == 0 {
                            run = 1 + r.below(2 * w + 3);
                            cur = r.below(n);
                        }
                        run -= 1;
                        c[cur]
                    }
                    Fill::Stripes(p) => c[(x / (*p as usize).max(1)) % n],
                    Fill::Blocks(p) => {
                        let p = (*p as usize).max(1);
                        c[rep.as_ref().unwrap()[((y / p) * 37 + x / p) % 1024]]
                    }
                    Fill::Gradient => self.bilinear(x, y),
                    Fill::Noisy(a) => {
                        let mut p = self.bilinear(x, y);
                        for k in 0..3 {
                            let d = r.below(2 * *a as usize + 1) as i32 - *a as i32;
                            p[k] = (p[k] as i32 + d).clamp(0, 255) as u8;
                        }
                        p
                    }
                    Fill::Rare => {
                        if r.below(50) == 0 {
                            c[r.below(n)]
                        } else {
                            c[0]
                        }
                    }
                    Fill::Noise => {
                        let v = r.next();
                        let a = if c[0][3] == 255 { 255 } else { (v >> 24) as u8 };
                        [v as u8, (v >> 8) as u8, (v >> 16) as u8, a]
                    }
                };
                out.push(rgba(p));
            }
        }
        out
    }
    fn bilinear(&self, x: usize, y: usize) -> Px {
        let c = &self.colors;
        let n = c.len();
        let fx = if self.w > 1 { x as f64 / (self.w - 1) as f64 } else { 0. };
        let fy = if self.h > 1 { y as f64 / (self.h - 1) as f64 } else { 0. };
        let mut p = [0u8; 4];
        for k in 0..4 {
            let t = c[0][k] as f64 * (1. - fx) + c[1 % n][k] as f64 * fx;
            let b = c[2 % n][k] as f64 * (1. - fx) + c[3 % n][k] as f64 * fx;
            p[k] = (t * (1. - fy) + b * fy).round() as u8;
        }
        p
    }
}

pub fn dims() -> BoxedStrategy<(u32, u32)> {
    prop_oneof![
        4 => (1u32..=12, 1u32..=12),
        4 => (1u32..=48, 1u32..=48),
        1 => (1u32..=4, 1u32..=200),
        1 => (1u32..=300, 1u32..=4),
        1 => (1u32..=24, 129u32..=300),
    ]
    .boxed()
}
pub fn small_dims() -> BoxedStrategy<(u32, u32)> {
    prop_oneof![
        4 => (1u32..=12, 1u32..=12),
        3 => (1u32..=32, 1u32..=32),
        1 => (1u32..=3, 1u32..=140),
        1 => (1u32..=100, 1u32..=3),
    ]
    .boxed()
}
pub fn fill() -> BoxedStrategy<Fill> {
    prop_oneof![
        3 => Just(Fill::Random),
        2 => Just(Fill::Runs),
        1 => (1u8..9).prop_map(Fill::Stripes),
        1 => (1u8..9).prop_map(Fill::Blocks),
        3 => Just(Fill::Gradient),
        2 => (1u8..60).prop_map(Fill::Noisy),
        1 => Just(Fill::Rare),
        1 => Just(Fill::Noise),
    ]
    .boxed()
}
pub fn img_of(d: BoxedStrategy<(u32, u32)>) -> BoxedStrategy<Img> {
    (d, fill(), prop_oneof![3 => colors(1..6), 2 => colors(2..40), 1 => colors(2..300)], any::<u32>())
        .prop_map(|((w, h), fill, colors, seed)| Img { w, h, fill, colors, seed })
        .boxed()
}
pub fn img() -> BoxedStrategy<Img> {
    img_of(dims())
}
pub fn small_img() -> BoxedStrategy<Img> {
    img_of(small_dims())
}
/// Images whose float copy does not fit the in-memory limit (more than 1<<22 pixels).
pub fn big_dims() -> BoxedStrategy<(u32, u32)> {
    prop_oneof![
        Just((2049u32, 2048u32)), Just((2048, 2049)), Just((4195, 1000)), Just((1000, 4195)), Just((2100, 2010)),
        Just((300, 13990)), Just((41951, 100)), Just((4194305, 1)), Just((1, 4194305)),
    ]
    .boxed()
}

/// Images with a side that does not fit 16 bits, or of some hundred thousand pixels.
pub fn long_dims() -> BoxedStrategy<(u32, u32)> {
    prop_oneof![
        3 => (65536u32..=131100, 1u32..=2),
        3 => (1u32..=2, 65536u32..=131100),
        1 => (65536u32..=66000, 4u32..=5),
        2 => (500u32..=700, 500u32..=600),
    ]
    .boxed()
}
/// More different colors than a histogram keeps at speed 10.
pub fn crowd_img() -> BoxedStrategy<Img> {
    (img_of((540u32..=620, 460u32..=520).boxed()), prop_oneof![3 => Just(Fill::Noise), 1 => (40u8..=120).prop_map(Fill::Noisy)])
        .prop_map(|(mut i, f)| { i.fill = f; i })
        .boxed()
}
/// dimensions of a mode; true if they are not small
pub fn mode_dims(mode: &str) -> (BoxedStrategy<(u32, u32)>, bool) {
    match mode {
        "big" => (big_dims(), true),
        "long" => (long_dims(), true),
        _ => (dims(), false),
    }
}

// ---------------------------------------------------------------- settings
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Settings {
    pub speed: u8,
    pub max_colors: u16,
    pub quality: Option<(u8, u8)>,
    pub posterize: u8,
    pub last_transparent: bool,
}
impl Settings {
    pub fn attr(&self) -> Attributes {
        let mut a = Attributes::new();
        a.set_speed(self.speed as i32).unwrap();
        a.set_max_colors(self.max_colors as u32).unwrap();
        if let Some((min, max)) = self.quality {
            a.set_quality(min, max).unwrap();
        }
        a.set_min_posterization(self.posterize).unwrap();
        a.set_last_index_transparent(self.last_transparent);
        a
    }
    pub fn uses_dither_map(&self) -> bool {
        self.speed <= 6
    }
}
pub fn speed() -> BoxedStrategy<u8> {
    prop_oneof![1 => 1u8..=2, 2 => 3u8..=4, 5 => 5u8..=10].boxed()
}
pub fn max_colors() -> BoxedStrategy<u16> {
    prop_oneof![3 => 2u16..=8, 4 => 2u16..=64, 3 => 2u16..=256, 2 => Just(256u16), 1 => Just(2u16), 1 => Just(255u16)].boxed()
}
pub fn quality() -> BoxedStrategy<Option<(u8, u8)>> {
    prop_oneof![
        4 => Just(None),
        3 => (0u8..=100).prop_map(|t| Some((0, t))),
        3 => (0u8..=100, 0u8..=100).prop_map(|(a, b)| Some((a.min(b), a.max(b)))),
    ]
    .boxed()
}
pub fn settings() -> BoxedStrategy<Settings> {
    (speed(), max_colors(), quality(), prop_oneof![3 => Just(0u8), 2 => 1u8..=4], any::<bool>())
        .prop_map(|(speed, max_colors, quality, posterize, last_transparent)| Settings { speed, max_colors, quality, posterize, last_transparent })
        .boxed()
}
/// best effort quality and no posterization
pub fn plain_settings() -> BoxedStrategy<Settings> {
    (speed(), max_colors(), any::<bool>())
        .prop_map(|(speed, max_colors, last_transparent)| Settings { speed, max_colors, quality: None, posterize: 0, last_transparent })
        .boxed()
}
pub fn dither() -> BoxedStrategy<f32> {
    prop_oneof![3 => Just(0f32), 3 => Just(1f32), 3 => (0u8..=100).prop_map(|x| x as f32 / 100.)].boxed()
}
/// gamma as a number of 1/1000 (0 = default)
pub fn gamma() -> BoxedStrategy<f64> {
    prop_oneof![4 => Just(0f64), 2 => Just(0.45455), 2 => (200u32..=1000).prop_map(|x| x as f64 / 1000.), 1 => Just(1.0)].boxed()
}
pub fn eff_gamma(g: f64) -> f64 {
    if g > 0. { g } else { 0.45455 }
}

// ---------------------------------------------------------------- reference metric
pub type V = [f64; 4]; // a r g b
pub fn lut(gamma: f64) -> [f64; 256] {
    let mut t = [0.; 256];
    for (i, v) in t.iter_mut().enumerate() {
        *v = (i as f64 / 255.).powf(0.57 / gamma);
    }
    t
}
pub fn vec_of(l: &[f64; 256], p: Px) -> V {
    let a = p[3] as f64 / 255.;
    [a * 0.625, l[p[0] as usize] * 0.5 * a, l[p[1] as usize] * a, l[p[2] as usize] * 0.45 * a]
}
pub fn diff(x: &V, y: &V) -> f64 {
    let al = y[0] - x[0];
    let mut s = 0.;
    for k in 1..4 {
        let b = x[k] - y[k];
        let w = b + al;
        s += (b * b).max(w * w);
    }
    s
}
/// conversion of the internal mean squared error to the reported scale
pub fn std_mse(d: f64) -> f64 {
    d * 65536. / 6. / 0.45
}
pub fn nearest(pal: &[V], p: &V) -> (usize, f64) {
    let mut best = (0, f64::INFINITY);
    for (i, q) in pal.iter().enumerate() {
        let d = diff(q, p);
        if d < best.1 {
            best = (i, d);
        }
    }
    best
}
/// threads add up errors in any order
pub fn same_err(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => (a - b).abs() <= 1e-9 * b.abs(),
        (None, None) => true,
        _ => false,
    }
}
pub fn pal_vecs(pal: &[RGBA], gamma: f64) -> Vec<V> {
    let l = lut(gamma);
    pal.iter().map(|&c| vec_of(&l, canon(px(c)))).collect()
}

pub fn posterize_ok(c: Px, bits: u8) -> bool {
    if bits == 0 || c[3] == 0 {
        return true;
    }
    c.iter().all(|&v| posterized(v, bits) == v)
}
pub fn posterized(v: u8, bits: u8) -> u8 {
    if bits == 0 { v } else { (v & !((1u8 << bits) - 1)) | (v >> (8 - bits)) }
}

pub fn color_set(p: &[RGBA]) -> BTreeSet<Px> {
    p.iter().map(|&c| canon(px(c))).collect()
}

// ---------------------------------------------------------------- helpers over the Rust API
pub fn new_image(a: &Attributes, im: &Img, gamma: f64) -> Image<'static> {
    Image::new(a, im.pixels(), im.w as usize, im.h as usize, gamma).expect("valid image refused")
}

/// Palette with exactly the given colors, frozen.
pub fn frozen_palette(a: &Attributes, colors: &[Px], gamma: f64) -> Result<QuantizationResult, imagequant::Error> {
    let mut h = Histogram::new(a);
    for &c in colors {
        h.add_fixed_color(rgba(c), gamma)?;
    }
    h.quantize(a)
}

pub fn check_indices(pal: &[RGBA], idx: &[u8], n: usize, max_colors: usize) -> R {
    ensure!(!pal.is_empty() && pal.len() <= max_colors, "palette has {} entries, allowed 1..={}", pal.len(), max_colors);
    ensure!(idx.len() == n, "{} indices for {} pixels", idx.len(), n);
    if let Some(p) = idx.iter().position(|&i| i as usize >= pal.len()) {
        return Err(format!("index {} at {} but the palette has {} entries", idx[p], p, pal.len()));
    }
    Ok(())
}

pub fn e2s(e: imagequant::Error) -> String {
    format!("{e:?}")
}
