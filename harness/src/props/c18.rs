//! Failed allocations of image-sized buffers: enumerated over all requests of a job.

pub use imp::P;


mod imp {
    use crate::alloc::{failing, record};
    use crate::capi::*;
    use crate::common::*;
    use imagequant::{Attributes, Histogram, Image, QuantizationResult, RGBA};
    use proptest::prelude::*;
    use serde::{Deserialize, Serialize};
    use std::os::raw::{c_int, c_void};

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Case {
        w: u32,
        h: u32,
        fill: Fill,
        colors: Vec<Px>,
        seed: u32,
        set: Settings,
        gamma: f64,
        dither: f32,
        hist: bool,
        background: bool,
        importance: bool,
        /// pixels from a callback
        rows_fn: bool,
        capi: bool,
        /// 0 new vector, 1 slice, 2 reused vector
        out: u8,
        /// all further requests fail, too
        forever: bool,
        mt: bool,
    }
    pub struct P;

    type Pal = (Vec<Px>, Option<u64>, usize);
    type Out = (Vec<Px>, Vec<u8>, Option<u64>);

    struct Src(Vec<RGBA>, usize);
    unsafe extern "C" fn row(out: *mut color, y: c_int, w: c_int, u: *mut c_void) {
        let d = &*(u as *const Src);
        std::ptr::copy_nonoverlapping(d.0.as_ptr().add(y as usize * d.1).cast(), out, w as usize);
    }
    enum Q {
        R { a: Attributes, im: Image<'static>, h: Option<Histogram>, res: Option<QuantizationResult> },
        // fields are dropped in this order
        C { res: Option<CResult>, h: Option<CHist>, im: CImage, a: CAttr, _px: Box<Src>, _bg: Box<Src> },
    }

    impl Case {
        fn img(&self, w: u32, h: u32) -> Img {
            Img { w, h, fill: self.fill.clone(), colors: self.colors.clone(), seed: self.seed }
        }
    }

    impl Q {
        fn new(c: &Case, w: u32, h: u32) -> Q {
            let im = c.img(w, h);
            let bg: Vec<_> = im.pixels().iter().rev().copied().collect();
            let n = im.n();
            let map: Vec<u8> = (0..n).map(|i| 1 + (i % 200) as u8).collect();
            if c.capi {
                unsafe {
                    let a = c_attr(&c.set);
                    let px = Box::new(Src(im.pixels(), w as usize));
                    let bgp = Box::new(Src(bg, w as usize));
                    let mk = |s: &Src| {
                        if c.rows_fn {
                            liq_image_create_custom(a.0, row, s as *const Src as *mut c_void, w as c_int, h as c_int, c.gamma)
                        } else {
                            liq_image_create_rgba(a.0, s.0.as_ptr().cast(), w as c_int, h as c_int, c.gamma)
                        }
                    };
                    let i = CImage(mk(&px));
                    if c.importance {
                        assert_eq!(OK, liq_image_set_importance_map(i.0, map.as_ptr().cast_mut(), n, COPY_PIXELS));
                    }
                    if c.background {
                        assert_eq!(OK, liq_image_set_background(i.0, mk(&bgp)));
                    }
                    let h = if c.hist { Some(CHist(liq_histogram_create(a.0))) } else { None };
                    Q::C { a, im: i, h, res: None, _px: px, _bg: bgp }
                }
            } else {
                let a = c.set.attr();
                let mk = |p: Vec<RGBA>| {
                    if c.rows_fn {
                        let ww = w as usize;
                        unsafe { Image::new_fn(&a, move |o: &mut [std::mem::MaybeUninit<RGBA>], y| { for (o, p) in o.iter_mut().zip(&p[y * ww..]) { o.write(*p); } }, ww, h as usize, c.gamma).unwrap() }
                    } else {
                        Image::new(&a, p, w as usize, h as usize, c.gamma).unwrap()
                    }
                };
                let mut i = mk(im.pixels());
                if c.importance {
                    i.set_importance_map(map).unwrap();
                }
                if c.background {
                    i.set_background(mk(bg)).unwrap();
                }
                let h = if c.hist { Some(Histogram::new(&a)) } else { None };
                Q::R { a, im: i, h, res: None }
            }
        }
        fn add(&mut self) -> Result<(), c_int> {
            match self {
                Q::R { a, im, h: Some(h), .. } => h.add_image(a, im).map_err(code),
                Q::C { a, im, h: Some(h), .. } => match unsafe { liq_histogram_add_image(h.0, a.0, im.0) } { OK => Ok(()), e => Err(e) },
                _ => Ok(()),
            }
        }
        fn quantize(&mut self) -> Result<(), c_int> {
            match self {
                Q::R { a, im, h, res } => *res = Some(if let Some(h) = h { h.quantize(a) } else { a.quantize(im) }.map_err(code)?),
                Q::C { a, im, h, res, .. } => unsafe {
                    let mut r = std::ptr::null_mut();
                    let rc = if let Some(h) = h { liq_histogram_quantize(h.0, a.0, &mut r) } else { liq_image_quantize(im.0, a.0, &mut r) };
                    if rc != OK {
                        return Err(if r.is_null() { rc } else { -77 });
                    }
                    *res = Some(CResult(r));
                },
            }
            Ok(())
        }
        fn level(&mut self, d: f32) {
            match self {
                Q::R { res, .. } => res.as_mut().unwrap().set_dithering_level(d).unwrap(),
                Q::C { res, .. } => assert_eq!(OK, unsafe { liq_set_dithering_level(res.as_ref().unwrap().0, d) }),
            }
        }
        fn pal(&self) -> Pal {
            match self {
                Q::R { res, .. } => {
                    let mut r = res.as_ref().unwrap().clone();
                    (r.palette_vec().into_iter().map(px).collect(), r.quantization_error().map(f64::to_bits), r.palette_len())
                }
                Q::C { res, .. } => (vec![], Some(unsafe { liq_get_quantization_error(res.as_ref().unwrap().0) }.to_bits()), 0),
            }
        }
        fn remap(&mut self, c: &Case, buf: &mut Vec<u8>, n: usize) -> Result<(), c_int> {
            match self {
                Q::R { im, res, .. } => {
                    let r = res.as_mut().unwrap();
                    match c.out % 3 {
                        0 => *buf = r.remapped(im).map_err(code)?.1,
                        1 => {
                            let s = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr().cast::<std::mem::MaybeUninit<u8>>(), n) };
                            r.remap_into(im, s).map_err(code)?;
                        }
                        _ => { r.remap_into_vec(im, buf).map_err(code)?; }
                    }
                }
                Q::C { im, res, .. } => {
                    let rc = unsafe { liq_write_remapped_image(res.as_ref().unwrap().0, im.0, buf.as_mut_ptr().cast(), n) };
                    if rc != OK {
                        return Err(rc);
                    }
                }
            }
            Ok(())
        }
        fn full_remap(&mut self, c: &Case, n: usize) -> Result<Out, c_int> {
            let mut buf = vec![255u8; n];
            self.remap(c, &mut buf, n)?;
            Ok(self.outcome(buf))
        }
        fn outcome(&mut self, buf: Vec<u8>) -> Out {
            match self {
                Q::R { res, .. } => {
                    let r = res.as_mut().unwrap();
                    (r.palette_vec().into_iter().map(px).collect(), buf, r.remapping_error().map(f64::to_bits))
                }
                Q::C { res, .. } => unsafe {
                    let r = res.as_ref().unwrap().0;
                    (pal_px(r), buf, Some(liq_get_remapping_error(r).to_bits()))
                },
            }
        }
    }

    fn row_forms(w: usize) -> Vec<usize> {
        let mut v: Vec<usize> = [1, 2, 4, 8, 16, 32].iter().map(|e| e * w).collect();
        v.extend([16, 32].iter().map(|e| e * (w + 2)));
        v
    }
    fn forms(w: usize, h: usize) -> Vec<usize> {
        let mut v = row_forms(w);
        v.extend([1, 2, 3, 4, 6, 8, 12, 16, 32].iter().map(|e| e * w * h));
        // not the tables of row pointers, not hash tables, nothing a palette of 20 colors could need
        v.retain(|&s| s != 8 * h && s != 16 * h && s % 128 != 16 && s >= 1400);
        // nor the queues of the thread pool
        v.retain(|&s| s != 1520 && !s.is_power_of_two() && !(2048..=2400).contains(&s));
        v
    }

    /// image-sized requests of the steps add, quantize, remap
    fn sizes(c: &Case, w: u32, h: u32) -> [Vec<usize>; 3] {
        let mut q = Q::new(c, w, h);
        let n = (w * h) as usize;
        let (r, a) = record(256, || q.add());
        if r.is_err() { return [a, vec![], vec![]]; }
        let (r, b) = record(256, || q.quantize());
        if r.is_err() { return [a, b, vec![]]; }
        q.level(c.dither);
        let mut buf = Vec::new();
        if c.capi || c.out % 3 == 1 { buf = vec![0; n]; }
        let (_, m) = record(256, || { let _ = q.remap(c, &mut buf, n); });
        [a, b, m]
    }

    impl Prop for P {
        type Case = Case;
        const RULE: &'static str = "one job (Rust/C, image/histogram, pixels or row callback); every request whose size is that of a row or of the image is failed in turn, alone or with all later ones; non-trivial: at least 5 requests failed";
        fn strategy(o: &Opts) -> BoxedStrategy<Case> {
            let mt = o.mode.starts_with("mt");
            let d = prop_oneof![3 => (352u32..=600, 5u32..=30), 1 => (352u32..=400, 129u32..=180)];
            let big = o.mode == "big";
            let d = if big { prop_oneof![Just((2053u32, 2050u32)), Just((4201, 1003))].boxed() } else { d.boxed() };
            let fl = prop_oneof![3 => Just(Fill::Random), 2 => Just(Fill::Runs), 2 => (2u8..9).prop_map(Fill::Blocks)];
            ((d, fl, colors(2..20), any::<u32>(), plain_settings(), gamma()), (dither(), any::<bool>(), prop::bool::weighted(0.3), prop::bool::weighted(0.3), any::<bool>(), prop::bool::weighted(0.4), any::<u8>(), any::<bool>()))
                .prop_map(move |(((mut w, h), fill, colors, seed, mut set, gamma), (dither, hist, background, importance, rows_fn, capi, out, forever))| {
                    while row_forms(w as usize).contains(&(8 * h as usize)) || row_forms(w as usize).contains(&(16 * h as usize)) { w += 1; }
                    if big { set.speed = set.speed.max(6); }
                    if mt { set.max_colors = set.max_colors.max(32); }
                    Case { w, h, fill, colors, seed, set, gamma, dither, hist, background, importance, rows_fn, capi, out, forever, mt }
                })
                .boxed()
        }
        fn check(c: &Case, st: &mut Stats) -> R {
            let (w, h, n) = (c.w, c.h, (c.w * c.h) as usize);
            let px_in = c.img(w, h).pixels();
            let set = color_set(&px_in);
            let mask = if c.set.speed >= 8 { 254 } else { 255 };
            let masked: std::collections::BTreeSet<Px> = set.iter().map(|p| [p[0] & mask, p[1] & mask, p[2] & mask, p[3] & mask]).collect();
            let lossless = set.len() <= c.set.max_colors as usize && masked.len() == set.len() && !set.iter().any(|p| p[3] > 0 && p[3] & mask == 0);
            // with several threads, sums may be added up in any order
            let exact = !c.mt;
            // which sizes belong to the image
            let mine = sizes(c, w, h);
            let other: Vec<usize> = sizes(c, w + 37, h + 23).concat();
            let mut target: Vec<usize> = mine.concat();
            let f = forms(w as usize, h as usize);
            target.retain(|s| f.contains(s) && !other.contains(s));
            target.sort_unstable();
            target.dedup();
            let count: Vec<usize> = mine.iter().map(|m| m.iter().filter(|s| target.contains(s)).count()).collect();
            // undisturbed
            let mut b = Q::new(c, w, h);
            let ba = b.add();
            ensure!(ba.is_ok(), "add_image: {ba:?}");
            let bq = b.quantize();
            ensure!(bq.is_ok(), "quantize: {bq:?}");
            let bpal = b.pal();
            b.level(c.dither);
            let bmap = b.full_remap(c, n);
            ensure!(bmap.is_ok(), "remap: {:?}", bmap.err());
            let bmap = bmap.unwrap();
            let good = |o: &Out, what: &str| -> R {
                let pal: Vec<RGBA> = o.0.iter().map(|&p| rgba(p)).collect();
                check_indices(&pal, &o.1, n, c.set.max_colors as usize).map_err(|e| format!("{what}: {e}"))?;
                if lossless && !c.background {
                    for (i, (p, x)) in px_in.iter().zip(&o.1).enumerate() {
                        let q = o.0[*x as usize];
                        ensure!(canon(px(*p)) == canon(q), "{what}: pixel {i} is {p:?} but became {q:?}, although all colors fit the palette");
                    }
                }
                Ok(())
            };
            let same = |o: &Out| if exact { *o == bmap } else { o.0 == bmap.0 && o.1 == bmap.1 };
            let mut failed_total = 0;
            for phase in 0..3 {
                for k in 0..count[phase] {
                    let mut q = Q::new(c, w, h);
                    let mut buf = vec![255u8; n];
                    if c.out % 3 == 2 && !c.capi { buf = Vec::new(); }
                    for p in 0..phase {
                        let r = if p == 0 { q.add() } else { q.quantize() };
                        ensure!(r.is_ok(), "step {p} fails: {r:?}");
                    }
                    if phase == 2 { q.level(c.dither); }
                    let (r, nf) = failing(&target, k, c.forever, || match phase {
                        0 => q.add(),
                        1 => q.quantize(),
                        _ => q.remap(c, &mut buf, n),
                    });
                    failed_total += nf;
                    let what = format!("{} with image-sized request {k} of {} failing{}", ["add_image", "quantize", "remap"][phase], count[phase], if c.forever { " and all later ones" } else { "" });
                    match r {
                        Err(OUT_OF_MEMORY) => {
                            ensure!(nf > 0, "{what}: out of memory without a failed request");
                            st.label(["add_image: out of memory", "quantize: out of memory", "remap: out of memory"][phase]);
                        }
                        Err(e) => return Err(format!("{what}: error {e} instead of out-of-memory ({nf} requests failed)")),
                        Ok(()) => {
                            if nf > 0 { st.label("went on without the buffer"); }
                            if phase == 2 {
                                let o = q.outcome(buf);
                                good(&o, &what)?;
                                if c.dither == 0. {
                                    ensure!(same(&o), "{what}: success with a different undithered result");
                                }
                                continue;
                            }
                        }
                    }
                    let oom = r.is_err();
                    // once more with memory
                    if phase < 2 {
                        if oom {
                            let r = if phase == 0 { q.add() } else { q.quantize() };
                            ensure!(r.is_ok(), "{what}: repeated with memory gives {r:?}");
                        }
                        if phase == 0 {
                            let r = q.quantize();
                            ensure!(r.is_ok(), "{what}: later quantize gives {r:?}");
                        }
                        if oom && exact {
                            let p = q.pal();
                            ensure!(p == bpal, "{what}: repeated with memory gives {p:?} instead of {bpal:?}");
                        }
                        q.level(c.dither);
                    } else if c.dither > 0. && c.set.uses_dither_map() {
                        // the failed attempt may have left a dither map in the image
                        let mut f = Q::new(c, w, h);
                        let r = f.add().and_then(|()| f.quantize());
                        ensure!(r.is_ok(), "quantize of a fresh image gives {r:?}");
                        match (&mut q, f) {
                            (Q::R { im, .. }, Q::R { im: i2, .. }) => *im = i2,
                            (Q::C { im, _px, _bg, .. }, Q::C { im: i2, _px: p2, _bg: b2, .. }) => {
                                *im = i2;
                                *_px = p2;
                                *_bg = b2;
                            }
                            _ => unreachable!(),
                        }
                    }
                    let o = q.full_remap(c, n).map_err(|e| format!("{what}: remap with memory gives {e}"))?;
                    good(&o, &format!("{what}, then remap with memory"))?;
                    if oom {
                        ensure!(same(&o), "{what}: later remap with memory differs from the undisturbed one");
                    }
                }
            }
            st.label(if lossless { "lossless job" } else { "lossy job" });
            st.label(if c.capi { "C" } else { "Rust" });
            st.label_n("requests failed", failed_total as u64);
            st.nontrivial(failed_total >= 5);
            Ok(())
        }
    }
}
