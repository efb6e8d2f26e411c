//! Remap output completeness, bounds and index validity.
use crate::capi::*;
use crate::common::*;
use imagequant::{Error, Image};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::mem::MaybeUninit;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Api {
    Vec,
    Slice { before: u8, after: u8 },
    CBuf { after: u8 },
    CRows { pad: u8, seed: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    img: Img,
    s: Settings,
    dither: f32,
    gamma: f64,
    fixed: Vec<Px>,
    imp: Option<u32>,
    bg: Option<u32>,
    api: Api,
    short: u32,
    /// remap an image other than the quantized one
    other: Option<u32>,
}

pub struct P;

fn imp_map(n: usize, seed: u32) -> Vec<u8> {
    let mut r = Sm::new(seed as u64);
    let lo = r.below(2);
    let mut v: Vec<u8> = (0..n).map(|_| if lo == 0 && r.below(3) == 0 { 0 } else { 1 + r.below(255) as u8 }).collect();
    v[n / 2] = 200;
    v
}

pub fn img2(im: &Img, seed: u32) -> Img {
    let mut c = im.clone();
    let mut r = Sm::new(seed as u64);
    c.seed = seed;
    for p in c.colors.iter_mut() {
        if r.below(3) == 0 {
            p[r.below(4)] ^= 1 << r.below(8);
        }
    }
    c
}

struct Out {
    idx: Vec<u8>,
    pal: Vec<Px>,
}

fn one(c: &Case, target: &Img, res0: &imagequant::QuantizationResult, sentinel: u8) -> Result<Result<Out, Error>, String> {
    let attr = c.s.attr();
    let n = target.n();
    let (w, h) = (target.w as usize, target.h as usize);
    let mk = || -> Image<'static> {
        let mut im = new_image(&attr, target, c.gamma);
        if let Some(s) = c.imp {
            im.set_importance_map(imp_map(n, s)).unwrap();
        }
        if let Some(s) = c.bg {
            im.set_background(new_image(&attr, &img2(target, s), c.gamma)).unwrap();
        }
        im
    };
    match &c.api {
        Api::Vec => {
            let mut res = res0.clone();
            let mut buf = vec![sentinel; n + 9];
            let mut im = mk();
            match res.remap_into_vec(&mut im, &mut buf) {
                Ok(pal) => Ok(Ok(Out { idx: buf, pal: pal.iter().map(|&p| px(p)).collect() })),
                Err(e) => Ok(Err(e)),
            }
        }
        Api::Slice { before, after } => {
            let mut res = res0.clone();
            let mut im = mk();
            let (b, a) = (*before as usize, *after as usize);
            let mut buf = vec![sentinel; b + n + a];
            let view = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr().cast::<MaybeUninit<u8>>(), buf.len()) };
            let r = res.remap_into(&mut im, &mut view[b..]);
            ensure!(buf[..b].iter().all(|&x| x == sentinel), "bytes before the output were written");
            ensure!(buf[b + n..].iter().all(|&x| x == sentinel), "bytes after the output were written");
            // too short
            let short = (c.short as usize) % n;
            let mut sb = vec![sentinel; n];
            let view = unsafe { std::slice::from_raw_parts_mut(sb.as_mut_ptr().cast::<MaybeUninit<u8>>(), n) };
            let e = res.clone().remap_into(&mut im, &mut view[..short]);
            ensure!(e == Err(Error::BufferTooSmall), "buffer of {short} bytes for {n} pixels: {e:?}");
            ensure!(sb.iter().all(|&x| x == sentinel), "a refused buffer was written to");
            match r {
                Ok(()) => Ok(Ok(Out { idx: buf[b..b + n].to_vec(), pal: res.palette().iter().map(|&p| px(p)).collect() })),
                Err(e) => Ok(Err(e)),
            }
        }
        Api::CBuf { .. } | Api::CRows { .. } => unsafe {
            // the C result must come from the C API; quantization is deterministic in this mode
            let a = c_attr(&c.s);
            let pixels = c.img.pixels();
            let q = CImage(liq_image_create_rgba(a.0, pixels.as_ptr().cast(), c.img.w as i32, c.img.h as i32, c.gamma));
            ensure!(!q.0.is_null(), "liq_image_create_rgba refused a valid image");
            for &f in &c.fixed {
                liq_image_add_fixed_color(q.0, ccolor(f));
            }
            if let Some(s) = c.imp {
                let mut m = imp_map(c.img.n(), s);
                ensure!(liq_image_set_importance_map(q.0, m.as_mut_ptr(), m.len(), COPY_PIXELS) == OK, "importance map refused");
            }
            let mut rp = std::ptr::null_mut();
            let e = liq_image_quantize(q.0, a.0, &mut rp);
            let res = CResult(rp);
            if e != OK {
                ensure!(rp.is_null(), "result set despite error");
                return Err(format!("C quantization failed with {e} where the Rust one succeeded"));
            }
            ensure!(liq_set_dithering_level(res.0, c.dither) == OK, "dither level refused");
            let tp = target.pixels();
            let im = CImage(liq_image_create_rgba(a.0, tp.as_ptr().cast(), w as i32, h as i32, c.gamma));
            if let Some(s) = c.imp {
                let mut m = imp_map(n, s);
                ensure!(liq_image_set_importance_map(im.0, m.as_mut_ptr(), m.len(), COPY_PIXELS) == OK, "importance map refused");
            }
            let bp = c.bg.map(|s| img2(target, s).pixels());
            if let Some(bp) = &bp {
                let b = liq_image_create_rgba(a.0, bp.as_ptr().cast(), w as i32, h as i32, c.gamma);
                ensure!(liq_image_set_background(im.0, b) == OK, "background refused");
            }
            let (idx, e) = if let Api::CBuf { after } = c.api {
                let mut buf = vec![sentinel; n + after as usize];
                let short = (c.short as usize) % n;
                let e = liq_write_remapped_image(res.0, im.0, buf.as_mut_ptr().cast(), short);
                ensure!(e == BUFFER_TOO_SMALL, "buffer of {short} bytes for {n} pixels: {e}");
                ensure!(buf.iter().all(|&x| x == sentinel), "a refused buffer was written to");
                let e = liq_write_remapped_image(res.0, im.0, buf.as_mut_ptr().cast(), buf.len());
                ensure!(buf[n..].iter().all(|&x| x == sentinel), "bytes after the output were written");
                (buf[..n].to_vec(), e)
            } else if let Api::CRows { pad, seed } = c.api {
                let stride = w + pad as usize;
                let mut buf = vec![sentinel; stride * h + pad as usize];
                let mut order: Vec<usize> = (0..h).collect();
                Sm::new(seed as u64).shuffle(&mut order);
                let base = buf.as_mut_ptr();
                let mut rows: Vec<*mut u8> = order.iter().map(|&o| base.add(pad as usize + o * stride)).collect();
                let rows0 = rows.clone();
                let e = liq_write_remapped_image_rows(res.0, im.0, rows.as_mut_ptr());
                ensure!(rows == rows0, "row pointers were modified");
                ensure!(buf[..pad as usize].iter().all(|&x| x == sentinel), "bytes before the first row were written");
                let mut idx = Vec::with_capacity(n);
                for y in 0..h {
                    let s = pad as usize + order[y] * stride;
                    idx.extend_from_slice(&buf[s..s + w]);
                    ensure!(buf[s + w..s + stride].iter().all(|&x| x == sentinel), "padding after a row was written");
                }
                (idx, e)
            } else {
                unreachable!()
            };
            if e != OK {
                return Err(format!("remap failed with {e}"));
            }
            Ok(Ok(Out { idx, pal: pal_px(res.0) }))
        },
    }
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "generated image x settings x output API; non-trivial: more than 2 palette entries, at least 12 pixels, and the remap succeeded for two different pre-fills of the destination";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let mode = o.mode.clone();
        let im = match mode.as_str() {
            "big" | "long" => img_of(mode_dims(&mode).0),
            "tall" => img_of(prop_oneof![(1u32..=40, 129u32..=900), (500u32..=1200, 300u32..=1100)].boxed()),
            _ => img(),
        };
        let api = prop_oneof![
            1 => Just(Api::Vec),
            2 => (0u8..9, 0u8..70).prop_map(|(before, after)| Api::Slice { before, after }),
            2 => (0u8..70).prop_map(|after| Api::CBuf { after }),
            2 => (0u8..9, any::<u32>()).prop_map(|(pad, seed)| Api::CRows { pad, seed }),
        ];
        (
            (im, settings(), dither(), gamma()),
            prop_oneof![3 => Just(vec![]), 1 => colors(1..5), 1 => Just(vec![[0u8, 0, 0, 0]])],
            prop::option::weighted(0.2, any::<u32>()),
            prop::option::weighted(0.25, any::<u32>()),
            api,
            any::<u32>(),
            prop::option::weighted(0.25, any::<u32>()),
        )
            .prop_map(move |((img, mut s, dither, gamma), fixed, imp, bg, mut api, short, other)| {
                if let Some((min, max)) = s.quality {
                    s.quality = Some((min / 4, max)); // failures for low quality are not interesting here
                }
                if mode == "long" && short % 2 == 0 {
                    s.speed = s.speed.max(7);
                }
                if mode == "big" || mode == "tall" || mode == "long" {
                    s.speed = s.speed.max(if mode == "big" { 6 } else { 4 });
                }
                if mode == "mt" || mode == "big" {
                    // several threads: only results independent of summation order
                    if dither > 0. {
                        s.speed = s.speed.max(7);
                    }
                    if matches!(api, Api::CBuf { .. } | Api::CRows { .. }) && mode == "mt" {
                        api = Api::Slice { before: 3, after: (short % 50) as u8 };
                    }
                }
                Case { img, s, dither, gamma, fixed, imp, bg, api, short, other }
            })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let attr = c.s.attr();
        let mut im = new_image(&attr, &c.img, c.gamma);
        for &f in &c.fixed {
            im.add_fixed_color(rgba(f)).map_err(e2s)?;
        }
        if let Some(s) = c.imp {
            im.set_importance_map(imp_map(c.img.n(), s)).map_err(e2s)?;
        }
        let mut res = match attr.quantize(&mut im) {
            Ok(r) => r,
            Err(Error::QualityTooLow) if c.s.quality.is_some_and(|q| q.0 > 0) => {
                st.label("quality too low");
                return Ok(());
            }
            Err(e) => return Err(format!("quantize: {e:?}")),
        };
        res.set_dithering_level(c.dither).map_err(e2s)?;
        let target = match c.other {
            Some(s) => {
                let mut t = img2(&c.img, s);
                if s % 2 == 0 && c.img.n() < 100_000 {
                    t.w = 1 + s % 37;
                    t.h = 1 + (s / 37) % 150;
                }
                t
            }
            None => c.img.clone(),
        };
        let mut outs = Vec::new();
        for sentinel in [0xA5u8, 0x5A] {
            match one(c, &target, &res, sentinel)? {
                Ok(o) => outs.push(o),
                Err(e) => return Err(format!("remap failed: {e:?}")),
            }
        }
        for o in &outs {
            let pal: Vec<_> = o.pal.iter().map(|&p| rgba(p)).collect();
            check_indices(&pal, &o.idx, target.n(), c.s.max_colors as usize)?;
        }
        if let Some(p) = (0..target.n()).find(|&i| outs[0].idx[i] != outs[1].idx[i]) {
            return Err(format!("output at pixel {p} depends on the previous contents of the buffer ({} vs {})", outs[0].idx[p], outs[1].idx[p]));
        }
        ensure!(outs[0].pal == outs[1].pal, "palette differs between two identical remaps");
        st.label(match c.api { Api::Vec => "api vec", Api::Slice { .. } => "api slice", Api::CBuf { .. } => "api C buffer", Api::CRows { .. } => "api C rows" });
        if c.dither > 0. { st.label("dithered"); }
        if target.h > 128 { st.label("taller than one band"); }
        if target.n() > 1 << 22 { st.label("streamed image"); }
        if c.bg.is_some() { st.label("background"); }
        st.nontrivial(outs[0].pal.len() > 2 && target.n() >= 12);
        Ok(())
    }
}
