//! Ownership of C buffers and balance of the allocator over generated histories of C API calls.
use crate::capi::*;
use crate::common::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::os::raw::{c_int, c_void};
use std::ptr::null_mut;
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    AttrNew { b: bool },
    AttrCopy(u8),
    AttrSet { a: u8, speed: u8, q: Option<(u8, u8)> },
    ImgNew { a: u8, kind: u8, w: u8, h: u8, colors: Vec<Px>, seed: u32, bad: u8 },
    Own { i: u8, flags: i32 },
    Imp { i: u8, flags: i32, size: u8, seed: u32 },
    Bg { i: u8, b: u8 },
    Fixed { i: u8, c: Px },
    Quant { i: u8, a: u8, abort: u8, old: bool },
    Remap { r: u8, i: u8, rows: bool, short: bool, dither: f32, abort: u8 },
    Pal(u8),
    HNew(u8),
    HAdd { h: u8, a: u8, i: u8 },
    HCols { h: u8, a: u8, colors: Vec<Px> },
    HFixed { h: u8, c: Px },
    HQuant { h: u8, a: u8 },
    Destroy { what: u8, k: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
    /// real malloc/free (for the address sanitizer) instead of recording stand-ins
    real: bool,
    end: u32,
}
pub struct P;

extern "C" {
    fn malloc(n: usize) -> *mut c_void;
    fn free(p: *mut c_void);
}

#[derive(Default)]
struct Reg {
    sizes: HashMap<usize, usize>,
    freed: Vec<(usize, u8)>,
}
static REG: Mutex<Option<Reg>> = Mutex::new(None);

fn on_free(p: *mut c_void, which: u8) {
    let mut g = REG.lock().unwrap_or_else(|e| e.into_inner());
    let Some(r) = g.as_mut() else { return };
    let first = !r.freed.iter().any(|f| f.0 == p as usize);
    r.freed.push((p as usize, which));
    if let (Some(&n), true) = (r.sizes.get(&(p as usize)), first) {
        // reads of the buffer after this point give wrong colors or crash
        unsafe { std::ptr::write_bytes(p.cast::<u8>(), 0xAB, n) };
    }
}
unsafe extern "C" fn free_a(p: *mut c_void) {
    on_free(p, 0)
}
unsafe extern "C" fn free_b(p: *mut c_void) {
    on_free(p, 1)
}

struct Buf {
    p: *mut u8,
    n: usize,
    copy: Vec<u8>,
    given: Option<u8>,
    what: &'static str,
}

struct AttrS {
    h: CAttr,
    which: u8,
    exact: bool,
}
struct ImgS {
    h: CImage,
    which: u8,
    w: usize,
    ht: usize,
    px: Vec<Px>,
    pxbuf: Option<usize>,
    rows: Option<usize>,
    custom: bool,
    remapped: bool,
    has_bg: bool,
    imp: bool,
    fixed: usize,
}
struct ResS {
    h: CResult,
    exact: bool,
    colors: std::collections::BTreeSet<Px>,
}
struct HistS {
    h: CHist,
    exact: bool,
    fixed: usize,
    colors: std::collections::BTreeSet<Px>,
}

struct World {
    real: bool,
    bufs: Vec<Buf>,
    attrs: Vec<AttrS>,
    imgs: Vec<ImgS>,
    res: Vec<ResS>,
    hists: Vec<HistS>,
    keep: Vec<Box<(Vec<Px>, usize)>>,
    transfers: usize,
    consumed: usize,
    checked: usize,
}

unsafe extern "C" fn row(out: *mut color, y: c_int, w: c_int, u: *mut c_void) {
    let d = &*(u as *const (Vec<Px>, usize));
    for x in 0..w as usize {
        *out.add(x) = ccolor(d.0[y as usize * d.1 + x]);
    }
}
unsafe extern "C" fn abort_at(_: f32, u: *mut c_void) -> c_int {
    let n = &mut *(u as *mut u32);
    *n = n.wrapping_sub(1);
    (*n != 0) as c_int
}

impl World {
    fn buf(&mut self, data: &[u8], what: &'static str) -> usize {
        let n = data.len().max(1);
        let p = unsafe { malloc(n) as *mut u8 };
        unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len()) };
        if !self.real {
            REG.lock().unwrap().as_mut().unwrap().sizes.insert(p as usize, n);
        }
        self.bufs.push(Buf { p, n: data.len(), copy: data.to_vec(), given: None, what });
        self.bufs.len() - 1
    }
    fn give(&mut self, b: usize, which: u8) {
        if self.bufs[b].given.is_none() {
            self.bufs[b].given = Some(which);
            self.transfers += 1;
        }
    }
    fn no_early(&self) -> R {
        if self.real {
            return Ok(());
        }
        let g = REG.lock().unwrap();
        for &(p, which) in &g.as_ref().unwrap().freed {
            let Some(b) = self.bufs.iter().find(|b| b.p as usize == p) else { return Err(format!("a pointer was freed that no caller buffer starts at ({which})")) };
            ensure!(b.given.is_some(), "a {} buffer that was not given to the library has been freed", b.what);
        }
        Ok(())
    }

    unsafe fn op(&mut self, op: &Op) -> R {
        macro_rules! pick {
            ($v:ident, $i:expr) => {{
                if self.$v.is_empty() { return Ok(()); }
                *$i as usize % self.$v.len()
            }};
        }
        match op {
            Op::AttrNew { b } => {
                let h = CAttr(match (self.real, *b) {
                    (true, false) => liq_attr_create(),
                    // no allocator is the default one
                    (true, true) => liq_attr_create_with_allocator(null_mut(), None),
                    (false, b) => liq_attr_create_with_allocator(null_mut(), Some(if b { free_b } else { free_a })),
                });
                self.attrs.push(AttrS { h, which: *b as u8, exact: true });
            }
            Op::AttrCopy(a) => {
                let a = pick!(attrs, a);
                let h = CAttr(liq_attr_copy(self.attrs[a].h.0));
                let (which, exact) = (self.attrs[a].which, self.attrs[a].exact);
                self.attrs.push(AttrS { h, which, exact });
            }
            Op::AttrSet { a, speed, q } => {
                let a = pick!(attrs, a);
                let h = self.attrs[a].h.0;
                liq_set_speed(h, *speed as c_int);
                if let Some((lo, hi)) = q {
                    liq_set_quality(h, *lo as c_int, *hi as c_int);
                    self.attrs[a].exact = false;
                }
            }
            Op::ImgNew { a, kind, w, h, colors, seed, bad } => {
                let a = pick!(attrs, a);
                let (w, ht) = (*w as usize, *h as usize);
                let mut r = Sm::new(*seed as u64);
                let colors: Vec<Px> = colors.iter().map(|c| canon(c.map(|v| v & 0xE0))).collect();
                let px: Vec<Px> = (0..w * ht).map(|_| colors[r.below(colors.len())]).collect();
                let kind = kind % 4;
                let stride = if kind == 2 { w + r.below(4) } else { w };
                let mut data = vec![0x77u8; (stride * (ht - 1) + w) * 4];
                // kind 2: rows with padding, bottom up
                let at = |y: usize| if kind == 2 { (ht - 1 - y) * stride * 4 } else { y * stride * 4 };
                for y in 0..ht {
                    for x in 0..w {
                        data[at(y) + x * 4..][..4].copy_from_slice(&px[y * w + x]);
                    }
                }
                let att = self.attrs[a].h.0;
                let which = self.attrs[a].which;
                let (cw, ch, g) = match bad % 6 {
                    1 => (w as c_int, ht as c_int, -1.0f64),
                    2 => (0, ht as c_int, 0.),
                    3 => (w as c_int, -5, 0.),
                    _ => (w as c_int, ht as c_int, 0.),
                };
                let refused = (1..=3).contains(&(bad % 6));
                let mut s = ImgS { h: CImage(null_mut()), which, w, ht, px, pxbuf: None, rows: None, custom: kind == 3, remapped: false, has_bg: false, imp: false, fixed: 0 };
                match kind {
                    0 => {
                        let b = self.buf(&data, "pixel");
                        s.pxbuf = Some(b);
                        s.h = CImage(liq_image_create_rgba(att, self.bufs[b].p.cast(), cw, ch, g));
                    }
                    1 | 2 => {
                        let b = self.buf(&data, "pixel");
                        s.pxbuf = Some(b);
                        let mut rows: Vec<u8> = vec![];
                        for y in 0..ht {
                            let p = self.bufs[b].p as usize + at(y);
                            rows.extend_from_slice(&p.to_ne_bytes());
                        }
                        if bad % 6 == 4 {
                            let n = rows.len();
                            rows[n - 8..].fill(0);
                        }
                        let rb = self.buf(&rows, "row pointer");
                        s.rows = Some(rb);
                        s.h = CImage(liq_image_create_rgba_rows(att, self.bufs[rb].p as *const *mut c_void, cw, ch, g));
                        if bad % 6 == 4 {
                            ensure!(s.h.0.is_null(), "NULL row accepted");
                            return Ok(());
                        }
                    }
                    _ => {
                        self.keep.push(Box::new((s.px.clone(), w)));
                        let u = &**self.keep.last().unwrap() as *const (Vec<Px>, usize) as *mut c_void;
                        s.h = CImage(liq_image_create_custom(att, row, u, cw, ch, g));
                    }
                }
                ensure!(s.h.0.is_null() == refused, "creation of image with size {cw}x{ch}, gamma {g}: {:?}", s.h.0);
                if !refused {
                    self.imgs.push(s);
                }
            }
            Op::Own { i, flags } => {
                let i = pick!(imgs, i);
                let rc = liq_image_set_memory_ownership(self.imgs[i].h.0, *flags);
                let valid = *flags & !12 == 0 && *flags != 0;
                let s = &self.imgs[i];
                if !valid || s.custom {
                    // (a custom image may have dropped its callback after remapping)
                    ensure!(rc == VALUE_OUT_OF_RANGE || (s.custom && s.remapped && rc == UNSUPPORTED), "ownership flags {flags} on {} image: {rc}", if s.custom { "a custom" } else { "an" });
                } else if rc == OK {
                    let (rb, pb, w) = (s.rows, s.pxbuf, s.which);
                    if flags & OWN_ROWS != 0 {
                        if let Some(b) = rb { self.give(b, w); }
                    }
                    if flags & OWN_PIXELS != 0 {
                        if let Some(b) = pb { self.give(b, w); }
                    }
                } else {
                    ensure!(s.remapped && rc == UNSUPPORTED, "ownership flags {flags}: {rc}");
                }
            }
            Op::Imp { i, flags, size, seed } => {
                let i = pick!(imgs, i);
                let n = self.imgs[i].w * self.imgs[i].ht;
                let mut r = Sm::new(*seed as u64);
                let data: Vec<u8> = (0..n + 5).map(|_| if r.below(4) == 0 { 0 } else { r.next() as u8 }).collect();
                let len = match size % 5 { 0 => n, 1 => n + 5, 2 => n - 1, 3 => 0, _ => n };
                let b = self.buf(&data[..len], "importance map");
                let p = if size % 5 == 4 { null_mut() } else { self.bufs[b].p };
                let rc = liq_image_set_importance_map(self.imgs[i].h.0, p, len, *flags);
                let want = if len == 0 || p.is_null() { INVALID_POINTER } else if len < n { BUFFER_TOO_SMALL } else if *flags == COPY_PIXELS || *flags == OWN_PIXELS { OK } else { UNSUPPORTED };
                ensure!(rc == want, "importance map of {len} bytes for {n} pixels, flags {flags}: {rc}, expected {want}");
                if rc == OK {
                    self.imgs[i].imp = true;
                    if *flags == OWN_PIXELS {
                        let w = self.imgs[i].which;
                        self.give(b, w);
                    }
                }
            }
            Op::Bg { i, b } => {
                if self.imgs.len() < 2 { return Ok(()); }
                let i = *i as usize % self.imgs.len();
                let b = *b as usize % self.imgs.len();
                if i == b { return Ok(()); }
                let bg = self.imgs.remove(b);
                let i = if b < i { i - 1 } else { i };
                let h = bg.h.0;
                std::mem::forget(bg.h);
                let rc = liq_image_set_background(self.imgs[i].h.0, h);
                let want = if bg.has_bg { UNSUPPORTED } else if bg.w != self.imgs[i].w || bg.ht != self.imgs[i].ht { BUFFER_TOO_SMALL } else { OK };
                ensure!(rc == want, "set_background: {rc}, expected {want}");
                if rc == OK { self.imgs[i].has_bg = true; }
                self.consumed += 1;
            }
            Op::Fixed { i, c } => {
                let i = pick!(imgs, i);
                ensure!(liq_image_add_fixed_color(self.imgs[i].h.0, ccolor(c.map(|v| v & 0xE0))) == OK, "fixed color refused");
                self.imgs[i].fixed += 1;
            }
            Op::Quant { i, a, abort, old } => {
                let i = pick!(imgs, i);
                let a = pick!(attrs, a);
                let (at, im) = (self.attrs[a].h.0, self.imgs[i].h.0);
                let mut left = *abort as u32;
                if *abort > 0 {
                    liq_attr_set_progress_callback(at, Some(abort_at), &mut left as *mut u32 as *mut c_void);
                }
                let mut out = null_mut();
                let rc = if *old {
                    out = liq_quantize_image(at, im);
                    if out.is_null() { -1 } else { OK }
                } else {
                    liq_image_quantize(im, at, &mut out)
                };
                if *abort > 0 {
                    liq_attr_set_progress_callback(at, None, null_mut());
                }
                let s = &self.imgs[i];
                ensure!((rc == OK) == !out.is_null(), "rc {rc} with result {out:?}");
                ensure!(matches!(rc, OK | -1 | QUALITY_TOO_LOW) || (*abort > 0 && rc == ABORTED) || (rc == UNSUPPORTED && (s.remapped || s.imp)), "quantize: {rc}");
                if rc == OK {
                    // (the same fixed color twice takes the place of others)
                    let exact = self.attrs[a].exact && !s.imp && s.fixed < 2;
                    self.res.push(ResS { h: CResult(out), exact, colors: s.px.iter().copied().collect() });
                }
            }
            Op::Remap { r, i, rows, short, dither, abort } => {
                let r = pick!(res, r);
                let i = pick!(imgs, i);
                let (rh, im) = (self.res[r].h.0, self.imgs[i].h.0);
                let (w, h) = (self.imgs[i].w, self.imgs[i].ht);
                liq_set_dithering_level(rh, *dither);
                let mut left = *abort as u32;
                if *abort > 0 {
                    liq_result_set_progress_callback(rh, Some(abort_at), &mut left as *mut u32 as *mut c_void);
                }
                let mut out = vec![0xEEu8; w * h];
                let rc = if *rows {
                    let mut rp: Vec<*mut u8> = (0..h).map(|y| out.as_mut_ptr().add(y * w)).collect();
                    liq_write_remapped_image_rows(rh, im, rp.as_mut_ptr())
                } else {
                    liq_write_remapped_image(rh, im, out.as_mut_ptr().cast(), if *short { w * h - 1 } else { w * h })
                };
                if *abort > 0 {
                    liq_result_set_progress_callback(rh, None, null_mut());
                }
                if *short && !*rows {
                    ensure!(rc == BUFFER_TOO_SMALL, "short buffer: {rc}");
                    return Ok(());
                }
                ensure!(rc == OK || (rc == ABORTED && *abort > 0), "remap: {rc}");
                self.imgs[i].remapped = true;
                if rc == OK && !self.imgs[i].has_bg && self.res[r].exact && self.imgs[i].px.iter().all(|p| self.res[r].colors.contains(p)) {
                    let pal = pal_px(rh);
                    for (k, p) in self.imgs[i].px.iter().enumerate() {
                        let got = pal.get(out[k] as usize).copied();
                        ensure!(got.map(canon) == Some(*p), "pixel {k} of image {i} is {p:?}, remapped to {got:?} (read from freed or wrong memory?)");
                    }
                    self.checked += 1;
                }
            }
            Op::Pal(r) => {
                let r = pick!(res, r);
                let _ = pal_px(self.res[r].h.0);
            }
            Op::HNew(a) => {
                let a = pick!(attrs, a);
                self.hists.push(HistS { h: CHist(liq_histogram_create(self.attrs[a].h.0)), exact: true, fixed: 0, colors: Default::default() });
            }
            Op::HAdd { h, a, i } => {
                let (h, a, i) = (pick!(hists, h), pick!(attrs, a), pick!(imgs, i));
                let rc = liq_histogram_add_image(self.hists[h].h.0, self.attrs[a].h.0, self.imgs[i].h.0);
                ensure!(rc == OK || (rc == UNSUPPORTED && self.imgs[i].remapped), "add_image: {rc}");
                if rc == OK {
                    let e = !self.imgs[i].imp;
                    self.hists[h].exact &= e;
                    self.hists[h].fixed += self.imgs[i].fixed;
                    let px = &self.imgs[i].px;
                    self.hists[h].colors.extend(px.iter().copied());
                }
            }
            Op::HCols { h, a, colors } => {
                let (h, a) = (pick!(hists, h), pick!(attrs, a));
                let e: Vec<_> = colors.iter().map(|c| hist_entry { color: ccolor(c.map(|v| v & 0xE0)), count: 3 }).collect();
                let rc = liq_histogram_add_colors(self.hists[h].h.0, self.attrs[a].h.0, e.as_ptr(), e.len() as c_int, 0.);
                ensure!(rc == OK, "add_colors: {rc}");
            }
            Op::HFixed { h, c } => {
                let h = pick!(hists, h);
                ensure!(liq_histogram_add_fixed_color(self.hists[h].h.0, ccolor(c.map(|v| v & 0xE0)), 0.) == OK, "fixed color refused");
                self.hists[h].fixed += 1;
            }
            Op::HQuant { h, a } => {
                let (h, a) = (pick!(hists, h), pick!(attrs, a));
                let mut out = null_mut();
                let rc = liq_histogram_quantize(self.hists[h].h.0, self.attrs[a].h.0, &mut out);
                ensure!((rc == OK) == !out.is_null(), "rc {rc} with result {out:?}");
                ensure!(matches!(rc, OK | QUALITY_TOO_LOW | UNSUPPORTED), "histogram_quantize: {rc}");
                if rc == OK {
                    let exact = self.attrs[a].exact && self.hists[h].exact && self.hists[h].fixed < 2;
                    self.res.push(ResS { h: CResult(out), exact, colors: self.hists[h].colors.clone() });
                }
            }
            Op::Destroy { what, k } => match what % 4 {
                0 => { let i = pick!(attrs, k); if self.attrs.len() > 1 { self.attrs.remove(i); } }
                1 => { let i = pick!(imgs, k); self.imgs.remove(i); }
                2 => { let i = pick!(res, k); self.res.remove(i); }
                _ => { let i = pick!(hists, k); self.hists.remove(i); }
            },
        }
        Ok(())
    }

    fn finish(&mut self, end: u32) -> R {
        let mut r = Sm::new(end as u64);
        loop {
            let n = [self.attrs.len(), self.imgs.len(), self.res.len(), self.hists.len()];
            let t: usize = n.iter().sum();
            if t == 0 { break; }
            let mut k = r.below(t);
            if k < n[0] { self.attrs.remove(k); continue; }
            k -= n[0];
            if k < n[1] { self.imgs.remove(k); continue; }
            k -= n[1];
            if k < n[2] { self.res.remove(k); continue; }
            k -= n[2];
            self.hists.remove(k);
        }
        self.no_early()?;
        for b in &self.bufs {
            match b.given {
                None => {
                    let now = unsafe { std::slice::from_raw_parts(b.p, b.n) };
                    ensure!(now == &b.copy[..], "a {} buffer that belongs to the caller has been modified", b.what);
                }
                Some(w) if !self.real => {
                    let g = REG.lock().unwrap();
                    let f: Vec<u8> = g.as_ref().unwrap().freed.iter().filter(|f| f.0 == b.p as usize).map(|f| f.1).collect();
                    ensure!(f.len() == 1, "a {} buffer given to the library was freed {} times after all objects have been destroyed", b.what, f.len());
                    ensure!(f[0] == w, "a {} buffer was freed with the free function of another attributes object", b.what);
                }
                _ => {}
            }
        }
        Ok(())
    }
}
impl Drop for World {
    fn drop(&mut self) {
        // handles first; then the memory (the library must not use it any more)
        self.res.clear();
        self.hists.clear();
        self.imgs.clear();
        self.attrs.clear();
        for b in &self.bufs {
            if !self.real || b.given.is_none() {
                unsafe { free(b.p.cast()) };
            }
        }
        *REG.lock().unwrap_or_else(|e| e.into_inner()) = None;
    }
}

fn execute(c: &Case) -> Result<(usize, usize, usize), String> {
    *REG.lock().unwrap_or_else(|e| e.into_inner()) = Some(Reg::default());
    let mut w = World { real: c.real, bufs: vec![], attrs: vec![], imgs: vec![], res: vec![], hists: vec![], keep: vec![], transfers: 0, consumed: 0, checked: 0 };
    unsafe {
        w.op(&Op::AttrNew { b: c.end % 2 == 1 })?;
        for (k, op) in c.ops.iter().enumerate() {
            w.op(op).and_then(|()| w.no_early()).map_err(|e| format!("step {k} {op:?}: {e}"))?;
        }
    }
    w.finish(c.end)?;
    Ok((w.transfers, w.consumed, w.checked))
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "histories of up to 24 C API calls over attributes, images (4 kinds), histograms and results with ownership transfers, invalid flags, failing calls and any order of destruction; non-trivial: at least one buffer or background changed hands";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let real = o.mode == "asan";
        let flags = prop_oneof![3 => Just(8i32), 2 => Just(4), 3 => Just(12), 2 => Just(16), 1 => Just(0), 1 => Just(24), 1 => Just(28), 1 => Just(20), 1 => any::<i32>()];
        let side = prop_oneof![2 => Just(5u8), 1 => 1u8..=14];
        let op = prop_oneof![
            1 => any::<bool>().prop_map(|b| Op::AttrNew { b }),
            1 => any::<u8>().prop_map(Op::AttrCopy),
            1 => (any::<u8>(), 1u8..=10, prop_oneof![3 => Just(None), 1 => Just(Some((100u8, 100u8))), 1 => (0u8..50, 50u8..=100).prop_map(Some)]).prop_map(|(a, speed, q)| Op::AttrSet { a, speed, q }),
            5 => (any::<u8>(), any::<u8>(), side.clone(), side, prop::collection::vec(color(), 1..6), any::<u32>(), prop_oneof![6 => Just(0u8), 1 => 1u8..6]).prop_map(|(a, kind, w, h, colors, seed, bad)| Op::ImgNew { a, kind, w, h, colors, seed, bad }),
            5 => (any::<u8>(), flags.clone()).prop_map(|(i, flags)| Op::Own { i, flags }),
            2 => (any::<u8>(), flags, prop_oneof![3 => Just(0u8), 2 => 0u8..5], any::<u32>()).prop_map(|(i, flags, size, seed)| Op::Imp { i, flags, size, seed }),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(i, b)| Op::Bg { i, b }),
            1 => (any::<u8>(), color()).prop_map(|(i, c)| Op::Fixed { i, c }),
            4 => (any::<u8>(), any::<u8>(), prop_oneof![3 => Just(0u8), 1 => 1u8..12], any::<bool>()).prop_map(|(i, a, abort, old)| Op::Quant { i, a, abort, old }),
            4 => (any::<u8>(), any::<u8>(), any::<bool>(), prop::bool::weighted(0.15), dither(), prop_oneof![4 => Just(0u8), 1 => 1u8..5]).prop_map(|(r, i, rows, short, dither, abort)| Op::Remap { r, i, rows, short, dither, abort }),
            1 => any::<u8>().prop_map(Op::Pal),
            1 => any::<u8>().prop_map(Op::HNew),
            2 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(h, a, i)| Op::HAdd { h, a, i }),
            1 => (any::<u8>(), any::<u8>(), prop::collection::vec(color(), 1..6)).prop_map(|(h, a, colors)| Op::HCols { h, a, colors }),
            1 => (any::<u8>(), color()).prop_map(|(h, c)| Op::HFixed { h, c }),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(h, a)| Op::HQuant { h, a }),
            3 => (any::<u8>(), any::<u8>()).prop_map(|(what, k)| Op::Destroy { what, k }),
        ];
        (prop::collection::vec(op, 1..24), any::<u32>()).prop_map(move |(ops, end)| Case { ops, real, end }).boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        #[cfg(feature = "alloc")]
        let before = {
            // buffers of the harness that stay allocated after first use
            static WARM: std::sync::Once = std::sync::Once::new();
            WARM.call_once(|| drop(execute(c)));
            crate::alloc::live()
        };
        let r = execute(c);
        #[cfg(feature = "alloc")]
        {
            // (an error message is memory, too)
            if let Ok(x) = &r {
                let after = crate::alloc::live();
                ensure!(after == before, "{} bytes in {} blocks are still allocated after all objects have been destroyed ({x:?})", after.0 - before.0, after.1 - before.1);
            }
        }
        let (t, b, k) = r?;
        st.label_n("buffers transferred", t as u64);
        st.label_n("backgrounds consumed", b as u64);
        st.label_n("remapped images verified", k as u64);
        st.nontrivial(t + b > 0);
        Ok(())
    }
}
