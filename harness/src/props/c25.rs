//! The Java binding, driven command by command in another process, against the Rust API in lockstep.
use crate::common::*;
use imagequant::{Attributes, Image, QuantizationResult, RGBA};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::mem::MaybeUninit;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Attr,
    Copy(u8),
    Speed(u8, i32),
    Colors(u8, i32),
    Posterize(u8, i32),
    Quality(u8, i32, Option<i32>),
    /// BufferedImage of a type, a part of a larger one if margins aren't 0
    Buf { ty: u8, img: Img, margin: [u8; 4], solid: bool },
    Image { a: Option<u8>, b: u8 },
    Repaint(u8),
    Fixed { i: u8, c: Px, three: bool },
    Size(u8),
    Quantize { a: u8, i: u8, constructor: bool },
    Dither(u8, u32),
    Gamma(u8, u64),
    Get(u8),
    Remap(u8, u8),
    Once(u8, u8),
    OnceBuf(u8, u8),
    /// kind of object, which, how many times close() is called before the reference is dropped
    Close(u8, u8, u8),
    Gc,
    /// null instead of an object
    Null(u8),
    /// temporary objects, garbage collected continuously
    Race(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}
pub struct P;

// ------------------------------------------------------------------ the other process
struct Jvm {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    cases: u32,
}
impl Drop for Jvm {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! { static JVM: RefCell<Option<Jvm>> = const { RefCell::new(None) }; }

fn start() -> Jvm {
    let setup = |what: &str| -> ! {
        eprintln!("Java: {what}");
        std::process::exit(3)
    };
    let dir = std::env::var("LIQ_JAVA").unwrap_or_else(|_| setup("LIQ_JAVA is not set"));
    let mut c = Command::new("java");
    c.args(["-Xmx256m", "-Xss4m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=/dev/null", "-XX:-UsePerfData", "-Xshare:auto", "-Djava.awt.headless=true"]);
    c.arg(format!("-Djava.library.path={dir}")).arg("-cp").arg(format!("{dir}/classes")).arg("Peer");
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut child = c.spawn().unwrap_or_else(|e| setup(&e.to_string()));
    let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
    Jvm { child, to, from, cases: 0 }
}

struct World {
    attrs: Vec<Attributes>,
    bufs: Vec<B>,
    images: Vec<I>,
    results: Vec<Option<QuantizationResult>>,
    exact: u32,
    what: String,
}
struct B {
    w: usize,
    h: usize,
    /// as getRGB() tells
    rgb: Vec<i32>,
    /// as converted
    px: Vec<RGBA>,
    /// that is the only reasonable conversion
    exact: bool,
    ty: u8,
}
struct I {
    im: Image<'static>,
    exact: bool,
}

fn argb(p: RGBA) -> i32 {
    i32::from_be_bytes([p.a, p.r, p.g, p.b])
}
fn from_argb(v: i32) -> RGBA {
    let [a, r, g, b] = v.to_be_bytes();
    RGBA::new(r, g, b, a)
}
fn ask(cmd: &str) -> Result<String, String> {
    JVM.with(|j| {
        let mut j = j.borrow_mut();
        let p = j.get_or_insert_with(start);
        let mut line = String::new();
        let ok = writeln!(p.to, "{cmd}").and_then(|()| p.to.flush()).and_then(|()| p.from.read_line(&mut line));
        match ok {
            Ok(n) if n > 0 && line.ends_with('\n') => {
                line.pop();
                Ok(line)
            }
            _ => {
                let st = p.child.wait();
                *j = None;
                Err(format!("the Java process died at \"{}\" ({st:?})", &cmd[..cmd.len().min(80)]))
            }
        }
    })
}
fn ints(s: &str) -> Result<Vec<i32>, String> {
    s.split_ascii_whitespace().map(|x| x.parse::<i32>().map_err(|_| format!("not a number: {x}"))).collect()
}

impl World {
    fn say(&self, cmd: &str) -> Result<String, String> {
        ask(cmd).map_err(|e| format!("{}: {e}", self.what))
    }
    fn want(&self, cmd: &str, want: &str) -> R {
        let got = self.say(cmd)?;
        ensure!(got == want, "{}: \"{}\" gave {got}, expected {want}", self.what, &cmd[..cmd.len().min(80)]);
        Ok(())
    }
    fn unmodified(&self, b: usize) -> R {
        let got = self.say(&format!("pixels {b}"))?;
        let got = ints(got.strip_prefix("pixels").ok_or_else(|| got.clone())?)?;
        let want = &self.bufs[b].rgb;
        if let Some(k) = (0..want.len()).find(|&k| got.get(k) != Some(&want[k])) {
            return Err(format!("{}: the BufferedImage of type {} was modified: pixel {k} was {:08x}, is {:08x}", self.what, self.bufs[b].ty, want[k], got.get(k).copied().unwrap_or(0)));
        }
        Ok(())
    }
    fn image(&self, b: usize) -> Result<I, String> {
        let b = &self.bufs[b];
        let (px, w) = (b.px.clone(), b.w);
        let f = move |row: &mut [MaybeUninit<RGBA>], y: usize| {
            for (o, p) in row.iter_mut().zip(&px[y * w..][..w]) {
                o.write(*p);
            }
        };
        let im = unsafe { Image::new_fn(&Attributes::new(), f, b.w, b.h, 0.) }.map_err(e2s)?;
        Ok(I { im, exact: b.exact })
    }
    /// answer describing a remapped image
    fn compare(&mut self, got: &str, reference: Result<(Vec<RGBA>, Vec<u8>), imagequant::Error>, w: usize, h: usize, exact: bool) -> R {
        let what = &self.what;
        if got == "null" {
            ensure!(!exact || reference.is_err(), "{what}: no image, expected one");
            return Ok(());
        }
        let v = ints(got.strip_prefix("image ").ok_or_else(|| format!("{what}: {}", &got[..got.len().min(200)]))?)?;
        ensure!(v.len() > 2 && (v[0], v[1]) == (w as i32, h as i32), "{what}: image of size {:?}, expected {w}x{h}", &v[..2]);
        let (rgb, rest) = v[2..].split_at(w * h);
        let n = rest[0] as usize;
        let (pal, idx) = rest[1..].split_at(n);
        ensure!(idx.len() == w * h, "{what}: number of pixels");
        let canon = |v: i32| if (v as u32) < 1 << 24 { 0 } else { v };
        for (k, (&c, &i)) in rgb.iter().zip(idx).enumerate() {
            ensure!((i as usize) < n, "{what}: index {i} of pixel {k}, palette of {n}");
            ensure!(canon(c) == canon(pal[i as usize]), "{what}: pixel {k} is not its palette entry");
        }
        if !exact { return Ok(()); }
        let (rp, ri) = reference.map_err(|e| format!("{what}: an image, expected {e:?}"))?;
        ensure!(n == rp.len(), "{what}: palette of {n}, expected {}", rp.len());
        for k in 0..n {
            ensure!(canon(pal[k]) == canon(argb(rp[k])), "{what}: palette entry {k} is {:08x}, the image was remapped to {:08x}", pal[k], argb(rp[k]));
        }
        if let Some(k) = (0..w * h).find(|&k| idx[k] != ri[k] as i32) {
            return Err(format!("{what}: pixel {k} has index {}, expected {}", idx[k], ri[k]));
        }
        self.exact += 1;
        Ok(())
    }
    fn op(&mut self, op: &Op, st: &mut Stats) -> R {
        macro_rules! pick {
            ($v:ident, $i:expr) => {{
                if self.$v.is_empty() { return Ok(()); }
                *$i as usize % self.$v.len()
            }};
        }
        let b2s = |r: Result<(), imagequant::Error>| if r.is_ok() { "true" } else { "false" };
        let small = |v: i32| u8::try_from(v).map_err(|_| imagequant::Error::ValueOutOfRange);
        match op {
            Op::Attr => {
                self.want("attr", "ok")?;
                self.attrs.push(Attributes::new());
            }
            Op::Copy(a) => {
                let a = pick!(attrs, a);
                self.want(&format!("copy {a}"), "ok")?;
                let c = self.attrs[a].clone();
                self.attrs.push(c);
            }
            Op::Speed(a, v) => {
                let a = pick!(attrs, a);
                let r = b2s(self.attrs[a].set_speed(*v));
                self.want(&format!("speed {a} {v}"), r)?;
            }
            Op::Colors(a, v) => {
                let a = pick!(attrs, a);
                let r = b2s(u32::try_from(*v).map_err(|_| imagequant::Error::ValueOutOfRange).and_then(|v| self.attrs[a].set_max_colors(v)));
                self.want(&format!("colors {a} {v}"), r)?;
            }
            Op::Posterize(a, v) => {
                let a = pick!(attrs, a);
                let r = b2s(small(*v).and_then(|v| self.attrs[a].set_min_posterization(v)));
                self.want(&format!("posterize {a} {v}"), r)?;
            }
            Op::Quality(a, x, y) => {
                let a = pick!(attrs, a);
                let (lo, hi) = y.map_or((*x / 2, *x), |y| (*x, y));
                let r = b2s(small(lo).and_then(|lo| self.attrs[a].set_quality(lo, small(hi)?)));
                let cmd = match y { Some(y) => format!("quality {a} {x} {y}"), None => format!("quality {a} {x}") };
                self.want(&cmd, r)?;
            }
            Op::Buf { ty, img, margin: m, solid } => {
                let (w, h) = (img.w as usize, img.h as usize);
                let mut cmd = format!("buf {ty} {w} {h} {} {} {} {} {}", m[0], m[1], m[2], m[3], img.seed as i32);
                for mut p in img.pixels() {
                    if *solid { p.a = if p.a < 100 { 0 } else { 255 }; }
                    cmd += &format!(" {}", argb(p));
                }
                let r = self.say(&cmd)?;
                let v = ints(r.strip_prefix("pixels").ok_or_else(|| r.clone())?)?;
                let (rgb, conv) = v.split_at(w * h);
                let direct = matches!(ty, 1 | 2 | 4 | 5 | 6);
                let exact = direct || rgb.iter().zip(conv).all(|(&x, &y)| px(from_argb(x)) == px(from_argb(y)) || (from_argb(x).a == 0 && from_argb(y).a == 0));
                st.label(format!("type {ty}{}{}", if m.iter().any(|&x| x > 0) { " part" } else { "" }, if exact { "" } else { ", inexact" }));
                let px = (if direct { rgb } else { conv }).iter().map(|&v| from_argb(v)).collect();
                self.bufs.push(B { w, h, rgb: rgb.to_vec(), px, exact, ty: *ty });
            }
            Op::Image { a, b } => {
                let b = pick!(bufs, b);
                let a = match a { Some(a) if !self.attrs.is_empty() => (*a as usize % self.attrs.len()) as i32, _ => -1 };
                self.want(&format!("image {a} {b}"), "ok")?;
                self.unmodified(b)?;
                let i = self.image(b)?;
                self.images.push(i);
            }
            Op::Repaint(b) => {
                let b = pick!(bufs, b);
                let r = self.say(&format!("repaint {b}"))?;
                let v = ints(r.strip_prefix("pixels").ok_or_else(|| r.clone())?)?;
                let b = &mut self.bufs[b];
                b.px = v.iter().map(|&v| from_argb(v)).collect();
                b.rgb = v;
                b.exact = matches!(b.ty, 1..=7);
            }
            Op::Fixed { i, c, three } => {
                let i = pick!(images, i);
                let c = if *three { [c[0], c[1], c[2], 255] } else { *c };
                let r = b2s(self.images[i].im.add_fixed_color(rgba(c)));
                let cmd = format!("fixed {i} {} {} {}", c[0], c[1], c[2]);
                self.want(&if *three { cmd } else { format!("{cmd} {}", c[3]) }, r)?;
            }
            Op::Size(i) => {
                let i = pick!(images, i);
                let im = &self.images[i].im;
                self.want(&format!("size {i}"), &format!("{} {}", im.width(), im.height()))?;
            }
            Op::Quantize { a, i, constructor } => {
                let (a, i) = (pick!(attrs, a), pick!(images, i));
                let got = self.say(&format!("{} {a} {i}", if *constructor { "result" } else { "quantize" }))?;
                let im = &mut self.images[i];
                let r = self.attrs[a].quantize(&mut im.im);
                if im.exact {
                    let want = if r.is_ok() { "ok" } else { "null" };
                    ensure!(got == want, "{}: {got}, expected {want} ({:?})", self.what, r.err());
                }
                match got.as_str() {
                    "ok" => {
                        let exact = im.exact;
                        self.results.push(r.ok().filter(|_| exact));
                    }
                    "null" => (),
                    _ => return Err(format!("{}: {got}", self.what)),
                }
            }
            Op::Dither(r, f) => {
                let r = pick!(results, r);
                let v = f32::from_bits(*f);
                let want = v >= 0. && v <= 1.;
                if let Some(r) = &mut self.results[r] { let _ = r.set_dithering_level(v); }
                self.want(&format!("dither {r} {}", *f as i32), if want { "true" } else { "false" })?;
            }
            Op::Gamma(r, f) => {
                let r = pick!(results, r);
                let v = f64::from_bits(*f);
                let want = v > 0. && v < 1.;
                if let Some(r) = &mut self.results[r] { let _ = r.set_output_gamma(v); }
                self.want(&format!("gamma {r} {}", *f as i64), if want { "true" } else { "false" })?;
            }
            Op::Get(r) => {
                let r = pick!(results, r);
                let got = self.say(&format!("get {r}"))?;
                if let Some(res) = &self.results[r] {
                    let v: Vec<i64> = got.split(' ').map(|x| x.parse().map_err(|_| format!("{}: {got}", self.what))).collect::<Result<_, _>>()?;
                    ensure!(v.len() == 3, "{}: {got}", self.what);
                    let g = f64::from_bits(v[0] as u64);
                    ensure!(g == res.output_gamma(), "{}: gamma {g}, expected {}", self.what, res.output_gamma());
                    let (e, want) = (f64::from_bits(v[1] as u64), res.quantization_error().unwrap_or(-1.));
                    ensure!(e == want, "{}: error {e}, expected {want}", self.what);
                    let want = res.quantization_quality().map_or(-1, i64::from);
                    ensure!(v[2] == want, "{}: quality {}, expected {want}", self.what, v[2]);
                }
            }
            Op::Remap(r, i) => {
                let (r, i) = (pick!(results, r), pick!(images, i));
                let got = self.say(&format!("remap {r} {i}"))?;
                let im = &mut self.images[i];
                let (w, h) = (im.im.width(), im.im.height());
                let reference = match &mut self.results[r] {
                    Some(r) if im.exact => Some(r.remapped(&mut im.im)),
                    _ => {
                        // their histories differ from here on
                        im.exact = false;
                        None
                    }
                };
                match reference {
                    Some(x) => self.compare(&got, x, w, h, true)?,
                    None => {
                        self.results[r] = None;
                        self.compare(&got, Err(imagequant::Error::Unsupported), w, h, false)?;
                    }
                }
            }
            Op::Once(a, i) => {
                let (a, i) = (pick!(attrs, a), pick!(images, i));
                let got = self.say(&format!("once {a} {i}"))?;
                let im = &mut self.images[i];
                let (w, h, exact) = (im.im.width(), im.im.height(), im.exact);
                let r = self.attrs[a].quantize(&mut im.im).and_then(|mut r| r.remapped(&mut im.im));
                self.compare(&got, r, w, h, exact)?;
            }
            Op::OnceBuf(a, b) => {
                let (a, b) = (pick!(attrs, a), pick!(bufs, b));
                let got = self.say(&format!("oncebuf {a} {b}"))?;
                self.unmodified(b)?;
                let mut im = self.image(b)?;
                let (w, h, exact) = (im.im.width(), im.im.height(), im.exact);
                let r = self.attrs[a].quantize(&mut im.im).and_then(|mut r| r.remapped(&mut im.im));
                self.compare(&got, r, w, h, exact)?;
            }
            Op::Close(kind, k, times) => match kind % 3 {
                0 => { let k = pick!(attrs, k); self.want(&format!("closeattr {k} {times}"), "ok")?; self.attrs.remove(k); },
                1 => { let k = pick!(images, k); self.want(&format!("closeimage {k} {times}"), "ok")?; self.images.remove(k); },
                _ => { let k = pick!(results, k); self.want(&format!("closeresult {k} {times}"), "ok")?; self.results.remove(k); },
            },
            Op::Gc => self.want("gc", "ok")?,
            Op::Null(k) => {
                if self.attrs.is_empty() || (*k >= 8 && self.results.is_empty()) { return Ok(()); }
                let got = self.say(&format!("null {k} 0"))?;
                ensure!(got == "returned" || got.starts_with("thrown"), "{}: {got}", self.what);
            }
            Op::Race(n) => {
                if self.bufs.is_empty() { return Ok(()); }
                self.want(&format!("race 0 {n}"), "same")?;
                st.label("collected while in use");
                self.exact += 1;
            }
        }
        Ok(())
    }
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "histories of calls of the Java classes (settings in and out of range, BufferedImages of all types and parts of larger ones, fixed colors, quantization, remapping, close, garbage collection), each answer compared with the Rust API in lockstep, native objects and memory counted at the end; non-trivial: at least one remapped image was compared";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        if o.mode == "gc" {
            // compiled code forgets objects earlier than interpreted code, that takes some hundred calls
            return (prop_oneof![Just(5u8), Just(6), Just(2), Just(7)], img_of((4u32..=20, 4u32..=20).boxed()), 350u16..500)
                .prop_map(|(ty, img, n)| Case { ops: vec![Op::Buf { ty, img, margin: [0; 4], solid: ty != 6 }, Op::Race(n)] })
                .boxed();
        }
        let u = any::<u8>;
        let int = || prop_oneof![3 => 0i32..=10, 2 => -2i32..=260, 1 => prop_oneof![Just(i32::MIN), Just(i32::MAX), Just(-1), Just(256), Just(257), Just(65538), Just(-254), any::<i32>()]];
        let q = || prop_oneof![4 => 0i32..=100, 1 => -3i32..=105, 1 => prop_oneof![Just(i32::MIN), Just(i32::MAX), Just(256), Just(356), any::<i32>()]];
        let unit = || prop_oneof![4 => (0u32..=10).prop_map(|x| x as f64 / 10.), 2 => 0f64..1., 1 => prop_oneof![Just(-0.1), Just(1.0001), Just(f64::NAN), Just(f64::INFINITY), Just(-0.), Just(2.2)]];
        let ty = prop_oneof![5 => Just(5u8), 6 => Just(6), 3 => Just(7), 3 => Just(2), 1 => Just(1), 1 => Just(3), 1 => Just(4), 2 => 8u8..=13];
        let margin = prop_oneof![3 => Just([0u8; 4]), 1 => prop::array::uniform4(prop_oneof![Just(0u8), 0u8..5])];
        let buf = (ty, small_img(), margin, prop_oneof![Just(true), any::<bool>()]).prop_map(|(ty, img, margin, solid)| {
            // those store other values than they were given, unless there's no partial transparency
            let solid = solid && ty != 6 && ty != 2 || matches!(ty, 3 | 7 | 13) && img.seed % 4 != 0;
            Op::Buf { ty, img, margin, solid }
        }).boxed();
        let op = prop_oneof![
            1 => Just(Op::Attr),
            1 => u().prop_map(Op::Copy),
            2 => (u(), int()).prop_map(|(a, v)| Op::Speed(a, v)),
            2 => (u(), int()).prop_map(|(a, v)| Op::Colors(a, v)),
            1 => (u(), int()).prop_map(|(a, v)| Op::Posterize(a, v)),
            2 => (u(), q(), prop::option::of(q())).prop_map(|(a, x, y)| Op::Quality(a, x, y)),
            3 => buf.clone(),
            3 => (prop::option::weighted(0.8, u()), u()).prop_map(|(a, b)| Op::Image { a, b }),
            1 => u().prop_map(Op::Repaint),
            2 => (u(), color(), any::<bool>()).prop_map(|(i, c, three)| Op::Fixed { i, c, three }),
            1 => u().prop_map(Op::Size),
            4 => (u(), u(), any::<bool>()).prop_map(|(a, i, constructor)| Op::Quantize { a, i, constructor }),
            3 => (u(), unit()).prop_map(|(r, v)| Op::Dither(r, (v as f32).to_bits())),
            2 => (u(), unit()).prop_map(|(r, v)| Op::Gamma(r, v.to_bits())),
            2 => u().prop_map(Op::Get),
            5 => (u(), u()).prop_map(|(r, i)| Op::Remap(r, i)),
            1 => (u(), u()).prop_map(|(r, i)| Op::Once(r, i)),
            2 => (u(), u()).prop_map(|(r, i)| Op::OnceBuf(r, i)),
            3 => (u(), u(), 0u8..4).prop_map(|(a, b, c)| Op::Close(a, b, c)),
            1 => (0u8..9).prop_map(Op::Null),
        ];
        (buf, prop::collection::vec(op, 2..24), any::<[u8; 2]>()).prop_map(|(b, rest, [x, y])| {
            let mut ops = vec![Op::Attr, b, Op::Image { a: Some(0), b: 0 }, Op::Quantize { a: 0, i: 0, constructor: x & 1 == 0 }];
            if x & 0x30 == 0 { ops.swap(2, 3); }
            ops.extend(rest);
            ops.push(Op::Remap(x, y));
            // garbage collections are slow
            if x % 16 == 1 { ops.push(Op::Gc); ops.push(Op::Remap(y, x)); }
            Case { ops }
        }).boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        JVM.with(|j| {
            let mut j = j.borrow_mut();
            if j.as_ref().is_some_and(|j| j.cases >= 400) { *j = None; }
            j.get_or_insert_with(start).cases += 1;
        });
        let mut w = World { attrs: vec![], bufs: vec![], images: vec![], results: vec![], exact: 0, what: String::new() };
        let mut r = Ok(());
        for (k, op) in c.ops.iter().enumerate() {
            w.what = format!("step {k} {}", format!("{op:?}").split(" {").next().unwrap());
            r = w.op(op, st);
            if r.is_err() { break; }
        }
        if r.is_ok() {
            let got = ask("end").map_err(|e| format!("closing everything: {e}"))?;
            ensure!(got == "live 0 0 0 0", "after everything was closed or collected there are still (memory blocks, PngQuant, Image, Result): {got}");
        } else {
            // start over with a new process
            JVM.with(|j| *j.borrow_mut() = None);
        }
        st.nontrivial(w.exact > 0);
        if w.exact > 0 { st.label("remapped and compared"); }
        r
    }
}
