//! Log and flush callbacks over histories of several attributes objects (Rust and C), against a model of who listens.
use crate::capi::*;
use crate::common::*;
use imagequant::{Attributes, Error, Histogram, Image};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::CStr;
use std::os::raw::{c_char, c_void};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    New { c: bool, set: Settings },
    Log(u8),
    Flush(u8),
    /// C API only
    NullLog(u8),
    NullFlush(u8),
    Quantize { slot: u8, img: Img, hist: bool, remap: bool },
    BadGamma { slot: u8, gamma: u8 },
    LowQuality(u8),
    Settings(u8, Settings),
    Copy(u8),
    Destroy(u8),
    /// the object is moved elsewhere in memory (Rust only)
    Move(u8),
    /// quantize in several threads at the same time, with the same attributes
    Concurrent(u8, Img),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}
pub struct P;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    /// callback's number, address of the object passed, message
    Log(usize, usize, String),
    Flush(usize, usize),
}
static EVENTS: Mutex<Vec<Ev>> = Mutex::new(Vec::new());
fn push(e: Ev) {
    EVENTS.lock().unwrap_or_else(|e| e.into_inner()).push(e);
}
fn take() -> Vec<Ev> {
    std::mem::take(&mut *EVENTS.lock().unwrap_or_else(|e| e.into_inner()))
}
unsafe extern "C" fn c_log(a: *const attr, m: *const c_char, u: *mut c_void) {
    // the object has to be usable
    let _ = liq_get_speed(a);
    let m = CStr::from_ptr(m).to_str().unwrap_or("(not UTF-8)").to_string();
    push(Ev::Log(u as usize, a as usize, m));
}
unsafe extern "C" fn c_flush(a: *const attr, u: *mut c_void) {
    push(Ev::Flush(u as usize, a as usize));
}

enum Obj {
    R(Box<Attributes>),
    C(*mut attr),
}
impl Obj {
    fn addr(&self) -> usize {
        match self {
            Obj::R(a) => &**a as *const Attributes as usize,
            Obj::C(a) => *a as usize,
        }
    }
}
struct Slot {
    obj: Obj,
    set: Settings,
    log: Option<usize>,
    flush: Option<usize>,
    /// messages since the last flush
    pending: usize,
}
impl Drop for Slot {
    fn drop(&mut self) {
        if let Obj::C(a) = self.obj {
            unsafe { liq_attr_destroy(a) }
        }
    }
}

#[derive(PartialEq, Debug)]
struct Out {
    err: i32,
    pal: Vec<Px>,
    idx: Vec<u8>,
}
fn q_rust(a: &Attributes, img: &Img, hist: bool, remap: bool) -> Out {
    let mut im = new_image(a, img, 0.);
    let r = if hist {
        let mut h = Histogram::new(a);
        h.add_image(a, &mut im).and_then(|()| h.quantize(a))
    } else {
        a.quantize(&mut im)
    };
    let mut r = match r {
        Ok(r) => r,
        Err(e) => return Out { err: code(e), pal: vec![], idx: vec![] },
    };
    if remap {
        match r.remapped(&mut im) {
            Ok((p, idx)) => Out { err: 0, pal: p.into_iter().map(px).collect(), idx },
            Err(e) => Out { err: code(e), pal: vec![], idx: vec![] },
        }
    } else {
        Out { err: 0, pal: r.palette_vec().into_iter().map(px).collect(), idx: vec![] }
    }
}
/// second: what was reported while the attributes were not in use
unsafe fn q_c(a: *mut attr, img: &Img, hist: bool, remap: bool) -> (Out, Vec<Ev>, Vec<Ev>) {
    let pixels = img.pixels();
    let im = CImage(liq_image_create_rgba(a, pixels.as_ptr().cast(), img.w as _, img.h as _, 0.));
    let mut r = CResult(std::ptr::null_mut());
    let e = if hist {
        let h = CHist(liq_histogram_create(a));
        match liq_histogram_add_image(h.0, a, im.0) {
            OK => liq_histogram_quantize(h.0, a, &mut r.0),
            e => e,
        }
    } else {
        liq_image_quantize(im.0, a, &mut r.0)
    };
    let used = take();
    if e != OK {
        return (Out { err: e, pal: vec![], idx: vec![] }, used, take());
    }
    let o = if remap {
        let mut idx = vec![0u8; img.n()];
        let e = liq_write_remapped_image(r.0, im.0, idx.as_mut_ptr().cast(), idx.len());
        Out { err: e, pal: if e == OK { pal_px(r.0) } else { vec![] }, idx: if e == OK { idx } else { vec![] } }
    } else {
        Out { err: 0, pal: pal_px(r.0), idx: vec![] }
    };
    drop(r);
    drop(im);
    (o, used, take())
}
/// messages of the same operation by a new object
fn reference(set: &Settings, f: &dyn Fn(&Attributes)) -> Vec<String> {
    let mut a = set.attr();
    let v = Arc::new(Mutex::new(vec![]));
    let v2 = v.clone();
    a.set_log_callback(move |_, m| v2.lock().unwrap().push(m.to_string()));
    f(&a);
    drop(a);
    let r = v.lock().unwrap().clone();
    r
}

struct Model {
    slots: Vec<Slot>,
    tokens: Vec<Arc<()>>,
    next: usize,
}
impl Model {
    fn pick(&self, k: u8) -> Option<usize> {
        if self.slots.is_empty() { None } else { Some(k as usize % self.slots.len()) }
    }
    fn new_id(&mut self) -> usize {
        self.tokens.push(Arc::new(()));
        self.tokens.len()
    }
    /// closures of callbacks nobody uses have been dropped
    fn check_tokens(&self) -> R {
        for (i, t) in self.tokens.iter().enumerate() {
            let id = i + 1;
            let held = self.slots.iter().any(|s| matches!(s.obj, Obj::R(_)) && (s.log == Some(id) || s.flush == Some(id)));
            let n = Arc::strong_count(t) - 1;
            ensure!(held == (n > 0), "callback {id} is {} by an attributes object, but its closure {}", if held { "used" } else { "not used" }, if n > 0 { "has not been dropped" } else { "has been dropped" });
        }
        Ok(())
    }
    /// events of an operation with slot i in use
    fn check_events(&mut self, i: usize, what: &str, ev: &[Ev], log_allowed: bool) -> Result<Vec<String>, String> {
        let s = &mut self.slots[i];
        let mut msgs = vec![];
        for e in ev {
            match e {
                Ev::Log(id, addr, m) => {
                    ensure!(log_allowed, "{what}: unexpected message {m:?}");
                    ensure!(Some(*id) == s.log, "{what}: message {m:?} went to callback {id}, but the current one is {:?}", s.log);
                    ensure!(*addr == s.obj.addr(), "{what}: message {m:?} came with another object than the one used");
                    ensure!(!m.is_empty(), "{what}: empty message");
                    s.pending += 1;
                    msgs.push(m.clone());
                }
                Ev::Flush(id, addr) => {
                    ensure!(Some(*id) == s.flush, "{what}: flush of callback {id}, but the current one is {:?}", s.flush);
                    ensure!(*addr == s.obj.addr(), "{what}: flush came with another object than the one used");
                    s.pending = 0;
                }
            }
        }
        Ok(msgs)
    }
    fn flushed(&self, i: usize, what: &str) -> R {
        let s = &self.slots[i];
        ensure!(s.pending == 0 || s.flush.is_none(), "{what}: {} messages have not been flushed", s.pending);
        Ok(())
    }
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "histories of up to 25 operations on up to 4 attributes objects (Rust and C); non-trivial: at least 2 objects or a replaced or cleared callback, and at least 2 messages received";
    fn strategy(_: &Opts) -> BoxedStrategy<Case> {
        let im = || img_of(prop_oneof![4 => (1u32..=10, 1u32..=10), 1 => (1u32..=30, 1u32..=30)].boxed());
        let op = prop_oneof![
            3 => (any::<bool>(), settings()).prop_map(|(c, set)| Op::New { c, set }),
            5 => any::<u8>().prop_map(Op::Log),
            5 => any::<u8>().prop_map(Op::Flush),
            1 => any::<u8>().prop_map(Op::NullLog),
            1 => any::<u8>().prop_map(Op::NullFlush),
            8 => (any::<u8>(), im(), any::<bool>(), any::<bool>()).prop_map(|(slot, img, hist, remap)| Op::Quantize { slot, img, hist, remap }),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(slot, gamma)| Op::BadGamma { slot, gamma }),
            1 => any::<u8>().prop_map(Op::LowQuality),
            1 => (any::<u8>(), settings()).prop_map(|(s, t)| Op::Settings(s, t)),
            3 => any::<u8>().prop_map(Op::Copy),
            3 => any::<u8>().prop_map(Op::Destroy),
            1 => any::<u8>().prop_map(Op::Move),
            1 => (any::<u8>(), im()).prop_map(|(s, i)| Op::Concurrent(s, i)),
        ];
        ((any::<bool>(), settings()), prop::collection::vec(op, 1..25))
            .prop_map(|((c, set), mut ops)| {
                ops.insert(0, Op::New { c, set });
                Case { ops }
            })
            .boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        take();
        let mut m = Model { slots: vec![], tokens: vec![], next: 0 };
        let mut total = 0;
        let mut varied = false;
        for op in &c.ops {
            m.next += 1;
            let what = format!("operation {}", m.next);
            match op {
                Op::New { c, set } => {
                    if m.slots.len() >= 4 { continue; }
                    let obj = if *c {
                        let a = c_attr(set);
                        let p = a.0;
                        std::mem::forget(a);
                        Obj::C(p)
                    } else {
                        Obj::R(Box::new(set.attr()))
                    };
                    m.slots.push(Slot { obj, set: set.clone(), log: None, flush: None, pending: 0 });
                    varied |= m.slots.len() > 1;
                    ensure!(take().is_empty(), "{what}: callbacks of a new object called");
                }
                Op::Log(k) => {
                    let Some(i) = m.pick(*k) else { continue };
                    let id = m.new_id();
                    let t = m.tokens[id - 1].clone();
                    match &mut m.slots[i].obj {
                        Obj::R(a) => a.set_log_callback(move |a, s| {
                            let _ = (&t, a.speed());
                            push(Ev::Log(id, a as *const Attributes as usize, s.to_string()))
                        }),
                        Obj::C(a) => unsafe { liq_set_log_callback(*a, Some(c_log), id as *mut c_void) },
                    }
                    varied |= m.slots[i].log.is_some();
                    let ev = take();
                    m.check_events(i, &what, &ev, false)?;
                    m.flushed(i, "log callback replaced")?;
                    m.slots[i].log = Some(id);
                }
                Op::Flush(k) => {
                    let Some(i) = m.pick(*k) else { continue };
                    let id = m.new_id();
                    let t = m.tokens[id - 1].clone();
                    match &mut m.slots[i].obj {
                        Obj::R(a) => a.set_log_flush_callback(move |a| {
                            let _ = (&t, a.speed());
                            push(Ev::Flush(id, a as *const Attributes as usize))
                        }),
                        Obj::C(a) => unsafe { liq_set_log_flush_callback(*a, Some(c_flush), id as *mut c_void) },
                    }
                    varied |= m.slots[i].flush.is_some();
                    let ev = take();
                    m.check_events(i, &what, &ev, false)?;
                    m.flushed(i, "flush callback replaced")?;
                    m.slots[i].flush = Some(id);
                }
                Op::NullLog(k) => {
                    let Some(i) = m.pick(*k) else { continue };
                    let Obj::C(a) = m.slots[i].obj else { continue };
                    unsafe { liq_set_log_callback(a, None, std::ptr::null_mut()) };
                    let ev = take();
                    m.check_events(i, &what, &ev, false)?;
                    m.flushed(i, "log callback cleared")?;
                    m.slots[i].log = None;
                    varied = true;
                    st.label("cleared");
                }
                Op::NullFlush(k) => {
                    let Some(i) = m.pick(*k) else { continue };
                    let Obj::C(a) = m.slots[i].obj else { continue };
                    unsafe { liq_set_log_flush_callback(a, None, std::ptr::null_mut()) };
                    let ev = take();
                    m.check_events(i, &what, &ev, false)?;
                    m.flushed(i, "flush callback cleared")?;
                    m.slots[i].flush = None;
                    varied = true;
                    st.label("cleared");
                }
                Op::Quantize { slot, img, hist, remap } => {
                    let Some(i) = m.pick(*slot) else { continue };
                    let (out, ev, late) = match &m.slots[i].obj {
                        Obj::R(a) => {
                            let o = q_rust(a, img, *hist, *remap);
                            (o, take(), vec![])
                        }
                        Obj::C(a) => unsafe { q_c(*a, img, *hist, *remap) },
                    };
                    ensure!(late.is_empty(), "{what}: callbacks called by something not using the attributes: {late:?}");
                    let msgs = m.check_events(i, &what, &ev, true)?;
                    total += msgs.len();
                    let set = m.slots[i].set.clone();
                    let quiet = q_rust(&set.attr(), img, *hist, *remap);
                    ensure!(out == quiet, "{what}: with callbacks the result is {out:?}, without {quiet:?}");
                    if m.slots[i].log.is_some() {
                        let want = reference(&set, &|a| { q_rust(a, img, *hist, *remap); });
                        ensure!(!want.is_empty(), "quantization reports nothing");
                        ensure!(msgs == want, "{what}: messages {msgs:?}, but a new object would report {want:?}");
                        st.label(if matches!(m.slots[i].obj, Obj::C(_)) { "C messages" } else { "Rust messages" });
                    }
                    if out.err == QUALITY_TOO_LOW { st.label("quality too low"); }
                }
                Op::BadGamma { slot, gamma } => {
                    let Some(i) = m.pick(*slot) else { continue };
                    let g = [-1., 1.5, f64::NAN, f64::INFINITY, 45455.][*gamma as usize % 5];
                    let p = [rgba([1, 2, 3, 255]); 4];
                    let refused = match &m.slots[i].obj {
                        Obj::R(a) => a.new_image(&p[..], 2, 2, g).err() == Some(Error::ValueOutOfRange),
                        Obj::C(a) => unsafe { CImage(liq_image_create_rgba(*a, p.as_ptr().cast(), 2, 2, g)).0.is_null() },
                    };
                    ensure!(refused, "image of gamma {g} accepted");
                    let ev = take();
                    let msgs = m.check_events(i, &what, &ev, true)?;
                    total += msgs.len();
                    if m.slots[i].log.is_some() {
                        ensure!(!msgs.is_empty(), "{what}: gamma {g} refused without a message");
                        let want = reference(&m.slots[i].set, &|a| { let _ = Image::new(a, &p[..], 2, 2, g); });
                        ensure!(msgs == want, "{what}: messages {msgs:?}, but a new object would report {want:?}");
                    }
                }
                Op::LowQuality(k) => {
                    // settings don't log; a warning is possible
                    let Some(i) = m.pick(*k) else { continue };
                    let s = &mut m.slots[i];
                    s.set.quality = Some((0, 0));
                    match &mut s.obj {
                        Obj::R(a) => a.set_quality(0, 0).map_err(e2s)?,
                        Obj::C(a) => ensure!(unsafe { liq_set_quality(*a, 0, 0) } == OK, "quality 0 refused"),
                    }
                    let ev = take();
                    total += m.check_events(i, &what, &ev, true)?.len();
                }
                Op::Settings(k, set) => {
                    let Some(i) = m.pick(*k) else { continue };
                    let mut set = set.clone();
                    if set.quality.is_none() {
                        set.quality = Some((0, 100));
                    }
                    let s = &mut m.slots[i];
                    let (lo, hi) = set.quality.unwrap();
                    match &mut s.obj {
                        Obj::R(a) => {
                            a.set_speed(set.speed as i32).unwrap();
                            a.set_max_colors(set.max_colors as u32).unwrap();
                            a.set_quality(lo, hi).unwrap();
                            a.set_min_posterization(set.posterize).unwrap();
                            a.set_last_index_transparent(set.last_transparent);
                        }
                        Obj::C(a) => unsafe {
                            liq_set_speed(*a, set.speed as _);
                            liq_set_max_colors(*a, set.max_colors as _);
                            liq_set_quality(*a, lo as _, hi as _);
                            liq_set_min_posterization(*a, set.posterize as _);
                            liq_set_last_index_transparent(*a, set.last_transparent as _);
                        },
                    }
                    s.set = set;
                    let ev = take();
                    total += m.check_events(i, &what, &ev, true)?.len();
                }
                Op::Copy(k) => {
                    let Some(i) = m.pick(*k) else { continue };
                    if m.slots.len() >= 4 { continue; }
                    let s = &m.slots[i];
                    let obj = match &s.obj {
                        Obj::R(a) => Obj::R(Box::new((**a).clone())),
                        Obj::C(a) => Obj::C(unsafe { liq_attr_copy(*a) }),
                    };
                    let n = Slot { obj, set: s.set.clone(), log: s.log, flush: s.flush, pending: 0 };
                    m.slots.push(n);
                    varied = true;
                    st.label("copied");
                    let ev = take();
                    m.check_events(i, &what, &ev, true)?;
                }
                Op::Destroy(k) => {
                    let Some(i) = m.pick(*k) else { continue };
                    let addr = m.slots[i].obj.addr();
                    // destroyed in place, so that the address is known
                    let obj = std::mem::replace(&mut m.slots[i].obj, Obj::C(std::ptr::null_mut()));
                    let keep = addr;
                    match obj {
                        Obj::R(a) => drop(a),
                        Obj::C(a) => unsafe { liq_attr_destroy(a) },
                    }
                    let ev = take();
                    let s = &m.slots[i];
                    let mut flushed = false;
                    for e in ev {
                        match e {
                            Ev::Flush(id, a) => {
                                ensure!(Some(id) == s.flush && a == keep, "{what}: destruction flushed callback {id} (current {:?}){}", s.flush, if a == keep { "" } else { " with another object" });
                                flushed = true;
                            }
                            e => return Err(format!("{what}: message on destruction {e:?}")),
                        }
                    }
                    ensure!(flushed || s.flush.is_none() || s.pending == 0, "{what}: {} messages have not been flushed on destruction", s.pending);
                    std::mem::forget(m.slots.remove(i));
                    st.label(if flushed { "flushed on destruction" } else { "destroyed" });
                }
                Op::Move(k) => {
                    let Some(i) = m.pick(*k) else { continue };
                    let obj = std::mem::replace(&mut m.slots[i].obj, Obj::C(std::ptr::null_mut()));
                    m.slots[i].obj = match obj {
                        Obj::R(a) => {
                            // the new place is allocated while the old one exists
                            let spare: Box<std::mem::MaybeUninit<Attributes>> = Box::new_uninit();
                            let v = *a;
                            Obj::R(Box::write(spare, v))
                        }
                        o => o,
                    };
                    ensure!(take().is_empty(), "{what}: moving an object called callbacks");
                }
                Op::Concurrent(k, img) => {
                    let Some(i) = m.pick(*k) else { continue };
                    let set = m.slots[i].set.clone();
                    let Obj::R(a) = &m.slots[i].obj else { continue };
                    let outs: Vec<Out> = std::thread::scope(|s| {
                        let h: Vec<_> = (0..3).map(|_| s.spawn(|| q_rust(a, img, false, false))).collect();
                        h.into_iter().map(|h| h.join()).collect::<Result<_, _>>()
                    }).map_err(|_| "panic in a thread")?;
                    let ev = take();
                    let mut msgs = m.check_events(i, &what, &ev, true)?;
                    total += msgs.len();
                    let quiet = q_rust(&set.attr(), img, false, false);
                    ensure!(outs.iter().all(|o| *o == quiet), "{what}: result of concurrent use differs");
                    if m.slots[i].log.is_some() {
                        let one = reference(&set, &|a| { q_rust(a, img, false, false); });
                        let mut want: Vec<_> = one.iter().flat_map(|m| [m.clone(), m.clone(), m.clone()]).collect();
                        want.sort();
                        msgs.sort();
                        ensure!(msgs == want, "{what}: 3 concurrent uses report {msgs:?}, expected {want:?}");
                        st.label("concurrent");
                    }
                }
            }
            m.check_tokens()?;
        }
        st.nontrivial(varied && total >= 2);
        // the rest is destroyed the same way
        while !m.slots.is_empty() {
            let s = &mut m.slots[0];
            let (addr, flush, pending) = (s.obj.addr(), s.flush, s.pending);
            let obj = std::mem::replace(&mut s.obj, Obj::C(std::ptr::null_mut()));
            match obj {
                Obj::R(a) => drop(a),
                Obj::C(a) => unsafe { liq_attr_destroy(a) },
            }
            let ev = take();
            for e in &ev {
                ensure!(matches!(e, Ev::Flush(id, a) if Some(*id) == flush && *a == addr), "destruction at the end caused {e:?}");
            }
            ensure!(!ev.is_empty() || flush.is_none() || pending == 0, "{pending} messages have not been flushed on destruction at the end");
            std::mem::forget(m.slots.remove(0));
        }
        m.check_tokens()
    }
}
