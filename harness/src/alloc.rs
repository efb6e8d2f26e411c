//! Global allocator that counts, records and, when armed, fails requests of chosen sizes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::*};

pub struct A;
#[global_allocator]
static GLOBAL: A = A;

static LIVE: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);

const REC: usize = 4096;
static RECORDING: AtomicBool = AtomicBool::new(false);
static REC_MIN: AtomicUsize = AtomicUsize::new(0);
static REC_N: AtomicUsize = AtomicUsize::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicUsize = AtomicUsize::new(0);
static REC_BUF: [AtomicUsize; REC] = [Z; REC];

const SIZES: usize = 32;
static ARMED: AtomicBool = AtomicBool::new(false);
static SIZE_N: AtomicUsize = AtomicUsize::new(0);
static SIZE_BUF: [AtomicUsize; SIZES] = [Z; SIZES];
static SEEN: AtomicUsize = AtomicUsize::new(0);
static FAIL_AT: AtomicUsize = AtomicUsize::new(0);
static FOREVER: AtomicBool = AtomicBool::new(false);
static FAILED: AtomicUsize = AtomicUsize::new(0);

fn wants_to_fail(size: usize) -> bool {
    if RECORDING.load(Relaxed) && size >= REC_MIN.load(Relaxed) {
        let i = REC_N.fetch_add(1, Relaxed);
        if i < REC {
            REC_BUF[i].store(size, Relaxed);
        }
    }
    if !ARMED.load(Relaxed) {
        return false;
    }
    let n = SIZE_N.load(Relaxed);
    if !SIZE_BUF[..n].iter().any(|s| s.load(Relaxed) == size) {
        return false;
    }
    let i = SEEN.fetch_add(1, Relaxed);
    let k = FAIL_AT.load(Relaxed);
    let f = i == k || (i > k && FOREVER.load(Relaxed));
    if f {
        FAILED.fetch_add(1, Relaxed);
    }
    f
}

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if wants_to_fail(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            BLOCKS.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if wants_to_fail(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            BLOCKS.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && wants_to_fail(n) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        }
        q
    }
}

pub fn live() -> (i64, i64) {
    (LIVE.load(SeqCst), BLOCKS.load(SeqCst))
}

/// sizes of all requests of at least `min` bytes made by `f`
#[allow(dead_code)]
pub fn record<T>(min: usize, f: impl FnOnce() -> T) -> (T, Vec<usize>) {
    REC_MIN.store(min, SeqCst);
    REC_N.store(0, SeqCst);
    RECORDING.store(true, SeqCst);
    let r = f();
    RECORDING.store(false, SeqCst);
    let n = REC_N.load(SeqCst).min(REC);
    (r, REC_BUF[..n].iter().map(|s| s.load(SeqCst)).collect())
}

/// Fails the k-th request (and with `forever` all later ones) whose size is one of `sizes`; returns the number of failed requests.
#[allow(dead_code)]
pub fn failing<T>(sizes: &[usize], k: usize, forever: bool, f: impl FnOnce() -> T) -> (T, usize) {
    let n = sizes.len().min(SIZES);
    for (b, s) in SIZE_BUF.iter().zip(&sizes[..n]) {
        b.store(*s, SeqCst);
    }
    SIZE_N.store(n, SeqCst);
    SEEN.store(0, SeqCst);
    FAIL_AT.store(k, SeqCst);
    FOREVER.store(forever, SeqCst);
    FAILED.store(0, SeqCst);
    ARMED.store(true, SeqCst);
    let r = f();
    ARMED.store(false, SeqCst);
    (r, FAILED.load(SeqCst))
}
