//! Determinism: repetition, other work before and at the same time, other threads, other builds/processes.
use crate::common::*;
use imagequant::{Attributes, Histogram, Image};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Job {
    pub img: Img,
    pub set: Settings,
    pub gamma: f64,
    pub dither: f32,
    /// through a histogram (frozen palette)
    pub hist: bool,
    pub fixed: Vec<Px>,
    pub importance: Option<u32>,
    pub background: bool,
    /// read the palette before remapping
    pub early_palette: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    jobs: Vec<Job>,
    mode: String,
    order: u32,
}
pub struct P;

/// everything observable of one job
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(crate) struct Digest {
    pub err: Option<String>,
    pal0: Vec<Px>,
    qerr: Option<u64>,
    qual: Option<u8>,
    pub pal: Vec<Px>,
    idx: u64,
    idx_head: Vec<u8>,
    rerr: Option<u64>,
}

pub(crate) fn hash(d: &[u8]) -> u64 {
    d.iter().fold(0xcbf29ce484222325, |h, &b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn image(a: &Attributes, j: &Job) -> Image<'static> {
    let mut im = new_image(a, &j.img, j.gamma);
    for &f in &j.fixed {
        im.add_fixed_color(rgba(f)).unwrap();
    }
    if let Some(s) = j.importance {
        let mut r = Sm::new(s as u64);
        im.set_importance_map((0..j.img.n()).map(|_| r.next() as u8 | 1).collect::<Vec<_>>()).unwrap();
    }
    if j.background {
        let bg: Vec<_> = j.img.pixels().into_iter().rev().collect();
        im.set_background(Image::new(a, bg, j.img.w as usize, j.img.h as usize, j.gamma).unwrap()).unwrap();
    }
    im
}

pub(crate) fn run_job(a: &Attributes, j: &Job, moving: bool) -> Digest {
    let mut d = Digest { err: None, pal0: vec![], qerr: None, qual: None, pal: vec![], idx: 0, idx_head: vec![], rerr: None };
    let mut im = image(a, j);
    let q = if j.hist {
        let mut h = Histogram::new(a);
        h.add_image(a, &mut im).and_then(|()| if moving { std::thread::scope(|s| s.spawn(|| h.quantize(a)).join().unwrap()) } else { h.quantize(a) })
    } else if moving {
        let a2 = a.clone();
        let (i2, r) = std::thread::spawn(move || { let r = a2.quantize(&mut im); (im, r) }).join().unwrap();
        im = i2;
        r
    } else {
        a.quantize(&mut im)
    };
    let mut q = match q {
        Ok(q) => q,
        Err(e) => {
            d.err = Some(format!("quantize {e:?}"));
            return d;
        }
    };
    if j.early_palette {
        d.pal0 = q.palette_vec().into_iter().map(px).collect();
    }
    d.qerr = q.quantization_error().map(f64::to_bits);
    d.qual = q.quantization_quality();
    q.set_dithering_level(j.dither).unwrap();
    let r = if moving {
        let (q2, r) = std::thread::spawn(move || { let r = q.remapped(&mut im); (q, r) }).join().unwrap();
        q = q2;
        r
    } else {
        q.remapped(&mut im)
    };
    match r {
        Ok((p, i)) => {
            d.pal = p.into_iter().map(px).collect();
            d.idx = hash(&i);
            d.idx_head = i[..i.len().min(64)].to_vec();
            d.rerr = q.remapping_error().map(f64::to_bits);
        }
        Err(e) => d.err = Some(format!("remap {e:?}")),
    }
    d
}

/// With several worker threads floating-point sums may be added up in any order.
fn order_free(j: &Job) -> bool {
    // k-means of few colors is done in one piece; later steps do not change a frozen palette
    let few = color_set(&j.img.pixels()).len() + j.fixed.len() <= 256;
    few && (j.dither == 0. || j.hist)
}
fn close(a: Option<u64>, b: Option<u64>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => {
            let (a, b) = (f64::from_bits(a), f64::from_bits(b));
            (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
        }
        (a, b) => a == b,
    }
}
fn same(a: &Digest, b: &Digest, exact: bool) -> bool {
    if exact {
        return a == b;
    }
    let (mut x, mut y) = (a.clone(), b.clone());
    x.rerr = None;
    y.rerr = None;
    x == y && close(a.rerr, b.rerr)
}

struct Peer(#[allow(dead_code)] Child, ChildStdin, BufReader<ChildStdout>);
static PEER: Mutex<Option<Peer>> = Mutex::new(None);

pub(crate) fn ask_peer(jobs: &[Job]) -> Result<Vec<Digest>, String> {
    let mut g = PEER.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        let exe = std::env::var("LIQ_PEER").map_err(|_| "no peer configured")?;
        let mut c = Command::new(exe);
        c.args(["serve", "--prop", "C15"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        if let Ok(t) = std::env::var("LIQ_PEER_THREADS") {
            c.env("RAYON_NUM_THREADS", t);
        }
        let mut c = c.spawn().map_err(|e| e.to_string())?;
        let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
        *g = Some(Peer(c, i, o));
    }
    let p = g.as_mut().unwrap();
    let mut line = String::new();
    let ok = writeln!(p.1, "{}", serde_json::to_string(jobs).unwrap()).and_then(|()| p.1.flush()).and_then(|()| p.2.read_line(&mut line));
    match ok {
        Ok(n) if n > 0 => serde_json::from_str(&line).map_err(|e| e.to_string()),
        _ => {
            *g = None;
            Err("the other process died on this job".into())
        }
    }
}

pub fn serve() -> i32 {
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let jobs: Vec<Job> = serde_json::from_str(&l).unwrap();
        let d: Vec<Digest> = jobs.iter().map(|j| run_job(&j.set.attr(), j, false)).collect();
        let mut o = out.lock();
        if writeln!(o, "{}", serde_json::to_string(&d).unwrap()).and_then(|()| o.flush()).is_err() {
            break;
        }
    }
    0
}

impl Prop for P {
    type Case = Case;
    const RULE: &'static str = "jobs repeated in one process, with other jobs in between, at the same time on 4 threads (own objects, shared attributes), with objects moved between threads, and in another process/build; non-trivial: a palette of 3 or more colors and (main mode) at least 2 different jobs";
    fn strategy(o: &Opts) -> BoxedStrategy<Case> {
        let mode = o.mode.clone();
        let n = if mode.starts_with("peer") { 1..2 } else { 1..5usize };
        let d = if mode == "peer1" {
            prop_oneof![3 => (1u32..=60, 1u32..=60), 1 => (1u32..=20, 100u32..=128), 1 => (1u32..=8, 120u32..=300)].boxed()
        } else {
            prop_oneof![3 => (1u32..=24, 1u32..=24), 1 => (1u32..=60, 1u32..=60), 1 => (1u32..=8, 120u32..=300)].boxed()
        };
        let mt = mode == "mt" || mode == "peer4";
        let job = (img_of(d), settings(), gamma(), dither(), any::<bool>(), prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(color(), 1..4)], prop::option::weighted(0.3, any::<u32>()), prop::bool::weighted(0.25), any::<bool>())
            .prop_map(move |(img, set, gamma, dither, hist, fixed, importance, background, early_palette)| {
                let mut j = Job { img, set, gamma, dither, hist, fixed, importance, background, early_palette };
                if mt && !order_free(&j) {
                    // keep the case within what is comparable
                    j.hist = true;
                    if !order_free(&j) {
                        j.img.fill = Fill::Runs;
                        j.img.colors.truncate(200);
                    }
                }
                j
            });
        (prop::collection::vec(job, n), any::<u32>()).prop_map(move |(jobs, order)| Case { jobs, mode: mode.clone(), order }).boxed()
    }
    fn check(c: &Case, st: &mut Stats) -> R {
        let mt = c.mode == "mt" || c.mode == "peer4";
        let base: Vec<Digest> = c.jobs.iter().map(|j| run_job(&j.set.attr(), j, false)).collect();
        st.nontrivial(base.iter().any(|d| d.pal.len() >= 3) && (c.jobs.len() > 1 || c.mode.starts_with("peer")));
        if c.mode.starts_with("peer") {
            let other = ask_peer(&c.jobs)?;
            for ((j, a), b) in c.jobs.iter().zip(&base).zip(&other) {
                if mt {
                    if !order_free(j) { continue; }
                } else if j.img.h > 128 && j.dither > 0. && j.set.speed > 1 {
                    // dithering is split in bands depending on the number of threads
                    ensure!(a.err == b.err && a.qerr == b.qerr && a.pal0 == b.pal0 && a.pal == b.pal, "single-threaded build: {b:?}, this build with one thread: {a:?}");
                    st.label("palette only");
                    continue;
                }
                ensure!(same(a, b, !mt), "another process/build gives {b:?}, this one {a:?}");
                st.label(if j.dither > 0. { "dithered" } else { "undithered" });
            }
            return Ok(());
        }
        // the same again in another order
        let mut idx: Vec<usize> = (0..c.jobs.len()).collect();
        let mut r = Sm::new(c.order as u64);
        r.shuffle(&mut idx);
        let cmp = |what: &str, i: usize, d: &Digest| -> R {
            let j = &c.jobs[i];
            if mt && !order_free(j) { return Ok(()); }
            ensure!(same(&base[i], d, !mt), "job {i} {what} gives {d:?}, but at first {:?}", base[i]);
            Ok(())
        };
        for &i in &idx {
            let j = &c.jobs[i];
            let a = j.set.attr();
            cmp("repeated", i, &run_job(&a, j, false))?;
            cmp("repeated with the same attributes object", i, &run_job(&a, j, false))?;
            cmp("with objects moved to other threads", i, &run_job(&a, j, true))?;
        }
        // at the same time; all threads share the attributes
        let attrs: Vec<Attributes> = c.jobs.iter().map(|j| j.set.attr()).collect();
        let out: Vec<Vec<(usize, Digest)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4)
                .map(|t| {
                    let (jobs, attrs) = (&c.jobs, &attrs);
                    s.spawn(move || {
                        (0..jobs.len()).map(|k| {
                            let i = (k + t) % jobs.len();
                            (i, run_job(&attrs[i], &jobs[i], false))
                        }).collect()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec![])).collect()
        });
        for o in out {
            ensure!(o.len() == c.jobs.len(), "a job panicked when run at the same time as others");
            for (i, d) in o {
                cmp("at the same time as others", i, &d)?;
            }
        }
        st.label(if mt { "concurrent, 4 worker threads" } else { "concurrent" });
        Ok(())
    }
}
