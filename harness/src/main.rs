#[macro_use]
mod common;
mod capi;
#[cfg(feature = "alloc")]
mod alloc;
mod props;

use common::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::json;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

thread_local! { static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) }; }
static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

struct Args {
    cmd: String,
    prop: String,
    mode: String,
    cases: u32,
    seed: u64,
    worker: u64,
    out: PathBuf,
    case_file: PathBuf,
    isolate_from: Option<u64>,
    thorough: bool,
    no_shrink: bool,
}

fn args() -> Args {
    let mut a = Args { cmd: String::new(), prop: String::new(), mode: String::new(), cases: 100, seed: 1, worker: 0, out: PathBuf::from("/dev/null"), case_file: PathBuf::new(), isolate_from: None, thorough: false, no_shrink: false };
    let mut it = std::env::args().skip(1);
    a.cmd = it.next().unwrap_or_default();
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("argument value");
        match k.as_str() {
            "--prop" => a.prop = v(),
            "--mode" => a.mode = v(),
            "--cases" => a.cases = v().parse().unwrap(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--worker" => a.worker = v().parse().unwrap(),
            "--out" => a.out = v().into(),
            "--case" => a.case_file = v().into(),
            "--isolate-from" => a.isolate_from = Some(v().parse().unwrap()),
            "--thorough" => a.thorough = true,
            "--no-shrink" => a.no_shrink = true,
            _ => panic!("unknown argument {k}"),
        }
    }
    a
}

fn guarded<P: Prop>(c: &P::Case, st: &mut Stats) -> R {
    LAST_PANIC.lock().unwrap().clear();
    match catch_unwind(AssertUnwindSafe(|| P::check(c, st))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.lock().unwrap())),
    }
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn replay_json<P: Prop>(a: &Args, c: &P::Case, msg: &str) -> serde_json::Value {
    json!({"property": a.prop, "mode": a.mode, "message": msg, "case": serde_json::to_value(c).unwrap()})
}

/// Runs one case in a child process; Err when the child reports a violation or dies by a signal.
fn isolated<P: Prop>(a: &Args, c: &P::Case) -> R {
    let f = a.out.with_extension("iso.json");
    std::fs::write(&f, replay_json::<P>(a, c, "").to_string()).unwrap();
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", "--case"]).arg(&f).output().unwrap();
    match o.status.code() {
        Some(0) => Ok(()),
        Some(1) => Err(String::from_utf8_lossy(&o.stdout).into_owned()),
        _ => Err(format!("process died ({:?}): {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(1500).collect::<String>())),
    }
}

fn run<P: Prop>(a: &Args) -> i32 {
    let opts = Opts { mode: a.mode.clone(), thorough: a.thorough };
    let strat = P::strategy(&opts);
    let mut seed = [0u8; 32];
    let mut sm = Sm::new(a.seed.wrapping_mul(1_000_003).wrapping_add(a.worker).wrapping_add(hash(&format!("{}/{}", a.prop, a.mode))));
    for ch in seed.chunks_mut(8) {
        ch.copy_from_slice(&sm.next().to_le_bytes());
    }
    let cfg = Config {
        cases: a.cases,
        failure_persistence: None,
        max_shrink_iters: if a.no_shrink { 0 } else if a.isolate_from.is_some() { 200 } else { 1500 },
        max_shrink_time: 60_000,
        max_global_rejects: 1_000_000,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    let st = RefCell::new(Stats { counting: true, ..Stats::default() });
    let cur = a.out.with_extension("cur.json");
    let last_msg = RefCell::new(String::new());
    let count = RefCell::new(0u64);
    let res = runner.run(&strat, |case| {
        let n = *count.borrow();
        *count.borrow_mut() += 1;
        if let Some(from) = a.isolate_from {
            if n < from {
                return Ok(());
            }
            return isolated::<P>(a, &case).map_err(|m| {
                *last_msg.borrow_mut() = m;
                TestCaseError::fail("violation")
            });
        }
        let js = serde_json::to_value(&case).unwrap();
        let txt = json!({"property": a.prop, "mode": a.mode, "index": n, "message": "process died while executing this case", "case": js}).to_string();
        std::fs::write(&cur, &txt).unwrap();
        let mut s = st.borrow_mut();
        s.cur_nontrivial = false;
        let r = guarded::<P>(&case, &mut s);
        if s.counting {
            s.evaluations += 1;
            if s.cur_nontrivial {
                s.nontrivial_hashes.insert(hash(&js.to_string()));
                if s.samples.len() < 2 && js.to_string().len() < 4000 {
                    s.samples.push(js);
                }
            }
        }
        r.map_err(|m| {
            s.counting = false; // what follows is shrinking
            *last_msg.borrow_mut() = m;
            TestCaseError::fail("violation")
        })
    });
    let s = st.into_inner();
    let mut violation = serde_json::Value::Null;
    let mut code = 0;
    match res {
        Ok(()) => {}
        Err(TestError::Fail(_, case)) => {
            // the message that belongs to the minimal case
            let mut tmp = Stats::default();
            let msg = if a.isolate_from.is_some() { last_msg.into_inner() } else { guarded::<P>(&case, &mut tmp).err().unwrap_or_else(|| format!("(not reproduced on re-execution) {}", last_msg.borrow())) };
            violation = replay_json::<P>(a, &case, &msg);
            code = 1;
        }
        Err(e) => {
            eprintln!("generator failure: {e}");
            code = 2;
        }
    }
    let hashes: Vec<String> = s.nontrivial_hashes.iter().map(|h| format!("{h:x}")).collect();
    let out = json!({"evaluations": s.evaluations, "nontrivial": hashes, "labels": s.labels, "samples": s.samples, "rule": P::RULE, "violation": violation});
    std::fs::write(&a.out, out.to_string()).unwrap();
    code
}

fn replay<P: Prop>(v: &serde_json::Value) -> i32 {
    let c: P::Case = serde_json::from_value(v["case"].clone()).expect("case of this property");
    let mut st = Stats::default();
    match guarded::<P>(&c, &mut st) {
        Ok(()) => {
            println!("held");
            0
        }
        Err(m) => {
            println!("violated: {m}");
            1
        }
    }
}

macro_rules! dispatch {
    ($id:expr, $f:ident, $arg:expr) => {
        props::with_prop!($id, $f, $arg)
    };
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { String::from("?") };
        let mut l = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if l.is_empty() {
            *l = format!("{m} at {}", i.location().map(|l| l.to_string()).unwrap_or_default());
        }
    }));
    let mut a = args();
    let code = match a.cmd.as_str() {
        "run" => dispatch!(a.prop.as_str(), run, &a),
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(Path::new(&a.case_file)).unwrap()).unwrap();
            a.prop = v["property"].as_str().unwrap().to_string();
            dispatch!(a.prop.as_str(), replay, &v)
        }
        "serve" => props::c15::serve(),
        _ => {
            eprintln!("usage: liqpbt run|replay");
            2
        }
    };
    std::process::exit(code);
}
