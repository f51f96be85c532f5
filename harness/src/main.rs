//! Executes cases (one JSON object per line) against the real code and records what it returned.
//! Usage: vh CASES OUT FROM SECONDS
#![allow(dead_code, unused_macros, unused_imports)]
#[cfg(feature = "cache")]
mod cache;
mod coef;
#[cfg(any(feature = "mat", feature = "red", feature = "cache"))]
mod dynm;
#[cfg(feature = "fld")]
mod fld;
#[cfg(feature = "heap")]
mod heap;
mod hint;
mod json;
mod key;
#[cfg(feature = "cache")]
mod lazy;
#[cfg(any(feature = "mat", feature = "red", feature = "cache"))]
mod oracle;
#[cfg(feature = "red")]
mod red;
#[cfg(feature = "rips")]
mod rips;
#[cfg(feature = "gr")]
mod gr;

use json::{bad, parse, Val};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

pub struct Rec {
    pub ev: RefCell<Vec<Val>>,
    pub out: RefCell<Vec<(String, Val)>>,
}
impl Rec {
    pub fn ev(&self, v: Val) {
        self.ev.borrow_mut().push(v);
    }
    /// Log the input event `e` with result `r`
    pub fn res(&self, e: &Val, r: impl Into<Val>) {
        let mut e = e.clone();
        e.set("r", r.into());
        self.ev(e);
    }
    pub fn out(&self, k: &str, v: impl Into<Val>) {
        self.out.borrow_mut().push((k.to_string(), v.into()));
    }
}

#[allow(unused_variables)]
fn run_case(case: &Val, rec: &Rec) {
    match case.at("k").str() {
        #[cfg(feature = "fld")]
        "fld" => fld::run(case, rec),
        #[cfg(feature = "heap")]
        "heap" => heap::run(case, rec),
        #[cfg(feature = "cache")]
        "cache" => cache::run(case, rec),
        #[cfg(feature = "red")]
        "red" => red::run(case, rec),
        #[cfg(feature = "rips")]
        "rips" => rips::run(case, rec),
        #[cfg(feature = "gr")]
        "gr" => gr::run(case, rec),
        #[cfg(feature = "mat")]
        "mat" => oracle::run(case, rec),
        k => bad(&format!("kind {k}")),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (cases, out, from, secs) = (&a[1], &a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let beat = Arc::new(AtomicU64::new(from));
    let done = Arc::new(AtomicU64::new(0));
    let (b2, d2) = (beat.clone(), done.clone());
    let file = std::io::BufReader::new(std::fs::File::open(cases).unwrap());
    let mut outf = std::fs::OpenOptions::new().create(true).append(true).open(out).unwrap();
    let worker = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            for (i, line) in file.lines().enumerate() {
                let line = line.unwrap();
                if (i as u64) < from || line.trim().is_empty() {
                    continue;
                }
                b2.store(i as u64, Ordering::SeqCst);
                let mut case = parse(&line);
                let rec = Rec { ev: RefCell::new(vec![]), out: RefCell::new(vec![]) };
                let r = catch_unwind(AssertUnwindSafe(|| run_case(&case, &rec)));
                case.set("ev", Val::A(rec.ev.into_inner()));
                for (k, v) in rec.out.into_inner() {
                    case.set(&k, v);
                }
                match r {
                    Ok(()) => case.set("outcome", "ok".into()),
                    Err(e) => {
                        let m = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        case.set("outcome", "panic".into());
                        case.set("msg", Val::S(m));
                    }
                }
                let mut s = case.dump();
                s.push('\n');
                outf.write_all(s.as_bytes()).unwrap();
            }
            d2.store(1, Ordering::SeqCst);
        })
        .unwrap();
    let (mut last, mut ticks) = (u64::MAX, 0);
    while done.load(Ordering::SeqCst) == 0 && !worker.is_finished() {
        std::thread::sleep(Duration::from_millis(20));
        let b = beat.load(Ordering::SeqCst);
        if b == last {
            ticks += 1;
            if ticks > secs * 50 {
                std::process::exit(3); // hang; the orchestrator records it
            }
        } else {
            last = b;
            ticks = 0;
        }
    }
    if worker.join().is_err() {
        std::process::exit(4);
    }
}
