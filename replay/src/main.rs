//! Replays the properties against the real crate: every case is generated from a number, run on the
//! real code, and judged by an oracle written from the property alone. The deductive checks use it to
//! turn a failed obligation into a failing input, and to validate the assumed contracts.
//!
//!   replay PROP --seed N --budget-ms M --max-cases K --out FILE      many cases
//!   replay PROP --case N                                              one case, verbosely
mod drops;
mod ffi;
mod gen;
mod index;
mod io;
mod locks;
mod reads;
mod rng;
mod search;

use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Case {
    /// what was run, in words
    pub text: String,
    /// by the rule of the property, did the case exercise it
    pub nontrivial: bool,
}
pub type Outcome = Result<Case, String>;
pub type Runner = fn(u64) -> Outcome;

fn runner(prop: &str) -> Option<Runner> {
    Some(match prop {
        "P01" => search::p01,
        "P02" => search::p02,
        "P03" => search::p03,
        "P04" => index::p04,
        "P05" => index::p05,
        "P06" => index::p06,
        "P07" => index::p07,
        "P08" => index::p08,
        "P09" => index::p09,
        "P10" => io::p10,
        "P11" => io::p11,
        "P12" => io::p12,
        "P13" => io::p13,
        "P14" => io::p14,
        "P15" => index::p15,
        "P16" => index::p16,
        "P17" => ffi::p17,
        "P18" => index::p18,
        "P19" => locks::p19,
        "P20" => drops::p20,
        "P21" => index::p21,
        "P22" => reads::p22,
        _ => return None,
    })
}

fn one(run: Runner, case: u64) -> Outcome {
    let place = Arc::new(Mutex::new(String::new()));
    PLACE.with(|p| *p.borrow_mut() = Some(place.clone()));
    match catch_unwind(AssertUnwindSafe(|| run(case))) {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            Err(format!("panic: {} {}; {}", m, LAST_PANIC.lock().unwrap(), gen::note_get()))
        }
    }
}
thread_local! { static PLACE: std::cell::RefCell<Option<Arc<Mutex<String>>>> = const { std::cell::RefCell::new(None) }; }
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = a.get(1).cloned().unwrap_or_default();
    let Some(run) = runner(&prop) else {
        eprintln!("unknown property {}", prop);
        std::process::exit(3);
    };
    std::panic::set_hook(Box::new(|i| {
        *LAST_PANIC.lock().unwrap() = i.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
    }));
    if let Some(c) = get("--case") {
        // levels are drawn from the system's entropy and threads interleave freely, so a case is tried several times
        for i in 0..200 {
            match one(run, c.parse().unwrap()) {
                Ok(k) => {
                    if i == 199 {
                        println!("REPLAY-OK {}", k.text)
                    }
                }
                Err(e) => {
                    println!("REPLAY-FAIL {}", e);
                    std::process::exit(1);
                }
            }
        }
        return;
    }
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget = Duration::from_millis(get("--budget-ms").and_then(|s| s.parse().ok()).unwrap_or(5000));
    let maxc: u64 = get("--max-cases").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let out = get("--out");
    let start = Instant::now();
    let limit: u64 = get("--case-limit-s").and_then(|s| s.parse().ok()).unwrap_or(120);
    let write = move |s: &str| match &out {
        Some(f) => std::fs::File::create(f).and_then(|mut f| f.write_all(s.as_bytes())).unwrap(),
        None => println!("{}", s),
    };
    // a case that does not come back is a finding of its own
    static CUR: AtomicU64 = AtomicU64::new(0);
    static BEGUN: AtomicU64 = AtomicU64::new(0);
    {
        let write = write.clone();
        let prop = prop.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = BEGUN.load(Ordering::SeqCst);
            if b > 0 && start.elapsed().as_millis() as u64 > b + limit * 1000 {
                let c = CUR.load(Ordering::SeqCst);
                write(&format!(
                    "{{\"status\":\"fail\",\"property\":{},\"case\":{},\"message\":{}}}",
                    esc(&prop),
                    c,
                    esc(&format!("no return within {} s; {}", limit, gen::note_get()))
                ));
                std::process::exit(1);
            }
        });
    }
    let mut n = 0u64;
    let mut seen = std::collections::HashSet::<u64>::new();
    let mut samples: Vec<String> = vec![];
    while n < maxc && (start.elapsed() < budget || n < 3) {
        let case = seed.wrapping_mul(1_000_003).wrapping_add(n);
        CUR.store(case, Ordering::SeqCst);
        BEGUN.store((start.elapsed().as_millis() as u64).max(1), Ordering::SeqCst);
        n += 1;
        match one(run, case) {
            Ok(k) => {
                if k.nontrivial {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    k.text.hash(&mut h);
                    seen.insert(h.finish());
                    if samples.len() < 3 {
                        samples.push(format!("case {}: {}", case, k.text));
                    }
                }
            }
            Err(e) => {
                write(&format!(
                    "{{\"status\":\"fail\",\"property\":{},\"case\":{},\"evaluations\":{},\"message\":{}}}",
                    esc(&prop),
                    case,
                    n,
                    esc(&e)
                ));
                std::process::exit(1);
            }
        }
    }
    BEGUN.store(0, Ordering::SeqCst);
    write(&format!(
        "{{\"status\":\"ok\",\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"wall_ms\":{},\"samples\":[{}]}}",
        esc(&prop),
        n,
        seen.len(),
        start.elapsed().as_millis(),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
    ));
}
