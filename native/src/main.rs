//! Runs the contracts natively on generated inputs.
//! native run HARNESS SEED FROM COUNT MILLIS [hints-file]   search
//! native show HARNESS SEED CASE [hints-file]               replay one case
mod any;
mod dict;
mod gen;
mod text;

use gen::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CASE: AtomicU64 = AtomicU64::new(0);
static BUSY: AtomicBool = AtomicBool::new(false);
thread_local!(static MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

fn hints(path: Option<&String>) -> HashMap<String, Vec<Hint>> {
    let mut m: HashMap<String, Vec<Hint>> = HashMap::new();
    if let Some(p) = path {
        for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
            let f: Vec<&str> = l.splitn(3, '\t').collect();
            if f.len() < 3 {
                continue;
            }
            let h = match f[1] {
                "I" => f[2].parse().ok().map(Hint::I),
                "F" => f[2].parse().ok().map(Hint::F),
                "B" => Some(Hint::B(f[2] == "1")),
                _ => Some(Hint::S(f[2].replace("\\n", "\n"))),
            };
            if let Some(h) = h {
                m.entry(f[0].to_string()).or_insert_with(Vec::new).push(h);
            }
        }
    }
    m
}

enum Res {
    Ok,
    Skip,
    Fail(String),
}

fn one(h: fn(&mut G, bool), seed: u64, case: u64, hs: &HashMap<String, Vec<Hint>>, show: bool) -> Res {
    let mut g = G::new(seed, case);
    if !hs.is_empty() && case % 3 != 2 {
        g.hints = hs.clone();
        g.use_hints = true;
    }
    MSG.with(|m| m.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| h(&mut g, show))) {
        Ok(()) => Res::Ok,
        Err(e) => {
            if e.is::<kspec::prim::Skip>() {
                Res::Skip
            } else {
                Res::Fail(MSG.with(|m| m.borrow().clone()))
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', " ");
        MSG.with(|m| *m.borrow_mut() = s);
    }));
    if a[1] == "list" {
        for (n, _) in any::REG {
            println!("{}", n);
        }
        return;
    }
    let h = match any::REG.iter().find(|x| x.0 == a[2]) {
        Some(h) => h.1,
        None => {
            println!("NOHARNESS {}", a[2]);
            return;
        }
    };
    let seed: u64 = a[3].parse().unwrap();
    if a[1] == "show" {
        let case: u64 = a[4].parse().unwrap();
        let hs = hints(a.get(5));
        match one(h, seed, case, &hs, true) {
            Res::Ok => println!("RESULT held"),
            Res::Skip => println!("RESULT precondition not met"),
            Res::Fail(m) => {
                println!("RESULT failed: {}", m);
                std::process::exit(1);
            }
        }
        return;
    }
    let from: u64 = a[4].parse().unwrap();
    let count: u64 = a[5].parse().unwrap();
    let ms: u64 = a[6].parse().unwrap();
    let hs = hints(a.get(7));
    let started = Instant::now();
    let last = std::sync::Arc::new(Mutex::new(Instant::now()));
    let l2 = last.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        if BUSY.load(Ordering::SeqCst) && l2.lock().unwrap().elapsed() > Duration::from_secs(8) {
            println!("HANG {}", CASE.load(Ordering::SeqCst));
            std::process::exit(3);
        }
    });
    let t = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let (mut ran, mut skipped) = (0u64, 0u64);
            for c in from..from + count {
                if c % 16 == 0 {
                    *last.lock().unwrap() = Instant::now();
                    if started.elapsed() > Duration::from_millis(ms) {
                        break;
                    }
                }
                CASE.store(c, Ordering::SeqCst);
                BUSY.store(true, Ordering::SeqCst);
                match one(h, seed, c, &hs, false) {
                    Res::Ok => ran += 1,
                    Res::Skip => skipped += 1,
                    Res::Fail(m) => {
                        println!("FAIL {} {}", c, m);
                        return;
                    }
                }
            }
            println!("DONE {} {}", ran, skipped);
        })
        .unwrap();
    t.join().unwrap();
}
