//! native list | search <iterations> <seed> | replay <contract> <tape hex,hex,...>
#![cfg(not(kani))]
use esv::nd::{Discard, Mode, Returned, LOG, MODE};
use esv::Entry;
use std::panic::{catch_unwind, set_hook};

enum Out { Ok, Skip, Bad(String) }
fn run(e: &Entry) -> Out {
    LOG.with(|l| l.borrow_mut().clear());
    match catch_unwind(e.f) {
        Ok(()) if e.must_panic => Out::Skip,
        Ok(()) => Out::Ok,
        Err(p) if p.is::<Discard>() => Out::Skip,
        Err(p) if p.is::<Returned>() => Out::Bad(format!("returned where it must panic: {}", p.downcast_ref::<Returned>().unwrap().0)),
        Err(_) if e.must_panic => Out::Ok,
        Err(p) => Out::Bad(p.downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or("panic".into())),
    }
}
fn tape() -> String {
    LOG.with(|l| l.borrow().iter().map(|b| b.iter().map(|x| format!("{x:02x}")).collect::<String>()).collect::<Vec<_>>().join(","))
}
fn main() {
    set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let reg = esv::registry();
    match a[1].as_str() {
        "list" => for e in &reg { println!("{} {} {}", e.name, if e.must_panic { "panics" } else { "total" }, if e.kani { "kani" } else { "native" }); },
        "search" => {
            let n: u64 = a[2].parse().unwrap();
            let seed: u64 = a[3].parse().unwrap();
            let only = a.get(4).cloned().unwrap_or_default();
            let mut bad = 0;
            for e in reg.iter().filter(|e| e.name.contains(&only)) {
                let (mut ok, mut skip) = (0u64, 0u64);
                let mut uniq = std::collections::HashSet::new();
                let h = e.name.bytes().fold(seed, |h, b| h.wrapping_mul(0x100000001b3) ^ b as u64);
                MODE.with(|m| *m.borrow_mut() = Mode::Rng(h.wrapping_mul(0x9E3779B97F4A7C15)));
                let mut failed = false;
                for _ in 0..n {
                    match run(e) {
                        Out::Ok => { ok += 1; LOG.with(|l| { use std::hash::*; let mut s = std::collections::hash_map::DefaultHasher::new(); l.borrow().hash(&mut s); uniq.insert(s.finish()); }); }
                        Out::Skip => skip += 1,
                        Out::Bad(m) => { println!("BAD {} {} {}", e.name, tape(), m.replace('\n', " ")); failed = true; bad += 1; break; }
                    }
                }
                if !failed { println!("RAN {} ok={} skip={} distinct={} last={}", e.name, ok, skip, uniq.len(), tape()); }
            }
            println!("DONE bad={bad}");
            std::process::exit(if bad > 0 { 1 } else { 0 });
        }
        "replay" => {
            let e = reg.iter().find(|e| e.name == a[2] || e.name.ends_with(&format!("::{}", a[2]))).expect("no such contract");
            let t = a.get(3).map(|s| s.as_str()).unwrap_or("").split(',').filter(|s| !s.is_empty())
                .map(|s| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
            MODE.with(|m| *m.borrow_mut() = Mode::Tape(t));
            match run(e) {
                Out::Ok => println!("HOLDS {}", e.name),
                Out::Skip => println!("PRECONDITION-NOT-MET {}", e.name),
                Out::Bad(m) => { println!("VIOLATED {} {}", e.name, m); std::process::exit(1); }
            }
        }
        _ => std::process::exit(2),
    }
}
