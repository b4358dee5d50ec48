//! Runs the repository's own key-value store program, compiled from its sources with the proofs erased,
//! under every choice its environment has: which request arrives when, and when the disk answers.
#![allow(warnings)]
#![feature(rustc_attrs)]
pub mod abstract_system;
pub mod disk;
pub mod env;
pub mod implementation;
pub mod journal;
pub mod marshalling;
pub mod spec;
pub mod trusted;
use crate::env::*;
use crate::implementation::Implementation_v::Implementation;
use crate::trusted::TrustedEntry_t;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let th = a.get(2).map_or(false, |x| x == "thorough");
    // puts, syncs, no-ops, queries, crashes
    let configs: &[[u32; 5]] = match (a[1].as_str(), th) {
        ("sync", false) => &[[3, 3, 1, 0, 0], [2, 4, 0, 0, 0], [4, 2, 1, 0, 0]],
        ("sync", true) => &[[4, 3, 1, 0, 0], [3, 4, 1, 0, 0], [2, 5, 0, 0, 0], [5, 3, 0, 0, 0]],
        ("crash", false) => &[[3, 2, 0, 0, 1], [2, 3, 0, 0, 1], [2, 2, 0, 0, 2]],
        ("crash", true) => &[[3, 3, 0, 0, 1], [4, 2, 1, 0, 1], [2, 3, 0, 0, 2], [3, 2, 0, 0, 2], [2, 2, 0, 0, 3]],
        ("query", false) => &[[2, 1, 0, 2, 0], [2, 1, 0, 1, 1]],
        ("query", true) => &[[3, 1, 0, 2, 0], [3, 2, 0, 1, 1]],
        _ => panic!(),
    };
    let mut unanswered = None;
    let (mut runs, mut steps, mut depth) = (0u64, 0u64, 0usize);
    let mut oc = std::collections::BTreeMap::<&'static str, u64>::new();
    for c in configs {
        let mut prefix: Vec<u32> = vec![];
        loop {
            reset([c[0], c[1], c[2], c[3]], c[4], prefix.clone());
            let mut r;
            loop {
                r = catch_unwind(AssertUnwindSafe(|| TrustedEntry_t::entry::<Implementation>()));
                if matches!(&r, Err(p) if p.downcast_ref::<Crash>().is_some()) {
                    with(|e| Ok(e.restart()));
                    continue;
                }
                break;
            }
            let e = take();
            runs += 1;
            steps += e.log.len() as u64;
            depth = depth.max(e.made.len());
            if let Some(v) = e.bad {
                println!("VIOL {}", v);
                println!("VIOL history: {}", e.log.join("; "));
                std::process::exit(1);
            }
            let ended = match &r {
                Ok(()) => false,
                Err(p) => p.downcast_ref::<End>().is_some(),
            };
            if !ended {
                let why = match r {
                    Ok(()) => "the program ends by itself".to_string(),
                    Err(p) => format!("the program crashes: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
                };
                println!("VIOL {}", why);
                println!("VIOL history: {}", e.log.join("; "));
                std::process::exit(1);
            }
            if let Some(u) = e.unanswered {
                unanswered.get_or_insert((u, e.log.join("; ")));
            }
            for (k, n) in e.oc {
                *oc.entry(k).or_insert(0) += n;
            }
            if runs % 5000 == 1 && runs < 20000 {
                println!("SAMPLE {}", e.log.join("; "));
            }
            // next schedule
            let mut m = e.made;
            loop {
                match m.pop() {
                    None => break,
                    Some((c, n)) if c + 1 < n => {
                        m.push((c + 1, n));
                        break;
                    }
                    _ => {}
                }
            }
            if m.is_empty() {
                break;
            }
            prefix = m.iter().map(|x| x.0).collect();
        }
    }
    if let Some((u, h)) = unanswered {
        println!("VIOL {}", u);
        println!("VIOL history: {}", h);
    }
    println!("BOUNDS every arrival order of (puts, syncs, no-ops, queries, crashes) {:?}, every moment of each disk answer and crash", configs);
    for (k, v) in &oc {
        println!("OUTCOME {}|{}", k, v);
    }
    println!("DONE {} {} {}", runs, steps, depth);
}
