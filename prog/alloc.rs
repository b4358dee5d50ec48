//! The compiled page allocator (proofs erased) under every sequence of operations its preconditions admit.
#![allow(warnings)]
#![feature(rustc_attrs)]
pub mod allocation_layer {
    pub mod MiniAllocator_v;
}
pub mod disk;
pub mod exec;
pub mod spec;
use crate::exec::MiniAllocator_v::*;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn bad(s: String, h: &[String]) -> ! {
    println!("VIOL {}", s);
    println!("VIOL history: {}", h.join("; "));
    std::process::exit(1)
}
struct St {
    runs: u64,
    steps: u64,
    oc: BTreeMap<&'static str, u64>,
}
/// allocator of one unit: handed out pages are new, in the unit, and come until it is used up
fn page(st: &mut St, pages: u32, au: u32, ops: &[u8]) {
    let mut a = PageAllocator::new(au);
    let (mut used, mut seen, mut log): (BTreeSet<u32>, BTreeSet<u32>, Vec<String>) = Default::default();
    st.runs += 1;
    for o in ops {
        st.steps += 1;
        if *o == 0 {
            if used.len() as u32 == pages {
                *st.oc.entry("unit used up").or_insert(0) += 1;
                return;
            }
            let p = a.reserve();
            log.push(format!("reserve -> ({}, {})", p.au, p.page));
            if p.au != au || p.page >= pages {
                bad(format!("page ({}, {}) is not in unit {} of {} pages", p.au, p.page, au, pages), &log);
            }
            if !used.insert(p.page) {
                bad(format!("page {} is handed out twice", p.page), &log);
            }
            *st.oc.entry("page allocated").or_insert(0) += 1;
        } else {
            a.observe_all();
            log.push("observe all".into());
            seen = used.clone();
            *st.oc.entry("pages observed").or_insert(0) += 1;
        }
        // what the fields stand for
        let (obs, res): (BTreeSet<u32>, BTreeSet<u32>) = ((0..a.observed).collect(), (0..a.reserved).collect());
        if obs != seen || !used.iter().all(|p| res.contains(p)) || res.len() != used.len() || a.au != au {
            bad(format!("pages {:?} are out, {:?} observed; the allocator says {} and {}", used, seen, a.reserved, a.observed), &log);
        }
    }
}
fn mini(st: &mut St, pages: u32, ops: &[u8]) {
    let mut a = MiniAllocator::empty();
    let (mut unit, mut used, mut log): (Option<u32>, BTreeSet<u32>, Vec<String>) = Default::default();
    st.runs += 1;
    for o in ops {
        st.steps += 1;
        match (*o, unit) {
            (0, None) | (1, None) => {
                let u = 7 + *o as u32;
                a.add_aus(u);
                log.push(format!("add {}", u));
                unit = Some(u);
                used.clear();
            }
            (2, Some(u)) => {
                if used.len() as u32 == pages {
                    *st.oc.entry("unit used up").or_insert(0) += 1;
                    return;
                }
                let p = a.allocate_and_observe();
                log.push(format!("allocate -> ({}, {})", p.au, p.page));
                if p.au != u || p.page >= pages || !used.insert(p.page) {
                    bad(format!("page ({}, {}) is handed out; unit {} of {} pages, in use {:?}", p.au, p.page, u, pages, used), &log);
                }
                *st.oc.entry("page allocated").or_insert(0) += 1;
            }
            (3, Some(_)) => {
                a.prune();
                log.push("prune".into());
                unit = None;
                *st.oc.entry("unit given up").or_insert(0) += 1;
            }
            _ => return,
        }
        match (&a.allocs, unit) {
            (None, None) => {}
            (Some(p), Some(u)) if p.au == u && p.reserved as usize == used.len() && p.observed == p.reserved => {}
            _ => bad(format!("unit {:?} with pages {:?} in use, all observed: the allocator disagrees", unit, used), &log),
        }
    }
}
fn all(n: usize, k: u8, f: &mut dyn FnMut(&[u8])) {
    let mut v = vec![0u8; n];
    loop {
        f(&v);
        let mut i = n;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            if v[i] + 1 < k {
                v[i] += 1;
                v[i + 1..].iter_mut().for_each(|x| *x = 0);
                break;
            }
        }
    }
}
fn main() {
    let th = std::env::args().nth(1).map_or(false, |x| x == "thorough");
    let (d1, d2) = if th { (16, 11) } else { (12, 9) };
    let mut st = St { runs: 0, steps: 0, oc: BTreeMap::new() };
    std::panic::set_hook(Box::new(|_| {}));
    let r = catch_unwind(AssertUnwindSafe(|| {
        for pages in [1, 3, 8] {
            for au in [0, 5] {
                all(d1, 2, &mut |o| page(&mut st, pages, au, o));
            }
            all(d2, 4, &mut |o| mini(&mut st, pages, o));
        }
    }));
    if r.is_err() {
        println!("VIOL the allocator crashes");
        std::process::exit(1);
    }
    println!("BOUNDS every operation sequence of length {} (one unit) and {} (allocator), units of 1, 3 and 8 pages", d1, d2);
    for (k, v) in &st.oc {
        println!("OUTCOME {}|{}", k, v);
    }
    println!("DONE {} {} {}", st.runs, st.steps, d1);
}
